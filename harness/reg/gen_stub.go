package reg
