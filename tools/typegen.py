#!/usr/bin/env python3
"""Generates random Go types for the registry: typegen.py SEED COUNT OUT.go"""
import random, sys

LIMITS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 63, 64, 65, 96, 100, 127, 128,
          129, 160, 192, 200, 249, 255, 256, 257, 258, 300, 384, 500, 511, 512, 513, 600, 768, 1000, 1023, 1024, 1025,
          2048, 3000, 4095, 4096, 4097, 8192, 10000, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1, 1 << 24, 1 << 31,
          (1 << 31) + 1, 1 << 32, (1 << 32) + 5, 1 << 33, 1 << 36, 1 << 40,
          (1 << 45) + 1, 1 << 52, 1 << 56]
SMALL = [l for l in LIMITS if l <= 40]
BYTESN = [1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 20, 31, 32, 33, 47, 48, 49, 63, 64, 65, 95, 96, 97, 100, 127, 128, 129, 160,
          255, 256, 257, 300, 512, 1000]
BITS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 248, 249,
        250, 251, 252, 253, 254, 255, 256, 257, 258, 260, 300, 384, 500, 504, 505, 511, 512, 513, 600, 767, 768, 769,
        1000, 1023, 1024, 1025, 1281, 2048, 2049, 4000]
BASIC = ['bool', 'uint8', 'uint16', 'uint32', 'uint64']
DBASIC = ['DBool', 'DByte', 'DU16', 'DU32', 'DU64']
OMIT = ['map[string]int', 'string', 'chan int', 'func()', 'interface{}', 'float64', 'int', '[]int', '*int', '[3]string',
        'struct{ P *uint8; Q []string }', 'uint64', 'complex128', '[]uint16', 'uintptr', '[5]int8']

OTAGS = ['ssz:"omit"', 'json:"q" ssz:"omit"', 'ssz:"foo,omit"', 'ssz:"omit,squash"', 'ssz:"a,b,omit"', 'ssz:",omit"', 'ssz:"a,b,c,d,omit,e"']
# tags that mean nothing here
NTAGS = ['json:"f,omit" ssz:"squashed"', 'ssz:"Omit"', 'json:"f" ssz:" omit"', 'ssz:","', 'ssz:"omit2,x"', 'ssz:"omi,t"', 'json:"omit"', 'json:"a,omit,b"', 'yaml:"squash"',
         'xml:"a,squash,b" json:"-"', 'sszz:"omit"', 'SSZ:"omit"', 'omit:"ssz"', 'omit', 'a,omit,b', 'ssz', 'ssz:""', 'ssz:omit', 'json:"ssz:omit"', 'ssz:"omit;squash"',
         'ssz-size:"32" ssz-max:"omit"']
# sizes of fixed-size structs that look like something else: words, roots, keys, signatures
SIZES = [1, 2, 4, 8, 12, 16, 20, 24, 31, 32, 32, 33, 40, 48, 64, 96, 128, 256]
STAGS = ['ssz:"squash"', 'ssz:"squash,bar"', 'xml:"a" ssz:"squash"', 'ssz:"a,b,squash"', 'ssz:",squash,"', 'ssz:"a,b,c,squash"']


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.lims, self.decl, self.named, self.n = set(), [], [], 0
        self.bvs = set()

    def lim(self, small):
        n = self.r.choice(SMALL if small else LIMITS)
        self.lims.add(n)
        return 'z%d' % n

    def basic(self):
        return self.r.choice(BASIC if self.r.random() < .75 else DBASIC)

    def bitvec(self):
        return self.bv(self.r.choice(BITS))

    def bv(self, n):
        if n not in self.bvs:
            self.bvs.add(n)
            self.decl.append('type zv%d [%d]byte\nfunc (*zv%d) BitLen() uint64 { return %d }' % (n, (n + 7) // 8, n, n))
        return 'zv%d' % n

    def fresh(self, p='ZT'):
        self.n += 1
        return '%s%d' % (p, self.n)

    # returns an expression; budget bounds the nested size, small asks for small limits
    def typ(self, depth, small=False):
        r = self.r
        x = r.random()
        if depth <= 0 or x < .34:
            return self.leaf(small)
        if x < .37:
            return self.sized(r.choice(SIZES))
        if x < .48:
            e = self.typ(depth - 1, True) if r.random() < .9 else self.sized(r.choice(SIZES))
            return 'Li[%s, %s]' % (e, self.lim(small or r.random() < .5))
        if x < .60:
            return '[%d]%s' % (r.choice([1, 2, 2, 3, 3, 4, 5, 7, 8, 9]), self.typ(depth - 1, True) if r.random() < .9 else self.sized(r.choice(SIZES)))
        if x < .68:
            return '*' + self.typ(depth - 1, small)
        return self.struct(depth - 1, small)

    def leaf(self, small):
        r = self.r
        x = r.random()
        if x < .2:
            return self.basic()
        if x < .32:
            return '[%d]%s' % (r.choice(BYTESN if not small else BYTESN[:12]), r.choice(['byte', 'byte', 'DByte']))
        if x < .42:
            return self.bitvec()
        if x < .52:
            return '[%d]%s' % (r.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 64, 65, 130] if not small else [1, 2, 3, 4, 5, 8, 9, 17]),
                               r.choice(['bool', 'uint16', 'uint32', 'uint64', 'DBool', 'DU16', 'DU32', 'DU64']))
        if x < .66:
            return 'Bl[%s]' % self.lim(small)
        if x < .80:
            return 'By[%s]' % self.lim(small)
        return 'Li[%s, %s]' % (self.basic(), self.lim(small))

    def sized(self, size):
        """A struct of exactly this encoded size, with content that has to be checked."""
        r = self.r
        fs, left = [], size
        while left > 0:
            x = r.random()
            if x < .4 and not (fs and fs[-1].endswith(' bool') and r.random() < .7):
                t, n = 'bool', 1
            elif x < .6:
                t, n = r.choice([('uint8', 1), ('uint16', 2), ('uint32', 4), ('uint64', 8)])
            elif x < .8:
                b = r.choice([b for b in BITS if (b + 7) // 8 <= left])
                if b not in self.bvs:
                    self.bvs.add(b)
                    self.decl.append('type zv%d [%d]byte\nfunc (*zv%d) BitLen() uint64 { return %d }' % (b, (b + 7) // 8, b, b))
                t, n = 'zv%d' % b, (b + 7) // 8
            else:
                n = r.randint(1, left)
                t = '[%d]byte' % n
            if n <= left:
                fs.append('F%d %s' % (len(fs), t))
                left -= n
        return 'struct {\n' + '\n'.join(fs) + '\n}'

    def struct(self, depth, small, size=None):
        r = self.r
        n = size or r.choice([0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9])
        fs, used = [], set()
        for i in range(n):
            x = r.random()
            if x < .10:
                f = '%s %s `%s`' % (r.choice(['', 'x', 'X']).strip() and 'o%d' % i or 'O%d' % i, r.choice(OMIT),
                                    r.choice(OTAGS))
            elif x < .20 and depth > 0:
                s = self.struct(depth - 1, small)
                f = '%s%d %s `%s`' % (r.choice(['S', 'S', 'ASquashedStructWithALongFieldName']), i, s, r.choice(STAGS))
            elif x < .32 and self.named:
                nm = r.choice(self.named)
                if nm in used:
                    f = 'F%d %s' % (i, nm)
                else:
                    used.add(nm)
                    f = r.choice(['%s', '%s', '%s `ssz:"squash"`', '*%s', '%s `ssz:"omit"`', '*%s `ssz:"omit"`', '%s `ssz:"a,b,squash"`']) % nm
            elif x < .35:
                nm = r.choice(DBASIC)
                if nm in used:
                    f = 'F%d %s' % (i, nm)
                else:
                    used.add(nm)
                    f = nm
            else:
                f = '%s%d %s' % (r.choice(['F', 'F', 'F', 'F', 'Field', 'AFieldWithQuiteALongNameIndeed']), i, self.typ(depth, small))
                if r.random() < .15:
                    f += ' `%s`' % r.choice(NTAGS)
            fs.append(f)
        body = 'struct {\n' + '\n'.join(fs) + '\n}' if fs else 'struct{}'
        if r.random() < .4 and fs:
            nm = self.fresh()
            self.decl.append('type %s %s' % (nm, body))
            if len(fs) < 8:
                self.named.append(nm)
            return nm
        return body

    # --- pairs: two representations of one SSZ type ---

    def ptrs(self, e):
        while self.r.random() < .22:
            e = '*' + e
        return e

    def two(self, options):
        """Two representations, each possibly behind pointers."""
        return self.ptrs(self.r.choice(options)), self.ptrs(self.r.choice(options))

    def dual(self, depth, small):
        r = self.r
        x = r.random()
        if depth <= 0 or x < .3:
            return self.dual_leaf(small)
        if x < .5:
            a, b = self.dual(depth - 1, True)
            l = self.lim(small or r.random() < .5)
            return self.ptrs('%s[%s, %s]' % (r.choice(['Li', 'Lv']), a, l)), self.ptrs('%s[%s, %s]' % (r.choice(['Li', 'Lv']), b, l))
        if x < .62:
            a, b = self.dual(depth - 1, True)
            n = r.choice([1, 2, 3, 4, 5, 8, 9])
            return self.ptrs('[%d]%s' % (n, a)), self.ptrs('[%d]%s' % (n, b))
        fs = [self.dual(depth - 1, small) for _ in range(r.choice([0, 1, 2, 3, 3, 4, 5, 6]))]
        return self.ptrs(self.dual_struct([f[0] for f in fs])), self.ptrs(self.dual_struct([f[1] for f in fs]))

    def dual_struct(self, fs):
        """A struct of these fields; some may sit in squashed structs, between omitted fields."""
        r = self.r
        self.n += 1
        out, i = [], 0
        while i < len(fs) or r.random() < .1:
            x = r.random()
            if x < .1:
                out.append('O%d %s `ssz:"omit"`' % (len(out), r.choice(OMIT)))
            elif x < .25:
                k = r.randint(0, len(fs) - i)
                out.append('S%d %s `ssz:"squash"`' % (len(out), self.dual_struct(fs[i:i + k])))
                i += k
            elif i < len(fs):
                out.append('F%d %s' % (len(out), fs[i]))
                i += 1
        body = 'struct {\n' + '\n'.join(out) + '\n}'
        if r.random() < .3:
            nm = self.fresh('ZP')
            self.decl.append('type %s %s' % (nm, body))
            return nm
        return body

    def dual_leaf(self, small):
        r = self.r
        x = r.random()
        k = r.randrange(5)
        if x < .2:
            return self.two([BASIC[k], DBASIC[k]])
        if x < .32:
            n = r.choice(BYTESN[:14])
            return self.two(['[%d]byte' % n, '[%d]DByte' % n, '[%d]*byte' % n])
        if x < .42:
            a = self.bitvec()
            n = int(a[2:])
            b = 'zw%d' % n
            if b not in self.bvs:
                self.bvs.add(b)
                self.decl.append('type %s [%d]DByte\nfunc (%s) BitLen() uint64 { return %d }' % (b, (n + 7) // 8, b, n))
            return self.two([a, b])
        if x < .56:
            n = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 65])
            return self.two(['[%d]%s%s' % (n, p, e) for e in (BASIC[k], DBASIC[k]) for p in ('', '*')])
        l = self.lim(small)
        if x < .7:
            return self.two(['Bl[%s]' % l, 'Bm[%s]' % l])
        if x < .84:
            return self.two(['By[%s]' % l, 'Bv[%s]' % l, 'Li[DByte, %s]' % l, 'Lv[uint8, %s]' % l, 'Lv[*uint8, %s]' % l])
        return self.two(['%s[%s%s, %s]' % (c, p, e, l) for c in ('Li', 'Lv') for e in (BASIC[k], DBASIC[k]) for p in ('', '*')])


def main():
    seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    g = G(seed)
    roots = []
    for i in range(count):
        if i % 4 == 0:
            t = g.leaf(False)
        elif i % 4 == 1:
            t = g.struct(g.r.randint(1, 3), g.r.random() < .5)
        else:
            t = g.typ(g.r.randint(1, 4))
        roots.append(t)
    # wide structs, mostly fixed and mixed
    for w in (g.r.randint(15, 18), g.r.randint(30, 70), g.r.choice([127, 128, 129, 255, 256, 257, 300])):
        fs = []
        for i in range(w):
            fs.append('W%d %s' % (i, g.r.choice(['uint8', 'uint16', 'By[z3]', '[3]byte', 'bool', 'Bl[z9]'])))
        g.lims |= {3, 9}
        roots.append('struct {\n' + '\n'.join(fs) + '\n}')
    # fixed-size structs of special sizes, in every place
    for n in sorted(set(SIZES)):
        k = g.r.randint(0, 2)
        roots.append('[%d]%s' % (g.r.randint(2, 5), g.sized(n)))
        roots.append('Li[%s%s, %s]' % ('*' if k == 0 else '', g.sized(n), g.lim(False)))
        roots.append('struct{ A %s; B *%s; C By[z3]; D %s }' % (g.sized(n), g.sized(n), '[2]' * k + g.sized(n)))
    # small limits with every kind of element
    for i in range(12):
        e = [g.leaf(True), '*' + g.leaf(True), g.struct(1, True), '*' + g.struct(1, True), g.sized(g.r.choice(SIZES)), 'struct{ A uint8; B %s }' % g.basic(), 'struct{ A %s }' % g.leaf(True), 'By[%s]' % g.lim(True),
             'Bl[%s]' % g.lim(True), g.bitvec(), '[%d]%s' % (g.r.randint(1, 3), g.struct(1, True)), 'Li[%s, %s]' % (g.struct(1, True), g.lim(True))][i]
        roots.append('Li[%s, z%d]' % (e, g.r.choice([0, 0, 1])))
    roots += ['Li[%s, z0]' % e for e in ['struct{ A uint8; B uint16 }', 'struct{ A uint8; B By[z3] }', '[2]struct{ A bool }', 'By[z3]', '[3]byte', g.bitvec(), g.basic()]] + ['By[z0]', 'Bl[z0]']
    g.lims |= {0, 1, 3}
    # large ones
    for _ in range(4):
        n = g.r.choice([4096, 8191, 8192, 8193, 16001, 32768, 65535, 65536, 65537, 100003])
        g.bv(n)
        roots.append('struct{ A zv%d; B %s }' % (n, g.leaf(True)) if g.r.random() < .5 else 'zv%d' % n)
        n = g.r.choice([2047, 2048, 4095, 4096, 4097, 6000, 8192, 16384, 32767, 32769, 65535, 65536, 65537, 70000])
        roots.append(['[%d]byte', 'struct{ A uint16; B [%d]byte }', 'struct{ A By[z3]; B [%d]byte }', 'Li[[%d]byte, z2]', '*[%d]byte'][g.r.randint(0, 4)] % n)
        g.lims.add(2)
    # deep nesting
    t = g.leaf(True)
    for _ in range(g.r.randint(5, 9)):
        k = g.r.randint(0, 3)
        if k == 0:
            t = '[%d]%s' % (g.r.randint(1, 2), t)
        elif k == 1:
            t = 'Li[%s, %s]' % (t, g.lim(True))
        elif k == 2:
            t = 'struct{ A uint8; B %s; C %s }' % (t, g.leaf(True))
        else:
            t = '*' + t
    roots.append(t)
    # types of the same name: local to functions
    local = []
    for _ in range(count // 12):
        k = len(local)
        body = g.struct(g.r.randint(0, 2), True) if g.r.random() < .7 else g.leaf(True)
        if not body.startswith('struct') and not body.startswith('['):
            body = 'struct { A %s }' % body
        local.append('func zl%d() reflect.Type {\n\ttype T %s\n\treturn reflect.TypeOf((*%s)(nil)).Elem()\n}'
                     % (k, body, g.r.choice(['T', 'T', 'T', '[2]T', '*T', 'struct{ X uint8; Y T }', 'Li[T, z3]', 'struct{ X T `ssz:"squash"` }' if body.startswith('struct') else 'T'])))
    g.lims.add(3)
    pairs = [g.dual(g.r.choice([0, 1, 1, 2, 2, 3]), g.r.random() < .5) for _ in range(count // 3)]
    with open(out, 'w') as f:
        f.write('package reg\n\nimport "reflect"\n\n')
        for n in sorted(g.lims):
            f.write('type z%d struct{}\nfunc (z%d) N() uint64 { return %d }\n' % (n, n, n))
        f.write('\n\n'.join(g.decl + local) + '\n\nfunc init() {\n\tgenTypes = []reflect.Type{\n')
        for k in range(len(local)):
            f.write('zl%d(),\n' % k)
        for t in roots:
            f.write('reflect.TypeOf((*%s)(nil)).Elem(),\n' % t)
        f.write('}\n\tgenPairs = [][2]reflect.Type{\n')
        for a, b in pairs:
            f.write('{reflect.TypeOf((*%s)(nil)).Elem(), reflect.TypeOf((*%s)(nil)).Elem()},\n' % (a, b))
        f.write('}\n}\n')


main()
