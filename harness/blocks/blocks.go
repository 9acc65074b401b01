// Package blocks makes values, encodings and faults at the boundaries of blocks of 2^9 to 2^20 bytes or elements, where
// code that works block by block changes its course.
package blocks

import (
	"bytes"
	"fmt"
	"reflect"

	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/reg"
	"zverif/z"
)

type big struct{}
type m1 struct{}
type k64 struct{}
type k64p struct{}

func (big) N() uint64  { return 1 << 40 }
func (m1) N() uint64   { return 1 << 20 }
func (k64) N() uint64  { return 1 << 16 }
func (k64p) N() uint64 { return 1<<16 + 1 }

type by = reg.By[big]
type bools = reg.Li[bool, big]
type wide struct {
	A uint8
	B by
	C bools
	D uint16
	E reg.Bl[big]
}
type flag struct {
	N uint16
	F bool
}

type bv15 [1 << 12]byte
type bv16 [1<<13 + 1]byte
type bv19 [1 << 16]byte

func (*bv15) BitLen() uint64 { return 1 << 15 }
func (*bv16) BitLen() uint64 { return 1<<16 + 3 }
func (*bv19) BitLen() uint64 { return 1<<19 - 1 }

func ty[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

// types with one large part; of fixed-size ones, at the usual boundaries
var types = []reflect.Type{
	ty[by](), ty[reg.By[m1]](), ty[reg.By[k64]](), ty[bools](), ty[reg.Li[bool, k64p]](), ty[reg.Li[uint16, big]](), ty[reg.Li[uint64, m1]](),
	ty[reg.Li[uint32, k64]](), ty[reg.Bl[big]](), ty[reg.Bl[m1]](), ty[reg.Bl[k64]](),
	ty[[1 << 16]byte](), ty[[1<<15 + 1]byte](), ty[[1 << 12]bool](), ty[[1<<16 + 1]bool](), ty[[1<<15 - 1]uint16](), ty[[1 << 14]uint32](), ty[[1<<13 + 1]uint64](),
	ty[reg.Li[[3]byte, big]](), ty[reg.Li[[48]byte, m1]](), ty[reg.Li[flag, big]](), ty[reg.Li[*uint16, big]](), ty[reg.Li[*bool, m1]](),
	ty[reg.Li[by, big]](), ty[reg.Li[bools, m1]](), ty[reg.Li[reg.Bl[k64], big]](), ty[[1 << 13]by](), ty[[1<<12 + 1]reg.Bl[big]](),
	ty[struct {
		A [1 << 14]byte
		B by
		C [1<<12 - 1]bool
	}](),
	ty[bv15](), ty[bv16](), ty[bv19](), ty[reg.Li[bv15, k64]](), ty[[1<<16 + 1]by](), ty[[1<<16 + 3]flag](), ty[[1<<12 + 1]*uint32](),
	ty[struct {
		A [1<<16 + 1]uint64
		B by
		C bv16
		D flag
	}](),
	ty[wide](), ty[reg.Li[wide, big]](), ty[[2]wide](), ty[reg.Li[reg.Li[reg.By[k64], big], big]](),
	ty[struct {
		A wide
		B [1 << 12]flag
		C uint32
	}](),
}

// Most is the size that encodings hardly exceed.
const Most = 1 << 20

// Boundary draws a number near a multiple of a power of two.
func Boundary(c *h.C, most int) int {
	j := 9 + gen.Index(c.T, 12, "power")
	for 1<<j > most && j > 0 {
		j--
	}
	x := 1 << j
	if m := most >> j; m > 1 && gen.Index(c.T, 2, "multiple") == 0 {
		x *= 1 + gen.Index(c.T, min(m, 5), "times")
	}
	if gen.Index(c.T, 3, "off") == 0 {
		x += gen.Index(c.T, 9, "delta") - 4
	}
	return max(0, min(x, most))
}

type builder struct {
	c   *h.C
	r   *bridge.Rng
	big bool // the large part is still to come
}

// Value draws a value with a large part whose size or number of elements is near a boundary.
func Value(c *h.C, d *ref.Desc) *ref.Val {
	b := &builder{c: c, r: &bridge.Rng{S: gen.Seed(c.T, "seed")}, big: true}
	return b.val(d, Most)
}

// number of elements of a series
func (b *builder) count(d *ref.Desc, unit uint64, most int) uint64 {
	n := uint64(b.r.N(4))
	if b.big {
		b.big = false
		if gen.Index(b.c.T, 2, "bytes") == 0 {
			n = uint64(Boundary(b.c, most)) / unit
		} else {
			n = uint64(Boundary(b.c, most/int(unit)))
		}
		if gen.Index(b.c.T, 3, "elements") == 0 {
			n += uint64(gen.Index(b.c.T, 3, "more"))
		}
	}
	return min(n, d.Limit)
}

func (b *builder) val(d *ref.Desc, most int) *ref.Val {
	v := &ref.Val{}
	fill := func(n uint64, bits bool) {
		v.B = make([]byte, n)
		b.r.Fill(v.B)
		if bits {
			for i := range v.B {
				v.B[i] &= 1
			}
		}
	}
	switch d.Kind {
	case ref.Bool:
		v.U = b.r.U() & 1
	case ref.Uint:
		v.U = b.r.U() >> (64 - 8*d.Size)
	case ref.BytesN, ref.Bitvector:
		fill(d.N, d.Kind == ref.Bitvector)
	case ref.Bytes:
		fill(b.count(d, 1, most), false)
	case ref.Bitlist:
		was := b.big
		n := b.count(d, 1, most)
		if was && gen.Index(b.c.T, 2, "bits") == 0 {
			n = min(n*8-min(n*8, uint64(gen.Index(b.c.T, 9, "bit"))), d.Limit)
		}
		fill(n, true)
	case ref.Container:
		at := gen.Index(b.c.T, len(d.Fields), "field")
		was := b.big
		for i, f := range d.Fields {
			b.big = was && i == at
			v.E = append(v.E, b.val(f.D, most))
		}
		b.big = false
	case ref.Vector, ref.List:
		if d.PackedElems() {
			n := d.N
			if d.Kind == ref.List {
				n = b.count(d, d.Elem.Size, most)
			}
			fill(n*d.Elem.Size, d.Elem.Kind == ref.Bool)
			return v
		}
		was := b.big
		n := d.N
		deep := !d.Elem.Fixed && was && gen.Index(b.c.T, 2, "deep") == 0
		if d.Kind == ref.List {
			if deep {
				n = 1 + uint64(gen.Index(b.c.T, 4, "n"))
			} else {
				unit := d.Elem.FixedLen
				if !d.Elem.Fixed {
					unit = 6 + d.Elem.Min
				}
				n = b.count(d, unit, min(most, int(unit)<<17))
			}
		}
		at := ^uint64(0)
		if deep && n > 0 {
			at = uint64(gen.Index(b.c.T, int(n), "at"))
			if gen.Index(b.c.T, 2, "last") == 0 {
				at = n - 1
			}
		}
		for i := uint64(0); i < n; i++ {
			b.big = i == at
			v.E = append(v.E, b.val(d.Elem, most-int(min(uint64(most), n*d.Elem.Min))))
		}
		b.big = false
	}
	return v
}

// Type draws a type with a large part.
func Type(c *h.C) *z.Typ {
	t := gen.From(c.T, types, "type")
	d, err := ref.FromType(t)
	if err != nil {
		z.Broken(c, "%v: %v", t, err)
	}
	return z.Get(c, t, d)
}

// Case draws a type with a large part, a value of it, and a Go object of that value.
func Case(c *h.C) *gen.Case {
	k := &gen.Case{Typ: Type(c)}
	k.V = Value(c, k.D())
	k.Enc = ref.Encode(k.D(), k.V)
	k.Obj = bridge.New(k.D(), k.V, gen.Noise(c.T))
	return k
}

// Position draws a position in n bytes: near a boundary, or near an end.
func Position(c *h.C, n int) int {
	switch gen.Index(c.T, 6, "position") {
	case 0:
		return max(0, n-gen.Index(c.T, 6, "left"))
	case 1:
		// as far from the end
		return n - Boundary(c, n)
	}
	return Boundary(c, n)
}

// Fault changes an encoding near a boundary.
func Fault(c *h.C, b []byte) ([]byte, string) {
	if len(b) == 0 {
		return []byte{0}, "extended"
	}
	at := Position(c, len(b)-1)
	switch gen.Index(c.T, 6, "fault") {
	case 0:
		return b[:at:at], fmt.Sprintf("cut at %d", at)
	case 1:
		more := make([]byte, 1+gen.Index(c.T, 8, "more"))
		return append(b[:len(b):len(b)], more...), "extended"
	case 2:
		b = bytes.Clone(b)
		at &^= 3
		if at+4 <= len(b) {
			i := at + gen.Index(c.T, 3, "byte")
			b[i] += byte(gen.Index(c.T, 9, "delta") - 4)
		}
		return b, fmt.Sprintf("word at %d changed", at)
	case 3:
		return append(append(b[:at:at], 0), b[at:]...), fmt.Sprintf("byte inserted at %d", at)
	case 4:
		return append(b[:at:at], b[at+1:]...), fmt.Sprintf("byte missing at %d", at)
	}
	b = bytes.Clone(b)
	b[at] = gen.From(c.T, []byte{2, 0, 0xff, 3, 0x80}, "bad")
	return b, fmt.Sprintf("byte at %d is %d", at, b[at])
}

// Pieces draws the sizes in which a reader delivers: blocks.
func Pieces(c *h.C) (func() int, string) {
	if gen.Index(c.T, 4, "pieces") == 0 {
		return nil, "whole"
	}
	n := Boundary(c, 1<<17)
	if n < 100 {
		n = 512
	}
	return func() int { return n }, fmt.Sprintf("pieces of %d", n)
}
