package c19

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"testing"

	"github.com/protolambda/zssz"

	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/reg"
	"zverif/z"
)

func TestMain(m *testing.M) { h.Main(m) }

type w0 struct{}
type w1 struct{}
type w5 struct{}
type w100 struct{}
type w64k struct{}
type wHuge1 struct{}
type wHuge2 struct{}
type wHuge3 struct{}
type wHuge4 struct{}
type wHuge5 struct{}

func (w0) N() uint64     { return 0 }
func (w1) N() uint64     { return 1 }
func (w5) N() uint64     { return 5 }
func (w100) N() uint64   { return 100 }
func (w64k) N() uint64   { return 1 << 16 }
func (wHuge1) N() uint64 { return 1<<61 + 1 }
func (wHuge2) N() uint64 { return 1 << 62 }
func (wHuge3) N() uint64 { return 1 << 63 }
func (wHuge4) N() uint64 { return 1<<64 - 1 }
func (wHuge5) N() uint64 { return 1<<64 - 31 }

func ty[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

type wide struct {
	Cache [100000]byte `ssz:"omit"`
	A     uint8
	B     reg.By[w5]
}

// blob: an element that needs much more than its offset
type blob struct {
	A [4000]byte
	B reg.By[w5]
}

type pad struct {
	A uint8
	B uint64
	C uint8
	D *uint64
}

// wild types: elements without content, limits near 2^64, memory much larger than the encoding.
var wild = []reflect.Type{
	ty[reg.Li[struct{}, w0]](), ty[reg.Li[struct{}, w5]](), ty[reg.Li[struct{}, w64k]](), ty[reg.Li[[0]uint64, w100]](), ty[reg.Li[[0]byte, w5]](),
	ty[reg.Li[[0]struct{ A uint8 }, w5]](), ty[reg.Li[reg.OnlyOmit, w64k]](), ty[reg.Li[*struct{}, wHuge4]](), ty[reg.Li[[0]reg.By[w5], w100]](),
	ty[[3]reg.Li[struct{}, w5]](), ty[struct {
		A reg.Li[struct{}, w5]
		B uint8
	}](), ty[[0]reg.By[w5]](), ty[[0]struct{ A reg.By[w5] }](), ty[struct {
		A [0]reg.By[w5]
		B [0]byte
	}](), ty[reg.Li[reg.Li[struct{}, w5], w5]](), ty[reg.Li[struct{ A, B [0]uint16 }, w5]](),
	ty[reg.By[wHuge1]](), ty[reg.By[wHuge2]](), ty[reg.By[wHuge3]](), ty[reg.By[wHuge4]](), ty[reg.Bl[wHuge4]](), ty[reg.Bl[wHuge3]](), ty[reg.Bl[wHuge5]](),
	ty[reg.Li[uint64, wHuge1]](), ty[reg.Li[uint64, wHuge3]](), ty[reg.Li[uint64, wHuge4]](), ty[reg.Li[uint16, wHuge4]](), ty[reg.Li[bool, wHuge4]](),
	ty[reg.Li[[32]byte, wHuge1]](), ty[reg.Li[[32]byte, wHuge4]](), ty[reg.Li[reg.By[w5], wHuge2]](), ty[reg.Li[reg.By[w5], wHuge4]](), ty[reg.Li[reg.By[wHuge4], wHuge4]](),
	ty[struct{ A, B reg.By[wHuge4] }](), ty[[2]reg.Li[uint64, wHuge3]](),
	ty[wide](), ty[reg.Li[wide, w5]](), ty[reg.Li[*wide, w100]](), ty[reg.Li[pad, w64k]](), ty[reg.Li[*pad, w64k]](), ty[reg.Li[**uint8, w64k]](), ty[[50]reg.Li[*pad, w5]](),
	ty[reg.Li[reg.Li[reg.Li[reg.By[w5], w64k], w64k], w64k]](), ty[reg.Li[[40]reg.By[w5], w64k]](),
	ty[reg.Li[blob, w64k]](), ty[reg.Li[*blob, wHuge2]](), ty[reg.Li[[2]blob, w64k]](), ty[reg.Li[reg.Li[blob, w64k], w64k]](),
	ty[reg.Li[[33]bool, w5]](), ty[reg.By[w0]](), ty[reg.Bl[w0]](), ty[reg.Li[uint16, w0]](), ty[reg.Li[reg.By[w5], w0]](), ty[reg.By[w1]](), ty[reg.Li[reg.Bl[w1], w64k]](),
}

var wildTyps []*z.Typ

func init() {
	for _, t := range wild {
		d, err := ref.FromType(t)
		if err != nil {
			panic(err)
		}
		wildTyps = append(wildTyps, &z.Typ{T: t, D: d})
	}
}

func draw(c *h.C) (*z.Typ, bool) {
	if gen.Index(c.T, 2, "wild") == 0 {
		typ := gen.From(c.T, wildTyps, "wild type")
		return z.Get(c, typ.T, typ.D), true
	}
	return gen.Type(c.T), false
}

const cap62 = uint64(1) << 50

func mul(a, b uint64) uint64 {
	if a != 0 && b > cap62/a {
		return cap62
	}
	return a * b
}

// footprint is the memory of a value without list elements, pointees included.
func footprint(d *ref.Desc) uint64 {
	n := uint64(d.T.Size())
	t := d.T
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
		n += uint64(t.Size()) + 16
	}
	switch d.Kind {
	case ref.Vector:
		n += mul(d.N, footprint(d.Elem))
	case ref.Container:
		for _, f := range d.Fields {
			n += footprint(f.D)
		}
	}
	return min(n, cap62)
}

// factor is the memory per encoded byte.
func factor(d *ref.Desc) uint64 {
	f := uint64(4)
	switch d.Kind {
	case ref.Vector:
		f = factor(d.Elem)
	case ref.List:
		per := d.Elem.FixedLen
		if !d.Elem.Fixed {
			// an element is known to need its offset and its own fixed part
			per += 4
		}
		fz := d.Elem.FuzzMin
		if fz > 0 && fz < per {
			per = fz
		}
		if per == 0 {
			per = 1
		}
		f = max(factor(d.Elem), (footprint(d.Elem)+32)/per+8)
	case ref.Container:
		for _, x := range d.Fields {
			f = max(f, factor(x.D))
		}
	}
	return f
}

// bound on the allocated bytes for a declared length.
func bound(d *ref.Desc, n uint64) uint64 {
	if !d.Overflow && d.Max < n {
		n = d.Max
	}
	return 64<<10 + 4*footprint(d) + mul(4*uint64(d.Depth+2)*factor(d), n)
}

// length draws a declared length for n available bytes; the memory bound stays affordable.
func length(c *h.C, d *ref.Desc, n int) (uint64, string) {
	l, kind := uint64(n), "true length"
	switch gen.Index(c.T, 8, "length") {
	case 0, 1, 2:
	case 3:
		l, kind = uint64(gen.Index(c.T, n+1, "less")), "less"
	case 4:
		l, kind = l+1+uint64(gen.Index(c.T, 64, "more")), "a little more"
	case 5:
		l, kind = l+uint64(1)<<uint(10+gen.Index(c.T, 16, "log")), "much more"
	case 6:
		l, kind = uint64(1)<<uint(26+gen.Index(c.T, 38, "log"))-uint64(gen.Index(c.T, 3, "d")), "huge"
	case 7:
		l, kind = ^uint64(0)-uint64(gen.Index(c.T, 40, "d")), "near 2^64"
	}
	if bound(d, l) > 64<<20 && l > uint64(n) {
		return uint64(n), "true length"
	}
	return l, kind
}

// hostile bytes: faults, small words, random, with plausible offsets
func input(c *h.C, d *ref.Desc) ([]byte, string) {
	if !d.Overflow && !d.ZeroElem && gen.Index(c.T, 2, "structured") == 0 {
		return gen.Bytes(c.T, d)
	}
	n := gen.Index(c.T, 200, "n")
	if gen.Index(c.T, 6, "big") == 0 {
		n = gen.Index(c.T, 20000, "n")
	}
	b := make([]byte, n)
	r := &bridge.Rng{S: gen.Seed(c.T, "seed")}
	switch gen.Index(c.T, 5, "fill") {
	case 0:
		return b, "zeros"
	case 1:
		r.Fill(b)
		return b, "random"
	case 2: // offset-like words
		w := 4 * (1 + r.N(2))
		for i := 0; i+4 <= n; i += w {
			x := uint32(r.N(n + 9))
			if r.N(3) == 0 {
				x = uint32(n - n%4)
			}
			if r.N(3) == 0 {
				x &^= 3
			}
			if r.N(40) == 0 {
				x = uint32(r.U())
			}
			b[i], b[i+1], b[i+2], b[i+3] = byte(x), byte(x>>8), byte(x>>16), byte(x>>24)
		}
		return b, "offsets"
	case 3: // one first offset over everything
		x := uint32(n &^ 3)
		for i := 0; i+4 <= n; i += 4 {
			b[i], b[i+1], b[i+2], b[i+3] = byte(x), byte(x>>8), byte(x>>16), byte(x>>24)
		}
		return b, "equal offsets"
	}
	for i := range b {
		b[i] = 0xff
	}
	return b, "ones"
}

func TestHostile(t *testing.T) {
	var before, after runtime.MemStats
	h.Check(t, 1, func(c *h.C) {
		typ, isWild := draw(c)
		b, kind := input(c, typ.D)
		l, lk := length(c, typ.D, len(b))
		var dst reflect.Value
		if isWild || gen.Index(c.T, 2, "fresh") == 0 {
			dst = reflect.New(typ.T)
		} else {
			dst, _ = gen.Dst(c.T, typ.D)
		}
		endless := gen.Index(c.T, 6, "endless") == 0 && l < 1<<26
		var r io.Reader = bytes.NewReader(b)
		if endless {
			r = io.MultiReader(r, forever{})
		}
		op := gen.Index(c.T, 3, "op")
		name := []string{"Decode", "DryCheck", "DecodeFuzzBytes"}[op]
		limit := bound(typ.D, l)
		val := dst.Interface()
		var err error
		var p any
		var st string
		runtime.ReadMemStats(&before)
		switch op {
		case 0:
			p, st = z.Panics(func() { err = zssz.Decode(r, l, val, typ.S) })
		case 1:
			p, st = z.Panics(func() { err = zssz.DryCheck(r, l, typ.S) })
		case 2:
			p, st = z.Panics(func() { _, err = zssz.DecodeFuzzBytes(r, l, val, typ.S) })
		}
		runtime.ReadMemStats(&after)
		if p != nil {
			z.Violated(c, "%s of %s panicked with declared length %d, bytes %s (%d): %v\n%s", name, typ, l, ref.Short(b), len(b), p, st)
		}
		if used := after.TotalAlloc - before.TotalAlloc; used > limit {
			z.Violated(c, "%s of %s allocated %d bytes for declared length %d (maximum of the type %d), bound %d\nbytes %s (%d)", name, typ, used, l, typ.D.Max, limit, ref.Short(b), len(b))
		}
		c.Label("%s: length %s, accepted=%v", name, lk, err == nil)
		if kind != "valid" || l != uint64(len(b)) {
			c.NonTrivial(gen.BytesSample(typ, b, kind, fmt.Sprintf("%s with declared length %d: accepted=%v", name, l, err == nil)), name, typ.T, l, b)
		}
	})
}

type forever struct{}

func (forever) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 1
	}
	return len(p), nil
}
