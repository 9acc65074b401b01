package c07

import (
	"reflect"
	"testing"

	"zverif/blocks"
	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/huge"
	"zverif/ref"
	"zverif/reg"
	"zverif/z"
)

func TestMain(m *testing.M) { h.Main(m) }

func figures(c z.TB, typ *z.Typ) {
	d := typ.D
	type fig struct {
		fixed        bool
		flen, lo, hi uint64
	}
	var got fig
	z.Try(c, "length figures", func() {
		got = fig{typ.S.IsFixed(), typ.S.FixedLen(), typ.S.MinLen(), typ.S.MaxLen()}
	})
	want := fig{d.Fixed, d.FixedLen, d.Min, d.Max}
	if d.Kind >= ref.Bytes && !d.Fixed && (d.Kind == ref.Bytes || d.Kind == ref.Bitlist || d.Kind == ref.List) {
		want.flen = 0
	}
	if got != want {
		z.Violated(c, "figures of %s {fixed, FixedLen, MinLen, MaxLen}\ngot  %+v\nwant %+v", typ, got, want)
	}
}

// TestFigures checks the figures of every registered type.
func TestFigures(t *testing.T) {
	for _, e := range reg.All() {
		figures(t, z.Get(t, e.T, e.D))
	}
	h.Count(t.Name(), len(reg.All()))
}

func TestSize(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		k := gen.NewCase(c.T)
		figures(c, k.Typ)
		n := z.Size(c, k.Typ, k.Ptr())
		enc := z.Encode(c, k.Typ, k.Ptr())
		if n != uint64(len(enc)) {
			z.Violated(c, "SizeOf of %s is %d, Encode wrote %d\nvalue %s", k.Typ, n, len(enc), ref.Render(k.D(), k.V))
		}
		if n != uint64(len(k.Enc)) {
			z.Violated(c, "SizeOf of %s is %d, the encoding has %d\nvalue %s", k.Typ, n, len(k.Enc), ref.Render(k.D(), k.V))
		}
		if n < k.Typ.S.MinLen() || n > k.Typ.S.MaxLen() {
			z.Violated(c, "size %d of a value of %s outside [%d, %d]", n, k.Typ, k.Typ.S.MinLen(), k.Typ.S.MaxLen())
		}
		c.Label("fixed=%v at min=%v at max=%v", k.D().Fixed, n == k.D().Min, n == k.D().Max)
		if !k.D().Fixed && n > k.D().Min {
			c.NonTrivial(k.Sample, k.Typ.T, k.Enc)
		}
	})
}

// TestHuge: sizes around and beyond 2^31 and 2^32.
func TestHuge(t *testing.T) {
	huge.Ready(t)
	h.Check(t, 1, func(c *h.C) {
		typ := huge.Get(c, gen.From(c.T, huge.Shapes, "shape"))
		x := huge.Draw(c, typ)
		obj := reflect.New(typ.T)
		x.Set(typ.D, obj.Elem())
		if n := z.Size(c, typ, obj.Interface()); n != x.Size {
			z.Violated(c, "SizeOf is %d for %s", n, huge.Describe(typ.D, x))
		}
		c.Label("size at least 2^31: %v", x.Size >= 1<<31)
		if x.Size >= 1<<31 {
			c.NonTrivial(func() any { return huge.Describe(typ.D, x) }, typ.T, x.Size)
		}
	})
}

// TestExtremes: the shortest and (where small enough) the longest value have exactly MinLen and MaxLen bytes.
func TestExtremes(t *testing.T) {
	h.Check(t, 0.2, func(c *h.C) {
		typ := gen.Type(c.T)
		lo := z.Encode(c, typ, bridge.New(typ.D, ref.Zero(typ.D), nil).Interface())
		if uint64(len(lo)) != typ.S.MinLen() {
			z.Violated(c, "shortest encoding of %s has %d bytes, MinLen is %d", typ, len(lo), typ.S.MinLen())
		}
		if typ.D.Max > 1<<16 {
			return
		}
		hi := z.Encode(c, typ, bridge.New(typ.D, biggest(typ.D), nil).Interface())
		if uint64(len(hi)) != typ.S.MaxLen() {
			z.Violated(c, "longest encoding of %s has %d bytes, MaxLen is %d", typ, len(hi), typ.S.MaxLen())
		}
		c.Label("longest value built")
		if len(hi) != len(lo) {
			c.NonTrivial(func() any {
				return map[string]any{"type": typ.String(), "min": len(lo), "max": len(hi)}
			}, typ.T)
		}
	})
}

func biggest(d *ref.Desc) *ref.Val {
	v := ref.Zero(d)
	switch d.Kind {
	case ref.Bytes, ref.Bitlist:
		v.B = make([]byte, d.Limit)
	case ref.List:
		if d.PackedElems() {
			v.B = make([]byte, d.Limit*d.Elem.Size)
		} else if d.Limit > 0 {
			e := biggest(d.Elem)
			for i := uint64(0); i < d.Limit; i++ {
				v.E = append(v.E, e)
			}
		}
	case ref.Vector:
		if !d.PackedElems() {
			e := biggest(d.Elem)
			for i := range v.E {
				v.E[i] = e
			}
		}
	case ref.Container:
		for i := range v.E {
			v.E[i] = biggest(d.Fields[i].D)
		}
	}
	return v
}

// TestBlocks: parts whose size or number of elements is near a multiple of a power of two.
func TestBlocks(t *testing.T) {
	h.Check(t, 0.01, func(c *h.C) {
		k := blocks.Case(c)
		if n := z.Size(c, k.Typ, k.Ptr()); n != uint64(len(k.Enc)) {
			z.Violated(c, "SizeOf of %s is %d, the encoding has %d\nvalue %s", k.Typ, n, len(k.Enc), ref.Render(k.D(), k.V))
		}
		c.NonTrivial(k.Sample, k.Typ.T, k.Enc)
	})
}
