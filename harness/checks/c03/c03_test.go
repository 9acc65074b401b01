package c03

import (
	"bytes"
	"reflect"
	"runtime/debug"
	"testing"

	"zverif/blocks"
	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/huge"
	"zverif/ref"
	"zverif/reg"
	"zverif/z"
)

func TestMain(m *testing.M) { h.Main(m) }

// verdict decodes b and compares with the strict reference decoder; it returns whether b is valid.
func verdict(c z.TB, typ *z.Typ, b []byte, dst any, get func() (*ref.Val, error)) bool {
	want, werr := ref.Decode(typ.D, b)
	err := z.Decode(c, typ, bytes.NewReader(b), uint64(len(b)), dst)
	if (err == nil) != (werr == nil) {
		z.Violated(c, "Decode of %s\nbytes %s (%d)\nzssz: %v\nspec: %v", typ, ref.Short(b), len(b), err, werr)
	}
	if err != nil {
		return false
	}
	got, gerr := get()
	if gerr != nil {
		z.Violated(c, "Decode of %s accepted but the object is no valid value: %v\nbytes %s", typ, gerr, ref.Short(b))
	}
	if !ref.Equal(got, want) {
		z.Violated(c, "Decode of %s gave another value: %s\nbytes %s", typ, ref.Diff(typ.D, got, want), ref.Short(b))
	}
	if again := z.Encode(c, typ, dst); !bytes.Equal(again, b) {
		z.Violated(c, "Decode of %s accepted bytes that encode differently\nbytes %s\nagain %s", typ, ref.Short(b), ref.Short(again))
	}
	return true
}

func TestVerdict(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		typ := gen.Type(c.T)
		b, kind := gen.Bytes(c.T, typ.D)
		dst, dk := gen.Dst(c.T, typ.D)
		ok := verdict(c, typ, b, dst.Interface(), func() (*ref.Val, error) { return bridge.Get(typ.D, dst.Elem()) })
		c.Label("%s: valid=%v", kind, ok)
		n := uint64(len(b))
		if n > 0 && n >= typ.D.Min && n <= typ.D.Max {
			res := "rejected"
			if ok {
				res = "accepted"
			}
			c.NonTrivial(gen.BytesSample(typ, b, kind+", destination "+dk, res), typ.T, b)
		}
	})
}

// TestExhaustive runs every byte string of up to two bytes, and every string over a small alphabet of up to
// six bytes, on small types.
func TestExhaustive(t *testing.T) {
	n := 0
	alpha := []byte{0, 1, 2, 4, 5, 8, 0x80}
	for i, e := range reg.All() {
		if !h.Mine(i) || e.D.Min > 6 || e.D.Kind == ref.Bytes && e.D.Limit > 40 && e.D.Limit != 256 {
			continue
		}
		typ := z.Get(t, e.T, e.D)
		h.Guard(true)
		dst := bridge.New(e.D, ref.Zero(e.D), nil)
		get := func() (*ref.Val, error) { return bridge.Get(e.D, dst.Elem()) }
		run := func(b []byte) { verdict(t, typ, b, dst.Interface(), get); n++ }
		run(nil)
		for x := 0; x < 256; x++ {
			run([]byte{byte(x)})
		}
		if e.D.Min <= 2 && e.D.Max <= 3 {
			for x := 0; x < 1<<16; x += 1 {
				run([]byte{byte(x), byte(x >> 8)})
			}
		}
		var rec func(b []byte, l int)
		rec = func(b []byte, l int) {
			if l == 0 {
				run(b)
				return
			}
			for _, a := range alpha {
				rec(append(b[:len(b):len(b)], a), l-1)
			}
		}
		for l := 2; l <= 4; l++ {
			rec(nil, l)
		}
		h.Guard(false)
	}
	h.Count(t.Name(), n)
}

// TestLimits: numbers of elements at and above the limit of every list type.
func TestLimits(t *testing.T) {
	n := 0
	for i, e := range reg.All() {
		if !h.Mine(i) || e.D.Custom != nil || e.D.ZeroElem || e.D.Kind != ref.Bytes && e.D.Kind != ref.Bitlist && e.D.Kind != ref.List {
			continue
		}
		typ := z.Get(t, e.T, e.D)
		size := uint64(1)
		var elem *ref.Val
		if e.D.Kind == ref.List {
			elem = ref.Zero(e.D.Elem)
			size = uint64(len(ref.Encode(e.D.Elem, elem))) + 4
		}
		h.Guard(true)
		dst := bridge.New(e.D, ref.Zero(e.D), nil)
		for _, k := range gen.Counts(e.D, 1<<19/size) {
			verdict(t, typ, gen.Many(e.D, elem, k), dst.Interface(), func() (*ref.Val, error) { return bridge.Get(e.D, dst.Elem()) })
			n++
		}
		h.Guard(false)
	}
	h.Count(t.Name(), n)
}

// TestHuge: inputs of around and beyond 2^32 bytes, decoded into memory that is big enough.
func TestHuge(t *testing.T) {
	if !h.Mine(0) {
		return // one process with that much memory
	}
	huge.Ready(t)
	h.Check(t, 1, func(c *h.C) {
		if gen.Index(c.T, 2, "edge") == 0 {
			typ, s := huge.Edge(c)
			defer s.Close()
			n := uint64(len(s.B))
			want := huge.Valid(typ.D, s.B)
			if want && n > 1<<30+1<<20 {
				return
			}
			defer debug.FreeOSMemory()
			if err := z.Decode(c, typ, &huge.Reader{S: s}, n, reflect.New(typ.T).Interface()); (err == nil) != want {
				z.Violated(c, "Decode of %v, %s, says %v; valid: %v", typ, s.What, err, want)
			}
			c.Label("huge: %v at the limit, valid: %v", typ, want)
			c.NonTrivial(func() any { return typ.String() + ", " + s.What }, typ.T, n, s.What)
			return
		}
		typ := huge.Get(c, gen.From(c.T, huge.Shapes, "shape"))
		var x *huge.Val
		if gen.Index(c.T, 4, "last") == 0 {
			x = huge.DrawLast(c, typ)
		} else {
			x = huge.Draw(c, typ)
		}
		if x.Size > 5<<30 || !x.Spread(typ.D) {
			return
		}
		obj := reflect.New(typ.T)
		x.Set(typ.D, obj.Elem())
		s := huge.Encoding(c, typ.D, x, obj)
		if s == nil {
			return
		}
		defer s.Close()
		defer huge.Forget()
		if gen.Index(c.T, 3, "mutate") == 0 {
			s.Mutate(c)
		}
		n := uint64(len(s.B))
		want := huge.Valid(typ.D, s.B)
		if want && s.What != "encoded" {
			return // another value, with other lengths
		}
		err := z.Decode(c, typ, &huge.Reader{S: s}, n, obj.Interface())
		if (err == nil) != want {
			z.Violated(c, "Decode of %s, %s, says %v; valid: %v", huge.Describe(typ.D, x), s.What, err, want)
		}
		if err == nil {
			if bad := x.Same(typ.D, obj.Elem(), s); bad != "" {
				z.Violated(c, "decoded %s: %s", huge.Describe(typ.D, x), bad)
			}
		}
		c.Label("huge: beyond 2^31: %v, valid: %v", n >= 1<<31, want)
		if n >= 1<<31 {
			c.NonTrivial(func() any { return huge.Describe(typ.D, x) + ", " + s.What }, typ.T, n, s.What)
		}
	})
}

// TestBlocks: large inputs with faults near multiples of powers of two.
func TestBlocks(t *testing.T) {
	h.Check(t, 0.005, func(c *h.C) {
		k := blocks.Case(c)
		dst := reflect.New(k.Typ.T)
		get := func() (*ref.Val, error) { return bridge.Get(k.D(), dst.Elem()) }
		verdict(c, k.Typ, k.Enc, dst.Interface(), get)
		for i := 0; i < 4; i++ {
			b, what := blocks.Fault(c, k.Enc)
			ok := verdict(c, k.Typ, b, dst.Interface(), get)
			c.Label("blocks: valid=%v", ok)
			c.NonTrivial(gen.BytesSample(k.Typ, b, what, "same verdict"), k.Typ.T, b)
		}
	})
}

func FuzzBytes(f *testing.F) {
	gen.Corpus(f)
	h.Fuzz(f, func(t *testing.T, sel uint16, seed uint64, b []byte) bool {
		typ := gen.Select(t, sel)
		dst := gen.SeedDst(typ.D, seed)
		verdict(t, typ, b, dst.Interface(), func() (*ref.Val, error) { return bridge.Get(typ.D, dst.Elem()) })
		n := uint64(len(b))
		return n > 0 && n >= typ.D.Min && n <= typ.D.Max
	})
}
