package c04

import (
	"bytes"
	"io"
	"reflect"
	"testing"
	"unsafe"

	"zverif/blocks"
	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/huge"
	"zverif/ref"
	"zverif/reg"
	"zverif/z"
)

func TestMain(m *testing.M) { h.Main(m) }

type counting struct {
	r *bytes.Reader
	n int
}

func (c *counting) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	c.n += n
	return n, err
}

func compare(c z.TB, typ *z.Typ, b []byte, n uint64, dst any) error {
	dr, cr := &counting{r: bytes.NewReader(b)}, &counting{r: bytes.NewReader(b)}
	derr := z.Decode(c, typ, dr, n, dst)
	cerr := z.DryCheck(c, typ, cr, n)
	if (derr == nil) != (cerr == nil) {
		z.Violated(c, "verdicts on %s differ\nbytes %s, declared length %d\nDecode: %v\nDryCheck: %v", typ, ref.Short(b), n, derr, cerr)
	}
	if derr == nil && dr.n != cr.n {
		z.Violated(c, "DryCheck of %s took %d bytes, Decode %d\nbytes %s, declared length %d", typ, cr.n, dr.n, ref.Short(b), n)
	}
	return derr
}

func TestDryCheck(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		typ := gen.Type(c.T)
		b, kind := gen.Bytes(c.T, typ.D)
		// usually the declared length is that of the byte string; sometimes the string is longer or shorter
		n := uint64(len(b))
		switch gen.Index(c.T, 8, "declared") {
		case 0:
			b = append(append([]byte(nil), b...), make([]byte, 1+gen.Index(c.T, 9, "more"))...)
		case 1:
			if len(b) > 0 {
				b = b[:gen.Index(c.T, len(b), "less")]
			}
		}
		dst, _ := gen.Dst(c.T, typ.D)
		derr := compare(c, typ, b, n, dst.Interface())
		c.Label("%s: valid=%v", kind, derr == nil)
		if n > 0 && n >= typ.D.Min && n <= typ.D.Max {
			res := "rejected"
			if derr == nil {
				res = "accepted"
			}
			c.NonTrivial(gen.BytesSample(typ, b, kind, res), typ.T, b, n)
		}
	})
}

// TestLimits: numbers of elements at and above the limit of every list type.
func TestLimits(t *testing.T) {
	n := 0
	for i, e := range reg.All() {
		if !h.Mine(i) || e.D.Custom != nil || e.D.ZeroElem || e.D.Kind != ref.Bytes && e.D.Kind != ref.Bitlist && e.D.Kind != ref.List {
			continue
		}
		typ := z.Get(t, e.T, e.D)
		size := uint64(1)
		var elem *ref.Val
		if e.D.Kind == ref.List {
			elem = ref.Zero(e.D.Elem)
			size = uint64(len(ref.Encode(e.D.Elem, elem))) + 4
		}
		h.Guard(true)
		dst := bridge.New(e.D, ref.Zero(e.D), nil)
		for _, k := range gen.Counts(e.D, 1<<19/size) {
			b := gen.Many(e.D, elem, k)
			compare(t, typ, b, uint64(len(b)), dst.Interface())
			n++
		}
		h.Guard(false)
	}
	h.Count(t.Name(), n)
}

// TestHuge: inputs of around and beyond 2^32 bytes. A validator that copies nothing stands in for Decode where that
// would need too much memory.
func TestHuge(t *testing.T) {
	huge.Ready(t)
	h.Check(t, 1, func(c *h.C) {
		var typ *z.Typ
		var s *huge.Stream
		if gen.Index(c.T, 4, "edge") == 0 {
			typ, s = huge.Edge(c)
		} else {
			var obj reflect.Value
			if gen.Index(c.T, 5, "wide") == 0 {
				typ = huge.Get(c, gen.From(c.T, huge.FixedShapes, "shape"))
				obj = reflect.NewAt(typ.T, unsafe.Pointer(&huge.Heads[0]))
			} else {
				typ = huge.Get(c, gen.From(c.T, huge.Shapes, "shape"))
				obj = reflect.New(typ.T)
			}
			x := huge.Draw(c, typ)
			if gen.Index(c.T, 4, "last") == 0 {
				x = huge.DrawLast(c, typ)
			}
			x.Set(typ.D, obj.Elem())
			if s = huge.Encoding(c, typ.D, x, obj); s == nil {
				return
			}
			s.What = "as " + huge.Describe(typ.D, x)
			if gen.Index(c.T, 2, "mutate") == 0 {
				s.Mutate(c)
			}
		}
		defer s.Close()
		n := uint64(len(s.B))
		want := huge.Valid(typ.D, s.B)
		if n < 1<<22 && typ.D.FixedLen < 1<<20 {
			if err := compare(c, typ, s.B, n, reflect.New(typ.T).Interface()); (err == nil) != want {
				z.Broken(c, "%v, %s: Decode says %v, the validator %v", typ, s.What, err, want)
			}
		}
		r := &huge.Reader{S: s}
		err := z.DryCheck(c, typ, r, n)
		if (err == nil) != want {
			z.Violated(c, "DryCheck of %v, %s, says %v; valid: %v", typ, s.What, err, want)
		}
		if err == nil && r.Pos != n {
			z.Violated(c, "DryCheck of %v, %s, took %d bytes", typ, s.What, r.Pos)
		}
		c.Label("beyond 2^31: %v, valid: %v", n >= 1<<31, want)
		if n >= 1<<31 {
			c.NonTrivial(func() any { return typ.String() + ", " + s.What }, typ.T, n, s.What)
		}
	})
}

// TestBlocks: large inputs with faults near multiples of powers of two; readers that end there.
func TestBlocks(t *testing.T) {
	h.Check(t, 0.005, func(c *h.C) {
		k := blocks.Case(c)
		dst := reflect.New(k.Typ.T).Interface()
		compare(c, k.Typ, k.Enc, uint64(len(k.Enc)), dst)
		for i := 0; i < 4; i++ {
			b, what := blocks.Fault(c, k.Enc)
			n := uint64(len(b))
			if gen.Index(c.T, 3, "declared") == 0 {
				n = uint64(len(k.Enc))
				what += ", declared as before"
			}
			err := compare(c, k.Typ, b, n, dst)
			c.Label("blocks: valid=%v", err == nil)
			c.NonTrivial(gen.BytesSample(k.Typ, b, what, "same verdict"), k.Typ.T, b, n)
		}
	})
}

func FuzzBytes(f *testing.F) {
	gen.Corpus(f)
	h.Fuzz(f, func(t *testing.T, sel uint16, seed uint64, b []byte) bool {
		typ := gen.Select(t, sel)
		n := uint64(len(b))
		if seed%7 == 6 {
			n += seed >> 32 % 5
		}
		compare(t, typ, b, n, gen.SeedDst(typ.D, seed).Interface())
		return n > 0 && n >= typ.D.Min && n <= typ.D.Max
	})
}

var _ io.Reader = (*counting)(nil)
