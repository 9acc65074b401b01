package c25

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/reg"
	"zverif/z"
)

func TestMain(m *testing.M) { h.Main(m) }

var dbasic = map[reflect.Kind]reflect.Type{
	reflect.Bool: reflect.TypeOf(reg.DBool(false)), reflect.Uint8: reflect.TypeOf(reg.DByte(0)), reflect.Uint16: reflect.TypeOf(reg.DU16(0)),
	reflect.Uint32: reflect.TypeOf(reg.DU32(0)), reflect.Uint64: reflect.TypeOf(reg.DU64(0)),
}
var basic = map[reflect.Kind]reflect.Type{
	reflect.Bool: reflect.TypeOf(false), reflect.Uint8: reflect.TypeOf(byte(0)), reflect.Uint16: reflect.TypeOf(uint16(0)),
	reflect.Uint32: reflect.TypeOf(uint32(0)), reflect.Uint64: reflect.TypeOf(uint64(0)),
}

// alt makes another Go type for the same SSZ type: other pointers, defined types, other structs, no omitted fields.
func alt(d *ref.Desc, rng *bridge.Rng) reflect.Type {
	t := d.T
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	// elem draws a type for basic elements
	elem := func(k reflect.Kind) reflect.Type {
		e := basic[k]
		if rng.N(2) == 0 {
			e = dbasic[k]
		}
		if rng.N(3) == 0 {
			e = reflect.PtrTo(e)
		}
		return e
	}
	if rng.N(5) > 0 {
		switch {
		case d.Kind == ref.Bool || d.Kind == ref.Uint:
			t = elem(t.Kind())
		case d.Kind == ref.BytesN:
			t = reflect.ArrayOf(int(d.N), elem(reflect.Uint8))
		case d.Kind == ref.Vector && d.PackedElems():
			t = reflect.ArrayOf(int(d.N), elem(d.Elem.T.Kind()))
		case d.Kind == ref.Vector:
			t = reflect.ArrayOf(int(d.N), alt(d.Elem, rng))
		case d.Kind == ref.Container:
			var fs []reflect.StructField
			for i, f := range d.Fields {
				if rng.N(5) == 0 {
					fs = append(fs, reflect.StructField{Name: fmt.Sprintf("O%d", i), Type: reflect.TypeOf(""), Tag: `ssz:"omit"`})
				}
				fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: alt(f.D, rng)})
			}
			t = reflect.StructOf(fs)
		}
	}
	for rng.N(4) == 0 {
		t = reflect.PtrTo(t)
	}
	return t
}

// pair draws two types that represent the same SSZ type.
func pair(c *h.C) (*z.Typ, *z.Typ) {
	get := func(t reflect.Type) *z.Typ {
		d, err := ref.FromType(t)
		if err != nil {
			z.Broken(c, "%v: %v", t, err)
		}
		return z.Get(c, t, d)
	}
	if gen.Index(c.T, 2, "registered") == 0 {
		for i := 0; i < 20; i++ {
			p := gen.From(c.T, reg.Pairs(), "pair")
			a, b := get(p[0]), get(p[1])
			if !reg.Usable(a.D) || !reg.Usable(b.D) {
				continue
			}
			if gen.Index(c.T, 2, "swap") == 0 {
				return b, a
			}
			return a, b
		}
		z.Broken(c, "no usable pairs")
	}
	a := gen.Type(c.T)
	seed := gen.Seed(c.T, "alternative")
	// by the type itself: different types can have the same name
	key := altKey{a.T, seed % 8}
	if b, ok := alts[key]; ok {
		return a, b
	}
	bt := alt(a.D, &bridge.Rng{S: seed%8*77 + 5})
	b := get(bt)
	if !reg.Usable(b.D) {
		b = a
	}
	alts[key] = b
	return a, b
}

// a few alternatives per type, kept: every new one stays in the process for good
var alts = map[altKey]*z.Typ{}

type altKey struct {
	t reflect.Type
	n uint64
}

func convert(c *h.C, v *ref.Val, a, b *ref.Desc) *ref.Val {
	w, err := ref.Decode(b, ref.Encode(a, v))
	if err != nil {
		z.Broken(c, "%v and %v are not the same: %v", a, b, err)
	}
	return w
}

func figures(t z.TB, x *z.Typ) (out [4]uint64) {
	z.Try(t, "length figures", func() {
		out = [4]uint64{x.S.FixedLen(), x.S.MinLen(), x.S.MaxLen(), 0}
		if x.S.IsFixed() {
			out[3] = 1
		}
	})
	return
}

type result struct {
	enc  []byte
	size uint64
	root [32]byte
}

func results(c *h.C, x *z.Typ, val any) (r result) {
	r.enc = z.Encode(c, x, val)
	r.size = z.Size(c, x, val)
	r.root = z.Root(c, x, val, z.Hash)
	return
}

func (r result) differs(s result) string {
	switch {
	case !bytes.Equal(r.enc, s.enc):
		return fmt.Sprintf("encodings %s and %s", ref.Short(r.enc), ref.Short(s.enc))
	case r.size != s.size:
		return fmt.Sprintf("sizes %d and %d", r.size, s.size)
	case r.root != s.root:
		return fmt.Sprintf("roots %x and %x", r.root, s.root)
	}
	return ""
}

// TestTypes: two types of the same SSZ type.
func TestTypes(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		a, b := pair(c)
		if x, y := figures(c, a), figures(c, b); x != y {
			z.Violated(c, "length figures of %s (%v) and %s (%v): %v, %v", a, a.T, b, b.T, x, y)
		}
		va := gen.Value(c.T, a.D, gen.Budget(c.T))
		vb := convert(c, va, a.D, b.D)
		oa, ob := bridge.New(a.D, va, gen.Noise(c.T)), bridge.New(b.D, vb, gen.Noise(c.T))
		ra, rb := results(c, a, oa.Interface()), results(c, b, ob.Interface())
		if s := ra.differs(rb); s != "" {
			z.Violated(c, "%s (%v) and %s (%v) give different %s\nvalue %s", a, a.T, b, b.T, s, ref.Render(a.D, va))
		}
		if a.T.Kind() == reflect.Struct && b.T.Kind() == reflect.Struct {
			if x, y := z.Signing(c, a, oa.Interface(), z.Hash), z.Signing(c, b, ob.Interface(), z.Hash); x != y {
				z.Violated(c, "%s and %s give different signing roots", a, b)
			}
		}
		// each decodes the other's encoding
		da, _ := gen.Dst(c.T, a.D)
		db, _ := gen.Dst(c.T, b.D)
		if err := z.Decode(c, a, bytes.NewReader(rb.enc), uint64(len(rb.enc)), da.Interface()); err != nil {
			z.Violated(c, "encoding from %s (%v) does not decode into %s (%v): %v", b, b.T, a, a.T, err)
		}
		if err := z.Decode(c, b, bytes.NewReader(ra.enc), uint64(len(ra.enc)), db.Interface()); err != nil {
			z.Violated(c, "encoding from %s (%v) does not decode into %s (%v): %v", a, a.T, b, b.T, err)
		}
		ga, ea := bridge.Get(a.D, da.Elem())
		gb, eb := bridge.Get(b.D, db.Elem())
		if ea != nil || eb != nil || !ref.Equal(ga, va) || !ref.Equal(gb, vb) {
			z.Violated(c, "encoding from one of %s (%v) and %s (%v) decodes into another value of the other: %v %v %s %s", a, a.T, b, b.T, ea, eb,
				ref.Diff(a.D, ga, va), ref.Diff(b.D, gb, vb))
		}
		// verdicts
		in, kind := gen.Bytes(c.T, a.D)
		xa := z.Decode(c, a, bytes.NewReader(in), uint64(len(in)), da.Interface())
		xb := z.Decode(c, b, bytes.NewReader(in), uint64(len(in)), db.Interface())
		ya := z.DryCheck(c, a, bytes.NewReader(in), uint64(len(in)))
		yb := z.DryCheck(c, b, bytes.NewReader(in), uint64(len(in)))
		if (xa == nil) != (xb == nil) || (ya == nil) != (yb == nil) {
			z.Violated(c, "verdicts of %s (%v) and %s (%v): decode %v, %v, dry check %v, %v\n%s: %s", a, a.T, b, b.T, xa, xb, ya, yb, kind, ref.Short(in))
		}
		c.Label("same type=%v, %s accepted=%v", a.T == b.T, kind, xa == nil)
		if a.T != b.T && len(ra.enc) > 0 {
			c.NonTrivial(func() any {
				return map[string]any{"types": []string{a.T.String(), b.T.String()}, "ssz": a.String(), "encoding": ref.Short(ra.enc)}
			}, a.T, b.T, ra.enc)
		}
	})
}

// TestPassing: a value, a pointer to it, and other objects with the same content.
func TestPassing(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		k := gen.NewCase(c.T)
		plain := results(c, k.Typ, bridge.New(k.D(), k.V, nil).Interface())
		if s := results(c, k.Typ, k.Ptr()).differs(plain); s != "" {
			z.Violated(c, "%s: representation noise gives different %s\nvalue %s", k.Typ, s, ref.Render(k.D(), k.V))
		}
		// moved: the object at another address and in the middle of an array
		if k.Typ.T.Size() < 1<<16 {
			arr := reflect.New(reflect.ArrayOf(3, k.Typ.T)).Elem()
			arr.Index(1).Set(k.Obj.Elem())
			if s := results(c, k.Typ, arr.Index(1).Addr().Interface()).differs(plain); s != "" {
				z.Violated(c, "%s: an object inside of an array gives different %s\nvalue %s", k.Typ, s, ref.Render(k.D(), k.V))
			}
		}
		if k.Typ.T.Kind() == reflect.Ptr {
			c.Label("pointer type")
			return
		}
		val := k.Obj.Elem().Interface()
		if s := results(c, k.Typ, val).differs(plain); s != "" {
			z.Violated(c, "%s (%v): passed by value it gives different %s\nvalue %s", k.Typ, k.Typ.T, s, ref.Render(k.D(), k.V))
		}
		if k.Typ.T.Kind() == reflect.Struct {
			if x, y := z.Signing(c, k.Typ, val, z.Hash), z.Signing(c, k.Typ, k.Ptr(), z.Hash); x != y {
				z.Violated(c, "%s: passed by value it gives another signing root", k.Typ)
			}
		}
		if x, y := z.Pretty(c, k.Typ, val, " "), z.Pretty(c, k.Typ, k.Ptr(), " "); x != y {
			z.Violated(c, "%s: passed by value it prints differently", k.Typ)
		}
		c.Label("by value, kind %v", k.Typ.T.Kind())
		if len(k.Enc) > 0 {
			c.NonTrivial(k.Sample, k.Typ.T, k.Enc)
		}
	})
}
