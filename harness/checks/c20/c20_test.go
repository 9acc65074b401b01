package c20

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"testing"
	"unsafe"

	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/z"
)

func TestMain(m *testing.M) {
	if os.Getenv("ZV_VARIANT") == "386" && unsafe.Sizeof(uintptr(0)) != 4 {
		fmt.Println("HARNESS: not a 32-bit build")
		os.Exit(3)
	}
	h.Main(m)
}

// multi: the type has series of basic elements of several bytes, for which the byte order matters.
func multi(d *ref.Desc) bool {
	if d.PackedElems() {
		return d.Elem.Size > 1
	}
	if d.Elem != nil {
		return multi(d.Elem)
	}
	for _, f := range d.Fields {
		if multi(f.D) {
			return true
		}
	}
	return false
}

func draw(c *h.C) *z.Typ {
	if gen.Index(c.T, 3, "any") == 0 {
		return gen.Type(c.T)
	}
	return gen.TypeWhere(c.T, "multi", multi)
}

// TestCodec: encoding, decoding and checking against the model.
func TestCodec(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		typ := draw(c)
		k := gen.CaseOf(c.T, typ)
		in, kind := k.Enc, "own encoding"
		if gen.Index(c.T, 3, "bytes") == 0 {
			in, kind = gen.Bytes(c.T, typ.D)
		}
		want, refErr := ref.Decode(typ.D, in)
		dst, dk := gen.Dst(c.T, typ.D)
		enc := z.Encode(c, typ, k.Ptr())
		size := z.Size(c, typ, k.Ptr())
		err := z.Decode(c, typ, bytes.NewReader(in), uint64(len(in)), dst.Interface())
		dry := z.DryCheck(c, typ, bytes.NewReader(in), uint64(len(in)))
		if !bytes.Equal(enc, k.Enc) || size != uint64(len(enc)) {
			z.Violated(c, "encoding of %s\nvalue %s\ngot  %s\nwant %s (size %d)", typ, ref.Render(typ.D, k.V), ref.Short(enc), ref.Short(k.Enc), size)
		}
		if (err == nil) != (refErr == nil) || (dry == nil) != (refErr == nil) {
			z.Violated(c, "decoding %s into a %s object: %v, dry check: %v, should be: %v\n%s: %s", typ, dk, err, dry, refErr, kind, ref.Short(in))
		}
		if err == nil {
			got, e := bridge.Get(typ.D, dst.Elem())
			if e != nil || !ref.Equal(got, want) {
				z.Violated(c, "decoding %s into a %s object gives another value: %v %s\n%s: %s", typ, dk, e, ref.Diff(typ.D, got, want), kind, ref.Short(in))
			}
		}
		c.Label("%s, accepted=%v", kind, err == nil)
		if multi(typ.D) && len(in) > 0 {
			c.NonTrivial(gen.BytesSample(typ, in, kind, fmt.Sprintf("accepted=%v", err == nil)), typ.T, in)
		}
	})
}

// TestRoots: roots against the model.
func TestRoots(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		k := gen.CaseOf(c.T, draw(c))
		want := ref.DefaultHasher.Root(k.D(), k.V)
		obj := bridge.New(k.D(), k.V, gen.Noise(c.T))
		var sign [32]byte
		isStruct := k.Typ.T.Kind() == reflect.Struct
		got := z.Root(c, k.Typ, obj.Interface(), z.Hash)
		if isStruct {
			sign = z.Signing(c, k.Typ, obj.Interface(), z.Hash)
		}
		if got != want {
			z.Violated(c, "root of %s\nvalue %s\ngot  %x\nwant %x", k.Typ, ref.Render(k.D(), k.V), got, want)
		}
		if isStruct && sign != ref.DefaultHasher.SigningRoot(k.D(), k.V) {
			z.Violated(c, "wrong signing root of %s\nvalue %s", k.Typ, ref.Render(k.D(), k.V))
		}
		if multi(k.D()) && len(k.Enc) > 0 {
			c.NonTrivial(k.Sample, k.Typ.T, k.Enc)
		}
	})
}

// TestFigures: the length figures do not depend on the word size.
func TestFigures(t *testing.T) {
	h.Check(t, 0.1, func(c *h.C) {
		typ := gen.Type(c.T)
		d, s := typ.D, typ.S
		got := [...]uint64{s.FixedLen(), s.MinLen(), s.MaxLen()}
		want := [...]uint64{d.FixedLen, d.Min, d.Max}
		if got != want || s.IsFixed() != d.Fixed {
			z.Violated(c, "fixed, minimum and maximum length of %s: %v (fixed=%v), want %v (fixed=%v)", typ, got, s.IsFixed(), want, d.Fixed)
		}
		c.Label("beyond 2^32: %v", d.Max >= 1<<32)
		c.NonTrivial(nil, typ.T)
	})
}

// TestDeclared: declared lengths that equal the true one modulo 2^32 are rejected whatever the word size.
func TestDeclared(t *testing.T) {
	h.Check(t, 0.3, func(c *h.C) {
		typ := gen.Type(c.T)
		if typ.D.Max >= 1<<32 {
			return
		}
		k := gen.CaseOf(c.T, typ)
		n := uint64(len(k.Enc)) + uint64(1)<<(32+gen.Index(c.T, 32, "bit"))
		dst, _ := gen.Dst(c.T, typ.D)
		err := z.Decode(c, typ, bytes.NewReader(k.Enc), n, dst.Interface())
		dry := z.DryCheck(c, typ, bytes.NewReader(k.Enc), n)
		if err == nil || dry == nil {
			z.Violated(c, "%s accepted with declared length %d for %d bytes: decode %v, dry check %v\nbytes %s", typ, n, len(k.Enc), err, dry, ref.Short(k.Enc))
		}
		c.NonTrivial(nil, typ.T, k.Enc, n)
	})
}
