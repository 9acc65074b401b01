package c14

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/z"

	"github.com/protolambda/zssz/types"
)

func TestMain(m *testing.M) { h.Main(m) }

// flat is the type without omitted fields and with squashed and embedded structs spliced in.
func flat(d *ref.Desc) reflect.Type {
	depth := 0
	t := d.T
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
		depth++
	}
	switch {
	case d.Kind == ref.Container:
		var fs []reflect.StructField
		for i, f := range d.Fields {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: flat(f.D)})
		}
		t = reflect.StructOf(fs)
	case d.Kind == ref.Vector && !d.Elem.Basic():
		t = reflect.ArrayOf(int(d.N), flat(d.Elem))
	}
	for ; depth > 0; depth-- {
		t = reflect.PtrTo(t)
	}
	return t
}

// tagged: some struct outside of slices has fields that are omitted, squashed or embedded.
func tagged(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Array:
		return tagged(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if ref.HasFlag(f.Tag, "omit") || ref.HasFlag(f.Tag, "squash") || f.Anonymous {
				return true
			}
			if tagged(f.Type) {
				return true
			}
		}
	}
	return false
}

func omits(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Array:
		return omits(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if f := t.Field(i); ref.HasFlag(f.Tag, "omit") || omits(f.Type) {
				return true
			}
		}
	}
	return false
}

// draw draws a type with tags.
func draw(c *h.C, key string, ok func(t reflect.Type) bool) *z.Typ {
	if gen.Index(c.T, 3, "compose") != 0 {
		if typ := gen.Type(c.T); ok(typ.T) {
			return typ
		}
		if typ := gen.StructType(c.T); ok(typ.T) {
			return typ
		}
	}
	return gen.TypeWhere(c.T, key, func(d *ref.Desc) bool { return ok(d.T) })
}

func figures(t z.TB, s types.SSZ) (out [6]uint64) {
	z.Try(t, "length figures", func() {
		out = [6]uint64{s.FixedLen(), s.MinLen(), s.MaxLen(), s.FuzzMinLen(), s.FuzzMaxLen(), 0}
		if s.IsFixed() {
			out[5] = 1
		}
	})
	return
}

func TestFlat(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		typ := draw(c, "tagged", tagged)
		ft := flat(typ.D)
		fd, err := ref.FromType(ft)
		if err != nil {
			z.Broken(c, "flat type %v: %v", ft, err)
		}
		ftyp := z.Get(c, ft, fd)
		if a, b := figures(c, typ.S), figures(c, ftyp.S); a != b {
			z.Violated(c, "length figures of %s are %v, of the flat struct %v", typ, a, b)
		}
		v := gen.Value(c.T, typ.D, gen.Budget(c.T))
		a := bridge.New(typ.D, v, gen.Noise(c.T))
		b := bridge.New(fd, v, gen.Noise(c.T))
		ea, eb := z.Encode(c, typ, a.Interface()), z.Encode(c, ftyp, b.Interface())
		if !bytes.Equal(ea, eb) {
			z.Violated(c, "encoding of %s is %s, of the flat struct %s", typ, ref.Short(ea), ref.Short(eb))
		}
		if x, y := z.Size(c, typ, a.Interface()), z.Size(c, ftyp, b.Interface()); x != y {
			z.Violated(c, "size of %s is %d, of the flat struct %d", typ, x, y)
		}
		if x, y := z.Root(c, typ, a.Interface(), z.Hash), z.Root(c, ftyp, b.Interface(), z.Hash); x != y {
			z.Violated(c, "root of %s is %x, of the flat struct %x", typ, x, y)
		}
		if typ.T.Kind() == reflect.Struct {
			if x, y := z.Signing(c, typ, a.Interface(), z.Hash), z.Signing(c, ftyp, b.Interface(), z.Hash); x != y {
				z.Violated(c, "signing root of %s is %x, of the flat struct %x", typ, x, y)
			}
		}
		// decoding
		in, kind := ea, "own encoding"
		if gen.Index(c.T, 3, "bytes") != 0 {
			in, kind = gen.Bytes(c.T, typ.D)
		}
		da, _ := gen.Dst(c.T, typ.D)
		db, _ := gen.Dst(c.T, fd)
		xa := z.Decode(c, typ, bytes.NewReader(in), uint64(len(in)), da.Interface())
		xb := z.Decode(c, ftyp, bytes.NewReader(in), uint64(len(in)), db.Interface())
		if (xa == nil) != (xb == nil) {
			z.Violated(c, "decoding %s: %v, the flat struct: %v\n%s: %s", typ, xa, xb, kind, ref.Short(in))
		}
		if xa == nil {
			same(c, typ, da, fd, db, in)
		}
		ya := z.DryCheck(c, typ, bytes.NewReader(in), uint64(len(in)))
		yb := z.DryCheck(c, ftyp, bytes.NewReader(in), uint64(len(in)))
		if (ya == nil) != (yb == nil) {
			z.Violated(c, "dry check of %s: %v, the flat struct: %v\n%s: %s", typ, ya, yb, kind, ref.Short(in))
		}
		if typ.D.FuzzMin < 5000 {
			fz := make([]byte, int(typ.D.FuzzMin)+gen.Index(c.T, 200, "more"))
			(&bridge.Rng{S: gen.Seed(c.T, "fuzz")}).Fill(fz)
			da, _ = gen.Dst(c.T, typ.D)
			db, _ = gen.Dst(c.T, fd)
			na, xa := z.Fuzz(c, typ, bytes.NewReader(fz), uint64(len(fz)), da.Interface())
			nb, xb := z.Fuzz(c, ftyp, bytes.NewReader(fz), uint64(len(fz)), db.Interface())
			if (xa == nil) != (xb == nil) || na != nb {
				z.Violated(c, "fuzz decoding of %s: %d, %v, the flat struct: %d, %v\nbytes %s", typ, na, xa, nb, xb, ref.Short(fz))
			}
			if xa == nil {
				same(c, typ, da, fd, db, fz)
			}
		}
		c.Label("%s accepted=%v", kind, xa == nil)
		if typ.T != ft && len(in) > 0 {
			c.NonTrivial(gen.BytesSample(typ, in, kind, fmt.Sprint("accepted=", xa == nil, ", flat type ", fd)), typ.T, in)
		}
	})
}

func same(c *h.C, typ *z.Typ, da reflect.Value, fd *ref.Desc, db reflect.Value, in []byte) {
	va, e1 := bridge.Get(typ.D, da.Elem())
	vb, e2 := bridge.Get(fd, db.Elem())
	if e1 != nil || e2 != nil {
		z.Violated(c, "decoding %s made an invalid value: %v, flat struct: %v\nbytes %s", typ, e1, e2, ref.Short(in))
	}
	if !ref.Equal(va, vb) {
		z.Violated(c, "decoding %s gives another value than the flat struct: %s\nbytes %s", typ, ref.Diff(typ.D, va, vb), ref.Short(in))
	}
}

// TestOmitted: the content of omitted fields has no influence, and nothing writes it.
func TestOmitted(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		typ := draw(c, "omits", omits)
		v := gen.Value(c.T, typ.D, gen.Budget(c.T))
		mk := func(label string) (reflect.Value, func() []byte) {
			o := bridge.New(typ.D, v, nil)
			rng := &bridge.Rng{S: gen.Seed(c.T, label)}
			var fs []reflect.Value
			bridge.EachOmittedDeep(o.Elem(), func(f reflect.Value) {
				if label != "zero" {
					bridge.Junk(f, rng, 3)
				}
				fs = append(fs, f)
			})
			return o, func() (out []byte) {
				for _, f := range fs {
					out = append(out, bridge.Snapshot(f)...)
				}
				return
			}
		}
		a, snapA := mk("junk a")
		b, snapB := mk(gen.From(c.T, []string{"zero", "junk b"}, "other"))
		sa, sb := snapA(), snapB()
		if x, y := z.Encode(c, typ, a.Interface()), z.Encode(c, typ, b.Interface()); !bytes.Equal(x, y) {
			z.Violated(c, "omitted fields of %s influence the encoding: %s, %s", typ, ref.Short(x), ref.Short(y))
		}
		if x, y := z.Size(c, typ, a.Interface()), z.Size(c, typ, b.Interface()); x != y {
			z.Violated(c, "omitted fields of %s influence the size: %d, %d", typ, x, y)
		}
		if x, y := z.Root(c, typ, a.Interface(), z.Hash), z.Root(c, typ, b.Interface(), z.Hash); x != y {
			z.Violated(c, "omitted fields of %s influence the root: %x, %x", typ, x, y)
		}
		if x, y := z.Pretty(c, typ, a.Interface(), " "), z.Pretty(c, typ, b.Interface(), " "); x != y {
			z.Violated(c, "omitted fields of %s influence the printed form", typ)
		}
		if typ.T.Kind() == reflect.Struct {
			if x, y := z.Signing(c, typ, a.Interface(), z.Hash), z.Signing(c, typ, b.Interface(), z.Hash); x != y {
				z.Violated(c, "omitted fields of %s influence the signing root: %x, %x", typ, x, y)
			}
		}
		if !bytes.Equal(sa, snapA()) || !bytes.Equal(sb, snapB()) {
			z.Violated(c, "reading %s changed omitted fields", typ)
		}
		in, kind := gen.Bytes(c.T, typ.D)
		err := z.Decode(c, typ, bytes.NewReader(in), uint64(len(in)), a.Interface())
		if !bytes.Equal(sa, snapA()) {
			z.Violated(c, "decoding %s (%v) changed omitted fields\nbytes %s", typ, err, ref.Short(in))
		}
		if typ.D.FuzzMin < 5000 {
			fz := make([]byte, int(typ.D.FuzzMin)+gen.Index(c.T, 200, "more"))
			(&bridge.Rng{S: gen.Seed(c.T, "fuzz")}).Fill(fz)
			_, _ = z.Fuzz(c, typ, bytes.NewReader(fz), uint64(len(fz)), b.Interface())
			if !bytes.Equal(sb, snapB()) {
				z.Violated(c, "fuzz decoding %s changed omitted fields\nbytes %s", typ, ref.Short(fz))
			}
		}
		c.Label("decode %s accepted=%v, omitted memory=%v", kind, err == nil, len(sa) > 0)
		if len(sa) > 0 {
			c.NonTrivial(gen.BytesSample(typ, in, kind, fmt.Sprintf("%d bytes in omitted fields untouched", len(sa))), typ.T, in, sa)
		}
	})
}
