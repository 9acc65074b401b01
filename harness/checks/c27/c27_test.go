package c27

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"github.com/protolambda/zssz/types"

	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/z"
)

func TestMain(m *testing.M) { h.Main(m) }

// chooser is a factory that picks, for every series it is asked for, one of the constructors that fit.
type chooser struct {
	rng    bridge.Rng
	log    []string
	others int
}

func (f *chooser) pick(n int) int { return f.rng.N(n) }

func (f *chooser) factory(t reflect.Type) (types.SSZ, error) {
	d, err := ref.FromType(t)
	if err != nil {
		return types.SSZFactory(t)
	}
	k, own := f.choose(t, d)
	f.log = append(f.log, fmt.Sprintf("%v: %s", d, k))
	if k != own {
		f.others++
	}
	return construct(k, f.factory, t)
}

func construct(k string, f types.SSZFactoryFn, t reflect.Type) (s types.SSZ, err error) {
	// (typed nil pointers must not hide in the interface)
	switch k {
	case "NewSSZPtr":
		x, err := types.NewSSZPtr(f, t)
		return wrap(x, x == nil, err)
	case "NewSSZContainer":
		x, err := types.NewSSZContainer(f, t)
		return wrap(x, x == nil, err)
	case "NewSSZBitvector":
		x, err := types.NewSSZBitvector(t)
		return wrap(x, x == nil, err)
	case "NewSSZBytesN":
		x, err := types.NewSSZBytesN(t)
		return wrap(x, x == nil, err)
	case "NewSSZBasicVector":
		x, err := types.NewSSZBasicVector(t)
		return wrap(x, x == nil, err)
	case "NewSSZVector":
		x, err := types.NewSSZVector(f, t)
		return wrap(x, x == nil, err)
	case "NewSSZBitlist":
		x, err := types.NewSSZBitlist(t)
		return wrap(x, x == nil, err)
	case "NewSSZBytes":
		x, err := types.NewSSZBytes(t)
		return wrap(x, x == nil, err)
	case "NewSSZBasicList":
		x, err := types.NewSSZBasicList(t)
		return wrap(x, x == nil, err)
	case "NewSSZList":
		x, err := types.NewSSZList(f, t)
		return wrap(x, x == nil, err)
	case "GetBasicSSZElemType":
		return types.GetBasicSSZElemType(t.Kind())
	}
	return types.DefaultSSZFactory(f, t)
}

func wrap(s types.SSZ, isNil bool, err error) (types.SSZ, error) {
	if err != nil || isNil {
		return nil, err
	}
	return s, nil
}

// kinds: which Go kinds each constructor is for
var kinds = map[string][]reflect.Kind{
	"NewSSZPtr": {reflect.Ptr}, "NewSSZContainer": {reflect.Struct},
	"NewSSZBitvector": {reflect.Array}, "NewSSZBytesN": {reflect.Array}, "NewSSZBasicVector": {reflect.Array}, "NewSSZVector": {reflect.Array},
	"NewSSZBitlist": {reflect.Slice}, "NewSSZBytes": {reflect.Slice}, "NewSSZBasicList": {reflect.Slice}, "NewSSZList": {reflect.Slice},
	"GetBasicSSZElemType": {reflect.Bool, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64},
}

var constructors = []string{"NewSSZPtr", "NewSSZContainer", "NewSSZBitvector", "NewSSZBytesN", "NewSSZBasicVector", "NewSSZVector",
	"NewSSZBitlist", "NewSSZBytes", "NewSSZBasicList", "NewSSZList", "GetBasicSSZElemType"}

// fitting lists the constructors for the type, the factory's own choice first.
func fitting(t reflect.Type, d *ref.Desc) []string {
	switch t.Kind() {
	case reflect.Ptr:
		return []string{"NewSSZPtr"}
	case reflect.Struct:
		return []string{"NewSSZContainer"}
	case reflect.Array:
		basic := isBasic(t.Elem().Kind())
		switch {
		case d.Kind == ref.Bitvector:
			return []string{"NewSSZBitvector"}
		case t.Elem().Kind() == reflect.Uint8:
			return []string{"NewSSZBytesN", "NewSSZBasicVector", "NewSSZVector"}
		case basic:
			return []string{"NewSSZBasicVector", "NewSSZVector"}
		}
		return []string{"NewSSZVector"}
	case reflect.Slice:
		basic := isBasic(t.Elem().Kind())
		switch {
		case d.Kind == ref.Bitlist:
			return []string{"NewSSZBitlist"}
		case t.Elem().Kind() == reflect.Uint8:
			return []string{"NewSSZBytes", "NewSSZBasicList", "NewSSZList"}
		case basic:
			return []string{"NewSSZBasicList", "NewSSZList"}
		}
		return []string{"NewSSZList"}
	}
	return []string{"DefaultSSZFactory", "GetBasicSSZElemType"}
}

func isBasic(k reflect.Kind) bool {
	return k == reflect.Bool || k == reflect.Uint8 || k == reflect.Uint16 || k == reflect.Uint32 || k == reflect.Uint64
}

func (f *chooser) choose(t reflect.Type, d *ref.Desc) (string, string) {
	ks := append([]string{"DefaultSSZFactory"}, fitting(t, d)...)
	return ks[f.pick(len(ks))], fitting(t, d)[0]
}

func TestAlternatives(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		k := gen.NewCase(c.T)
		d := k.D()
		f := &chooser{rng: bridge.Rng{S: gen.Seed(c.T, "choices")}}
		var sz types.SSZ
		var err error
		z.Try(c, "construction of "+d.String(), func() { sz, err = f.factory(k.Typ.T) })
		if err != nil || sz == nil {
			z.Violated(c, "no definition of %v (%v): %v\nconstructors %v", k.Typ.T, d, err, f.log)
		}
		typ := &z.Typ{T: k.Typ.T, D: d, S: sz}
		var fixed bool
		var fl, lo, hi uint64
		z.Try(c, "figures", func() { fixed, fl, lo, hi = sz.IsFixed(), sz.FixedLen(), sz.MinLen(), sz.MaxLen() })
		if fixed != d.Fixed || fl != d.FixedLen || lo != d.Min || hi != d.Max {
			z.Violated(c, "figures of %s: fixed=%v %d %d..%d, want %v %d %d..%d\nconstructors %v", typ, fixed, fl, lo, hi, d.Fixed, d.FixedLen, d.Min, d.Max, f.log)
		}
		if got := z.Encode(c, typ, k.Ptr()); !bytes.Equal(got, k.Enc) {
			z.Violated(c, "encoding of %s is %s, want %s\nconstructors %v", typ, ref.Short(got), ref.Short(k.Enc), f.log)
		}
		if got := z.Size(c, typ, k.Ptr()); got != uint64(len(k.Enc)) {
			z.Violated(c, "size of %s is %d, want %d\nconstructors %v", typ, got, len(k.Enc), f.log)
		}
		if got, want := z.Root(c, typ, k.Ptr(), z.Hash), ref.DefaultHasher.Root(d, k.V); got != want {
			z.Violated(c, "root of %s is %x, want %x\nvalue %s\nconstructors %v", typ, got, want, ref.Render(d, k.V), f.log)
		}
		if k.Typ.T.Kind() == reflect.Struct {
			if got, want := z.Signing(c, typ, k.Ptr(), z.Hash), ref.DefaultHasher.SigningRoot(d, k.V); got != want {
				z.Violated(c, "signing root of %s is %x, want %x\nconstructors %v", typ, got, want, f.log)
			}
		}
		in, kind := gen.Bytes(c.T, d)
		want, refErr := ref.Decode(d, in)
		dst, _ := gen.Dst(c.T, d)
		err = z.Decode(c, typ, bytes.NewReader(in), uint64(len(in)), dst.Interface())
		if (err == nil) != (refErr == nil) {
			z.Violated(c, "decoding %s (%s): %v, model: %v\nbytes %s\nconstructors %v", typ, kind, err, refErr, ref.Short(in), f.log)
		}
		if err == nil {
			got, gerr := bridge.Get(d, dst.Elem())
			if gerr != nil || !ref.Equal(got, want) {
				z.Violated(c, "decoding %s (%s) gave another value (%v)\nbytes %s\nconstructors %v", typ, kind, gerr, ref.Short(in), f.log)
			}
		}
		if derr := z.DryCheck(c, typ, bytes.NewReader(in), uint64(len(in))); (derr == nil) != (err == nil) {
			z.Violated(c, "dry check of %s (%s): %v, decode: %v\nbytes %s\nconstructors %v", typ, kind, derr, err, ref.Short(in), f.log)
		}
		var fmin uint64
		z.Try(c, "FuzzMinLen", func() { fmin = sz.FuzzMinLen() })
		if fmin < 5000 && gen.Index(c.T, 3, "fuzz") == 0 {
			fz := make([]byte, int(fmin)+gen.Index(c.T, 100, "more"))
			(&bridge.Rng{S: gen.Seed(c.T, "fuzz")}).Fill(fz)
			dst, _ = gen.Dst(c.T, d)
			_, err := z.Fuzz(c, typ, bytes.NewReader(fz), uint64(len(fz)), dst.Interface())
			if err != nil {
				z.Violated(c, "fuzz decoding of %s: %v\nbytes %s\nconstructors %v", typ, err, ref.Short(fz), f.log)
			}
			v, err := bridge.Get(d, dst.Elem())
			if err == nil {
				err = ref.Valid(d, v)
			}
			if err != nil {
				z.Violated(c, "fuzz decoding of %s made an invalid value: %v\nbytes %s\nconstructors %v", typ, err, ref.Short(fz), f.log)
			}
		}
		c.Label("%d constructors other than the factory's, %s accepted=%v", min(f.others, 4), kind, refErr == nil)
		if f.others > 0 && len(k.Enc) > 0 {
			c.NonTrivial(k.Sample, k.Typ.T, f.log, in, k.Enc)
		}
	})
}

type NoLimit []uint16
type NoLimitB []byte
type Strs []string
type Flt []float64

func (*Strs) Limit() uint64 { return 4 }
func (*Flt) Limit() uint64  { return 4 }

func ty[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

// strange types; no constructor takes them, but for those named
var strange = []reflect.Type{ty[string](), ty[int](), ty[int8](), ty[uint](), ty[uintptr](), ty[float32](), ty[float64](), ty[complex128](), ty[map[string]int](), ty[chan uint8](),
	ty[func()](), ty[any](), ty[error](), ty[NoLimit](), ty[NoLimitB](), ty[Strs](), ty[Flt](), ty[[]uint64](), ty[[]byte](), ty[[2]string](), ty[[3]int64](),
	ty[*string](), ty[*NoLimit](), ty[**int](), ty[struct{ A string }](), ty[struct{ A NoLimit }](), ty[[3]NoLimit](), ty[struct{ A, B, C *struct{ D []byte } }]()}

// TestKinds: a constructor takes what is of its kind, and refuses everything else with an error.
func TestKinds(t *testing.T) {
	h.Check(t, 0.5, func(c *h.C) {
		name := gen.From(c.T, constructors, "constructor")
		var rt reflect.Type
		odd := gen.Index(c.T, 3, "odd") == 0
		if odd {
			rt = gen.From(c.T, strange, "type")
			switch gen.Index(c.T, 5, "wrap") {
			case 0:
				rt = reflect.PtrTo(rt)
			case 1:
				rt = reflect.ArrayOf(1+gen.Index(c.T, 3, "len"), rt)
			case 2:
				rt = reflect.StructOf([]reflect.StructField{{Name: "X", Type: ty[uint8]()}, {Name: "Y", Type: rt}})
			}
		} else {
			rt = gen.Entry(c.T, 1).T
		}
		var s types.SSZ
		var err error
		z.Try(c, fmt.Sprintf("%s of %v", name, rt), func() { s, err = construct(name, types.SSZFactory, rt) })
		if err == nil && s == nil {
			z.Violated(c, "%s of %v returned neither a definition nor an error", name, rt)
		}
		mine := false
		for _, k := range kinds[name] {
			mine = mine || k == rt.Kind()
		}
		if !mine && err == nil {
			z.Violated(c, "%s accepts %v", name, rt)
		}
		if odd && err == nil {
			z.Violated(c, "%s accepts the unsupported type %v", name, rt)
		}
		if !odd {
			d, _ := ref.FromType(rt)
			fits := name == "GetBasicSSZElemType" && isBasic(rt.Kind())
			for _, k := range fitting(rt, d) {
				fits = fits || k == name
			}
			if fits && err != nil {
				z.Violated(c, "%s refuses %v: %v", name, d, err)
			}
			// packed bits have no single elements; basic constructors are for basic elements, byte constructors for bytes
			var elem reflect.Kind
			if rt.Kind() == reflect.Array || rt.Kind() == reflect.Slice {
				elem = rt.Elem().Kind()
			}
			switch name {
			case "NewSSZBasicVector", "NewSSZBasicList":
				if mine && !isBasic(elem) && err == nil {
					z.Violated(c, "%s accepts elements that are not basic: %v", name, rt)
				}
			case "NewSSZBytesN", "NewSSZBytes", "NewSSZBitlist", "NewSSZBitvector":
				if mine && elem != reflect.Uint8 && err == nil {
					z.Violated(c, "%s accepts elements that are not bytes: %v", name, rt)
				}
				if name == "NewSSZBitvector" && mine && d.Kind != ref.Bitvector && err == nil {
					z.Violated(c, "%s accepts a type without bit length: %v", name, rt)
				}
			}
		}
		c.Label("%s odd=%v accepted=%v", name, odd, err == nil)
		if !mine || odd {
			c.NonTrivial(func() any { return map[string]any{"constructor": name, "type": rt.String(), "error": fmt.Sprint(err)} }, name, rt)
		}
	})
}
