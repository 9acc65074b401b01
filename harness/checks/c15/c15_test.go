package c15

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"testing"

	"github.com/protolambda/zssz/types"

	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/reg"
	"zverif/z"
)

func TestMain(m *testing.M) { h.Main(m) }

type l2 struct{}
type l3 struct{}
type l9 struct{}

func (l2) N() uint64 { return 2 }
func (l3) N() uint64 { return 3 }
func (l9) N() uint64 { return 9 }

type OmitOnly string

type In struct {
	A MStr
	B uint8
	C reg.Li[MRoot, l3]
}
type Small struct {
	A uint16
	P MPoint
	C MBool
}
type Emb struct {
	MPoint
	In
	MStr
	X *MBytes
	Small
}
type Sq struct {
	A  In       `ssz:"squash"`
	B  Emb      `ssz:"squash"`
	O  MStruct  `ssz:"omit"`
	OO OmitOnly `ssz:"omit"`
	Z  reg.Bl[l9]
}
type Deep struct {
	P  **MStruct
	L  reg.Li[*Sq, l2]
	V  [2]In
	W  [3]MU64
	Y  [2]*MU64
	M  MList
	N  reg.Li[MList, l2]
	MB reg.Li[MByte, l9]
	Q  reg.Li[MGrid, l3]
	OO map[string]OmitOnly `ssz:"omit"`
}

// pool: types with claimable types at all kinds of places
var pool = []reflect.Type{
	ty[MStr](), ty[MStruct](), ty[MBytes](), ty[MArr](), ty[MU64](), ty[MBool](), ty[MRoot](), ty[MPoint](), ty[MList](), ty[MByte](), ty[MGrid](),
	ty[*MStr](), ty[**MPoint](), ty[*MRoot](), ty[[2]MStr](), ty[[3]MPoint](), ty[[2]MRoot](), ty[[2]*MU64](), ty[[3]MU64](), ty[[3]*MByte](), ty[[2]MGrid](),
	ty[[2][2]MRoot](), ty[[2]MList](), ty[[1]MArr](), ty[[2]**MStruct](),
	ty[reg.Li[MStr, l3]](), ty[reg.Li[MStruct, l2]](), ty[reg.Li[MBytes, l9]](), ty[reg.Li[MRoot, l3]](), ty[reg.Li[MPoint, l9]](), ty[reg.Li[*MPoint, l3]](),
	ty[reg.Li[MList, l2]](), ty[reg.Li[MU64, l3]](), ty[reg.Li[*MU64, l3]](), ty[reg.Li[*MBool, l9]](), ty[reg.Li[MByte, l9]](), ty[reg.Li[*MByte, l3]](), ty[reg.Li[reg.Li[MRoot, l2], l2]](),
	ty[reg.Li[[2]MPoint, l3]](), ty[reg.Li[struct{ A MPoint }, l3]](), ty[reg.Li[struct{ MStr }, l3]](),
	ty[In](), ty[Small](), ty[Emb](), ty[Sq](), ty[Deep](), ty[*Deep](), ty[[2]Small](), ty[reg.Li[Emb, l2]](), ty[reg.Li[Small, l9]](), ty[*Sq](),
	ty[struct{ A, B MPoint }](), ty[struct {
		A struct {
			MPoint
			B MRoot
		} `ssz:"squash"`
		C [2]struct{ D *MPoint }
	}](),
}

// setting is a set of claims with the rules for both sides.
type setting struct {
	by    map[reflect.Type]claim
	cust  map[reflect.Type]*ref.Custom
	calls int
	fail  int // the call that fails, 0 none
	wrap  int // 1: containers are wrapped in a custom definition, 2: all but pointers and basic types are
	bad   reflect.Type
	made  map[reflect.Type]types.SSZ // if not nil, the factory makes a definition once and uses it everywhere
}

var errFactory = errors.New("factory says no")

func (s *setting) rule(t reflect.Type) (*ref.Custom, bool) {
	c, ok := s.cust[t]
	return c, ok
}

func (s *setting) factory(t reflect.Type) (types.SSZ, error) {
	s.calls++
	if s.calls == s.fail || t == s.bad {
		return nil, errFactory
	}
	if s.made == nil {
		return s.make(t)
	}
	if x, ok := s.made[t]; ok {
		return x, nil
	}
	x, err := s.make(t)
	if err == nil {
		s.made[t] = x
	}
	return x, err
}

func (s *setting) make(t reflect.Type) (types.SSZ, error) {
	if k, ok := s.by[t]; ok {
		return &cssz{k, s.cust[t]}, nil
	}
	def, err := types.DefaultSSZFactory(s.factory, t)
	if err != nil || s.wrap == 0 {
		return def, err
	}
	switch x := def.(type) {
	case *types.SSZContainer:
		return &wrappedContainer{x}, nil
	case *types.SSZPtr, types.SSZBool, types.SSZUint8, types.SSZUint16, types.SSZUint32, types.SSZUint64:
		// told apart by the default factory, for packing
		return def, nil
	}
	if s.wrap == 2 {
		return &wrapped{def}, nil
	}
	return def, nil
}

// definitions that do what the default ones do, and are of other types
type wrappedContainer struct{ *types.SSZContainer }

type wrapped struct{ types.SSZ }

func draw(c *h.C) *setting {
	s := &setting{by: map[reflect.Type]claim{}, cust: map[reflect.Type]*ref.Custom{}, bad: ty[OmitOnly]()}
	s.wrap = max(0, gen.Index(c.T, 5, "wrap")-2)
	for _, k := range claims {
		if k.need || gen.Index(c.T, 3, "claim") != 0 {
			s.by[k.t] = k
			s.cust[k.t] = custom(k)
		}
	}
	return s
}

var names = []string{"Fa", "Fb", "Fc", "Fd", "Fe"}

func drawType(c *h.C, s *setting) (reflect.Type, *ref.Desc) {
	for try := 0; try < 6; try++ {
		t := gen.From(c.T, pool, "type")
		switch gen.Index(c.T, 6, "compose") {
		case 0:
			t = reflect.PtrTo(t)
		case 1:
			t = reflect.ArrayOf(1+gen.Index(c.T, 3, "len"), t)
		case 2, 3:
			var fs []reflect.StructField
			for i := 0; i < 1+gen.Index(c.T, 4, "fields"); i++ {
				f := reflect.StructField{Name: names[i], Type: gen.From(c.T, pool, "field")}
				switch gen.Index(c.T, 6, "kind") {
				case 0:
					f.Type = gen.From(c.T, reg.All(), "plain").T
				case 1:
					f.Tag = `ssz:"omit"`
				case 2:
					if f.Type.Kind() == reflect.Struct && s.cust[f.Type] == nil {
						f.Tag = `ssz:"squash"`
					}
				}
				fs = append(fs, f)
			}
			t = reflect.StructOf(fs)
		}
		d, err := ref.FromTypeCustom(t, s.rule)
		if err == nil && reg.Usable(d) {
			return t, d
		}
	}
	return nil, nil
}

func claimed(d *ref.Desc) int {
	if d.Custom != nil {
		return 1
	}
	n := 0
	if d.Elem != nil {
		n = claimed(d.Elem)
	}
	for _, f := range d.Fields {
		n += claimed(f.D)
	}
	return n
}

func TestCustom(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		s := draw(c)
		if gen.Index(c.T, 2, "once") == 0 {
			s.made = map[reflect.Type]types.SSZ{}
		}
		// several types by one factory, which may have parts in common
		var typs []*z.Typ
		for n := 1 + max(0, gen.Index(c.T, 5, "types")-2); n > 0; n-- {
			rt, d := drawType(c, s)
			if rt == nil {
				continue
			}
			var sz types.SSZ
			var err error
			z.Try(c, "construction of "+d.String(), func() { sz, err = s.factory(rt) })
			if err != nil || sz == nil {
				z.Violated(c, "no definition for %v (%v) with a custom factory: %v", rt, d, err)
			}
			typs = append(typs, &z.Typ{T: rt, D: d, S: sz})
		}
		for len(typs) > 2 {
			i := gen.Index(c.T, len(typs), "leave out")
			typs = append(typs[:i:i], typs[i+1:]...)
		}
		for _, typ := range typs {
			checkType(c, s, typ)
		}
	})
}

func checkType(c *h.C, s *setting, typ *z.Typ) {
	rt, d, sz := typ.T, typ.D, typ.S
	var err error
	var fixed bool
	var fl, lo, hi uint64
	z.Try(c, "figures", func() { fixed, fl, lo, hi = sz.IsFixed(), sz.FixedLen(), sz.MinLen(), sz.MaxLen() })
	if fixed != d.Fixed || fl != d.FixedLen || lo != d.Min || hi != d.Max {
		z.Violated(c, "figures of %s: fixed=%v %d %d..%d, want %v %d %d..%d", typ, fixed, fl, lo, hi, d.Fixed, d.FixedLen, d.Min, d.Max)
	}
	k := gen.CaseOf(c.T, typ)
	if got := z.Encode(c, typ, k.Ptr()); !bytes.Equal(got, k.Enc) {
		z.Violated(c, "encoding of %s is %s, want %s", typ, ref.Short(got), ref.Short(k.Enc))
	}
	if got := z.Size(c, typ, k.Ptr()); got != uint64(len(k.Enc)) {
		z.Violated(c, "size of %s is %d, want %d", typ, got, len(k.Enc))
	}
	if got, want := z.Root(c, typ, k.Ptr(), z.Hash), ref.DefaultHasher.Root(d, k.V); got != want {
		z.Violated(c, "root of %s is %x, want %x", typ, got, want)
	}
	if rt.Kind() == reflect.Struct && d.Custom == nil {
		if got, want := z.Signing(c, typ, k.Ptr(), z.Hash), ref.DefaultHasher.SigningRoot(d, k.V); got != want {
			z.Violated(c, "signing root of %s is %x, want %x", typ, got, want)
		}
	}
	out := z.Pretty(c, typ, k.Ptr(), "")
	if got, want := bytes.Count([]byte(out), []byte("custom(")), occurrences(d, k.V); got != want {
		z.Violated(c, "%s printed with %d claimed parts, want %d:\n%s", typ, got, want, out)
	}
	in, kind := k.Enc, "own encoding"
	if gen.Index(c.T, 3, "bytes") != 0 {
		in, kind = gen.Bytes(c.T, d)
	}
	want, refErr := ref.Decode(d, in)
	dst, _ := gen.Dst(c.T, d)
	err = z.Decode(c, typ, bytes.NewReader(in), uint64(len(in)), dst.Interface())
	if (err == nil) != (refErr == nil) {
		z.Violated(c, "decoding %s (%s): %v, model: %v\nbytes %s", typ, kind, err, refErr, ref.Short(in))
	}
	if err == nil {
		got, gerr := bridge.Get(d, dst.Elem())
		if gerr != nil || !ref.Equal(got, want) {
			z.Violated(c, "decoding %s (%s) gave another value (%v)\nbytes %s", typ, kind, gerr, ref.Short(in))
		}
	}
	if derr := z.DryCheck(c, typ, bytes.NewReader(in), uint64(len(in))); (derr == nil) != (err == nil) {
		z.Violated(c, "dry check of %s (%s): %v, decode: %v\nbytes %s", typ, kind, derr, err, ref.Short(in))
	}
	n := claimed(d)
	c.Label("%d claimed, %s accepted=%v", min(n, 4), kind, err == nil)
	if n > 0 {
		c.NonTrivial(k.Sample, rt, fmt.Sprint(len(s.by)), in)
	}
	// fuzz mode reaches the custom definitions too
	var fmin uint64
	z.Try(c, "FuzzMinLen", func() { fmin = sz.FuzzMinLen() })
	if fmin < 5000 {
		fz := make([]byte, int(fmin)+gen.Index(c.T, 100, "more"))
		(&bridge.Rng{S: gen.Seed(c.T, "fuzz")}).Fill(fz)
		dst, _ = gen.Dst(c.T, d)
		_, err := z.Fuzz(c, typ, bytes.NewReader(fz), uint64(len(fz)), dst.Interface())
		if err != nil {
			z.Violated(c, "fuzz decoding of %s: %v\nbytes %s", typ, err, ref.Short(fz))
		}
		v, err := bridge.Get(d, dst.Elem())
		if err == nil {
			err = ref.Valid(d, v)
		}
		if err != nil {
			z.Violated(c, "fuzz decoding of %s made an invalid value: %v\nbytes %s", typ, err, ref.Short(fz))
		}
	}
}

// occurrences of claimed values
func occurrences(d *ref.Desc, v *ref.Val) int {
	if d.Custom != nil {
		return 1
	}
	n := 0
	for i, e := range v.E {
		n += occurrences(d.Child(i), e)
	}
	return n
}

// TestFactoryError: whichever call of the factory fails, the construction fails with its error.
func TestFactoryError(t *testing.T) {
	h.Check(t, 0.5, func(c *h.C) {
		s := draw(c)
		rt, d := drawType(c, s)
		if rt == nil {
			return
		}
		var err error
		z.Try(c, "construction of "+d.String(), func() { _, err = s.factory(rt) })
		if err != nil {
			z.Violated(c, "no definition for %v (%v) with a custom factory: %v", rt, d, err)
		}
		n := s.calls
		for k := 1; k <= n; k++ {
			if n > 40 && k > 10 && gen.Index(c.T, n/20, "skip") != 0 {
				continue
			}
			s.calls, s.fail = 0, k
			var got types.SSZ
			z.Try(c, "construction of "+d.String(), func() { got, err = s.factory(rt) })
			if err == nil {
				z.Violated(c, "construction of %v succeeds (%v) although the factory failed at call %d of %d", rt, got, k, n)
			}
			if !errors.Is(err, errFactory) {
				z.Violated(c, "construction of %v with a factory that fails at call %d of %d returns another error: %v", rt, k, n, err)
			}
		}
		// a type for which the factory fails makes everything that contains it fail
		for _, k := range claims {
			s.calls, s.fail, s.bad = 0, 0, k.t
			var err error
			z.Try(c, "construction of "+d.String(), func() { _, err = s.factory(rt) })
			if r := reaches(rt, k.t, s); r != (err != nil) {
				z.Violated(c, "the factory fails for %v, construction of %v: %v, reachable: %v", k.t, rt, err, r)
			}
		}
		c.Label("calls %d", min(n, 20))
		if n > 1 {
			c.NonTrivial(func() any { return map[string]any{"type": d.String(), "factory calls": n} }, rt, len(s.by))
		}
	})
}

// reaches: the factory is asked for want somewhere in t.
func reaches(t, want reflect.Type, s *setting) bool {
	if t == want {
		return true
	}
	if s.cust[t] != nil {
		return false
	}
	switch t.Kind() {
	case reflect.Ptr:
		return reaches(t.Elem(), want, s)
	case reflect.Array, reflect.Slice:
		switch t.Elem().Kind() {
		case reflect.Bool, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return false
		}
		return reaches(t.Elem(), want, s)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if f := t.Field(i); !ref.HasFlag(f.Tag, "omit") && reaches(f.Type, want, s) {
				return true
			}
		}
	}
	return false
}

// TestNothingClaimed: a custom factory that claims nothing is the default factory.
func TestNothingClaimed(t *testing.T) {
	h.Check(t, 0.3, func(c *h.C) {
		k := gen.NewCase(c.T)
		s := &setting{by: map[reflect.Type]claim{}, cust: map[reflect.Type]*ref.Custom{}, wrap: max(0, gen.Index(c.T, 5, "wrap")-2)}
		if gen.Index(c.T, 2, "once") == 0 {
			s.made = map[reflect.Type]types.SSZ{}
		}
		var sz types.SSZ
		var err error
		z.Try(c, "construction of "+k.Typ.String(), func() { sz, err = s.factory(k.Typ.T) })
		if err != nil {
			z.Violated(c, "no definition for %s with a custom factory: %v", k.Typ, err)
		}
		typ := &z.Typ{T: k.Typ.T, D: k.Typ.D, S: sz}
		if got := z.Encode(c, typ, k.Ptr()); !bytes.Equal(got, k.Enc) {
			z.Violated(c, "encoding of %s is %s, want %s", typ, ref.Short(got), ref.Short(k.Enc))
		}
		if got, want := z.Root(c, typ, k.Ptr(), z.Hash), z.Root(c, k.Typ, k.Ptr(), z.Hash); got != want {
			z.Violated(c, "root of %s is %x, by default %x", typ, got, want)
		}
		dst, _ := gen.Dst(c.T, typ.D)
		if err := z.Decode(c, typ, bytes.NewReader(k.Enc), uint64(len(k.Enc)), dst.Interface()); err != nil {
			z.Violated(c, "decoding %s: %v", typ, err)
		}
		if got, err := bridge.Get(typ.D, dst.Elem()); err != nil || !ref.Equal(got, k.V) {
			z.Violated(c, "decoding %s gave another value (%v)", typ, err)
		}
	})
}
