package c22

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"
	"unsafe"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/types"

	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/reg"
	"zverif/z"
)

func TestMain(m *testing.M) { h.Main(m) }

func ty[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

// lists and bitfields that declare their limit and length in unusual ways, or wrongly
type NoLimit []uint64
type NoLimitBytes []byte
type NoLimitStructs []reg.Checkpoint
type ValLimit []uint32
type ValLimitBytes []byte
type ValLimitBits []byte
type ValLimitStructs []reg.Checkpoint
type WrongResult []uint64
type WrongArgs []uint64
type OtherName []uint64
type BitsNoLimit []byte
type NotBits []uint16 // BitLen on a slice of non-bytes: just a list
type NotBitsNoLimit []uint16
type BitsOfDBytes []reg.DByte
type BytesOfDBytes []reg.DByte
type ZeroLimit []uint16
type ZeroLimitBytes []byte
type OfUnsupported []string
type OfInts []int
type OfNoLimit []NoLimit
type OfPtr []*NoLimit
type Inherits struct{ ValLimit }

func (ValLimit) Limit() uint64         { return 4 }
func (ValLimitBytes) Limit() uint64    { return 5 }
func (ValLimitBits) Limit() uint64     { return 6 }
func (b ValLimitBits) BitLen() uint64  { return uint64(len(b)) }
func (ValLimitStructs) Limit() uint64  { return 3 }
func (*WrongResult) Limit() int        { return 4 }
func (*WrongArgs) Limit(x int) uint64  { return 4 }
func (*OtherName) MaxLen() uint64      { return 4 }
func (*BitsNoLimit) BitLen() uint64    { return 4 }
func (*NotBits) BitLen() uint64        { return 4 }
func (*NotBits) Limit() uint64         { return 4 }
func (*NotBitsNoLimit) BitLen() uint64 { return 4 }
func (b *BitsOfDBytes) BitLen() uint64 { return uint64(len(*b)) }
func (*BitsOfDBytes) Limit() uint64    { return 12 }
func (*BytesOfDBytes) Limit() uint64   { return 12 }
func (*ZeroLimit) Limit() uint64       { return 0 }
func (*ZeroLimitBytes) Limit() uint64  { return 0 }
func (*OfUnsupported) Limit() uint64   { return 4 }
func (*OfInts) Limit() uint64          { return 4 }
func (*OfNoLimit) Limit() uint64       { return 4 }
func (*OfPtr) Limit() uint64           { return 4 }

type BvShort [1]byte
type BvLong [3]byte
type BvVal [2]byte
type BvValBad [2]byte
type BvZero [0]byte
type BvZeroBad [1]byte
type BvHuge [0]byte
type BvHuge2 [1]byte
type BvHuge3 [32]byte
type BvD [2]reg.DByte
type BvDBad [2]reg.DByte
type BvWrongSig [2]byte
type BvNotBytes [2]uint16
type ArrLimit [3]byte
type ArrLimit16 [3]uint16

func (*BvShort) BitLen() uint64    { return 9 }
func (*BvLong) BitLen() uint64     { return 16 }
func (BvVal) BitLen() uint64       { return 10 }
func (BvValBad) BitLen() uint64    { return 8 }
func (*BvZero) BitLen() uint64     { return 0 }
func (*BvZeroBad) BitLen() uint64  { return 0 }
func (*BvHuge) BitLen() uint64     { return ^uint64(0) }
func (*BvHuge2) BitLen() uint64    { return ^uint64(0) }
func (*BvHuge3) BitLen() uint64    { return 1<<63 + 256 }
func (*BvD) BitLen() uint64        { return 13 }
func (*BvDBad) BitLen() uint64     { return 17 }
func (*BvWrongSig) BitLen() int    { return 99 }
func (*BvNotBytes) BitLen() uint64 { return 99 }
func (*ArrLimit) Limit() uint64    { return 99 }
func (*ArrLimit16) Limit() uint64  { return 99 }

// methods on other kinds mean nothing
type UintWith uint32
type StructWith struct{ A, B uint8 }
type StrWith string

func (*UintWith) BitLen() uint64   { return 5 }
func (*UintWith) Limit() uint64    { return 5 }
func (*StructWith) BitLen() uint64 { return 5 }
func (*StructWith) Limit() uint64  { return 5 }
func (*StrWith) Limit() uint64     { return 5 }

// embedded and tagged
type EmbUnsupported struct {
	A uint8
	StrWith
}
type EmbNoLimit struct {
	NoLimit
	A uint8
}
type EmbOmitted struct {
	StrWith `ssz:"omit"`
	A       uint8
}
type EmbIface struct {
	fmt.Stringer
	A uint8
}
type EmbPtr struct {
	*reg.Checkpoint
	A uint8
}
type SquashPtr struct {
	P *reg.Checkpoint `ssz:"squash"`
}
type SquashEmbPtr struct {
	*reg.Checkpoint `ssz:"squash"`
}
type SquashUint struct {
	A uint8 `ssz:"squash"`
}
type SquashList struct {
	A ValLimit `ssz:"squash"`
}
type SquashArr struct {
	A [2]reg.Checkpoint `ssz:"foo,squash"`
}
type SquashEmpty struct {
	A reg.Empty `ssz:"squash"`
	B uint8
}
type SquashNested struct {
	A struct {
		B struct {
			C []uint64
		} `ssz:"squash"`
	} `ssz:"squash"`
}
type SquashNestedOK struct {
	A struct {
		B struct {
			C []uint64 `ssz:"omit"`
		} `ssz:"squash"`
		D uint16
	} `ssz:"squash"`
}
type TagNear struct {
	A string `ssz:"omitted"`
}
type TagCase struct {
	A string `ssz:"Omit"`
}
type TagOther struct {
	A string `json:"omit" xml:"omit"`
}
type TagSpace struct {
	A string `ssz:" omit"`
}
type TagEmptyFlags struct {
	A string `ssz:",,omit"`
	B uint8  `ssz:","`
}
type TagMulti struct {
	A string     `json:"x,omit" ssz:"a,b,omit,c" xml:"squash"`
	B reg.SmallT `ssz:"a,squash,c"`
}

var odd = []reflect.Type{
	ty[NoLimit](), ty[NoLimitBytes](), ty[NoLimitStructs](), ty[ValLimit](), ty[ValLimitBytes](), ty[ValLimitBits](),
	ty[ValLimitStructs](), ty[WrongResult](), ty[WrongArgs](), ty[OtherName](), ty[BitsNoLimit](), ty[NotBits](), ty[NotBitsNoLimit](),
	ty[BitsOfDBytes](), ty[BytesOfDBytes](), ty[ZeroLimit](), ty[ZeroLimitBytes](), ty[OfUnsupported](), ty[OfInts](), ty[OfNoLimit](), ty[OfPtr](), ty[Inherits](),
	ty[BvShort](), ty[BvLong](), ty[BvVal](), ty[BvValBad](), ty[BvZero](), ty[BvZeroBad](), ty[BvHuge](), ty[BvHuge2](), ty[BvHuge3](), ty[BvD](),
	ty[BvDBad](), ty[BvWrongSig](), ty[BvNotBytes](), ty[ArrLimit](), ty[ArrLimit16](), ty[UintWith](), ty[StructWith](), ty[StrWith](),
	ty[EmbUnsupported](), ty[EmbNoLimit](), ty[EmbOmitted](), ty[EmbIface](), ty[EmbPtr](), ty[SquashPtr](), ty[SquashEmbPtr](), ty[SquashUint](), ty[SquashList](),
	ty[SquashArr](), ty[SquashEmpty](), ty[SquashNested](), ty[SquashNestedOK](), ty[TagNear](), ty[TagCase](), ty[TagOther](), ty[TagSpace](), ty[TagEmptyFlags](), ty[TagMulti](),
}

var unsupported = []reflect.Type{
	ty[int](), ty[int8](), ty[int16](), ty[int32](), ty[int64](), ty[uint](), ty[uintptr](), ty[float32](), ty[float64](),
	ty[complex64](), ty[complex128](), ty[string](), ty[any](), ty[error](), ty[unsafe.Pointer](), ty[func()](), ty[chan uint8](),
	ty[map[uint8]uint8](), ty[[]uint8](), ty[[]uint64](), ty[[]bool](), ty[[]reg.Checkpoint](), ty[[][32]byte](), ty[time](), ty[*string](),
	ty[[4]int](), ty[[]*uint8](), ty[*[]byte](),
}

type time struct{ wall int64 }

var tags = []reflect.StructTag{"", "", "", `ssz:""`, `ssz:"omitt"`, `json:"omit"`, `ssz:"omit"`, `ssz:"a,omit"`, `ssz:"omit,squash"`,
	`ssz:"squash"`, `ssz:"x,squash"`, `ssz:"Squash"`, `xml:"squash" ssz:"y"`, `ssz:"squash,"`, `ssz:",omit"`, `ssz:"om,it"`, `ssz:"omit x"`}

// draw composes a Go type out of supported and unsupported parts.
func draw(c *h.C, depth int, bad int) reflect.Type {
	if depth <= 0 || gen.Index(c.T, 4, "leaf") == 0 {
		switch k := gen.Index(c.T, 20, "pool"); {
		case k < bad:
			return gen.From(c.T, unsupported, "unsupported")
		case k < 10:
			return gen.From(c.T, odd, "odd")
		case k < 14:
			return gen.From(c.T, reg.Leaves(), "leaf type").T
		}
		return gen.From(c.T, reg.All(), "type").T
	}
	switch gen.Index(c.T, 8, "how") {
	case 0:
		return reflect.PtrTo(draw(c, depth-1, bad))
	case 1:
		e := draw(c, depth-1, bad)
		n := gen.From(c.T, []int{0, 1, 2, 3, 7}, "len")
		if e.Size() > 1<<16 {
			n = 1
		}
		return reflect.ArrayOf(n, e)
	case 2:
		if bad > 0 {
			return reflect.SliceOf(draw(c, depth-1, bad))
		}
	}
	var fs []reflect.StructField
	for i, n := 0, gen.Index(c.T, 6, "fields"); i < n; i++ {
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: draw(c, depth-1, bad), Tag: gen.From(c.T, tags, "tag")}
		if f.Type.Kind() == reflect.Struct && f.Type.Name() != "" && f.Type.PkgPath() != "" && f.Type.NumMethod() == 0 &&
			reflect.PtrTo(f.Type).NumMethod() == 0 && gen.Index(c.T, 3, "embed") == 0 && !has(fs, f.Type.Name()) && exported(f.Type.Name()) {
			f.Name, f.Anonymous = f.Type.Name(), true
		}
		fs = append(fs, f)
	}
	return structOf(fs)
}

// structOf does without embedding where reflect does not support it.
func structOf(fs []reflect.StructField) (t reflect.Type) {
	defer func() {
		if recover() != nil {
			for i := range fs {
				fs[i].Anonymous = false
			}
			t = reflect.StructOf(fs)
		}
	}()
	return reflect.StructOf(fs)
}

func exported(s string) bool {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_') {
			return false // generic names
		}
	}
	return s[0] >= 'A' && s[0] <= 'Z'
}

func has(fs []reflect.StructField, name string) bool {
	for _, f := range fs {
		if f.Name == name {
			return true
		}
	}
	return false
}

func name(t reflect.Type) string {
	s := t.String()
	if len(s) > 500 {
		s = s[:500] + "..."
	}
	return s
}

func TestVerdict(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		typ := draw(c, gen.Index(c.T, 5, "depth"), gen.From(c.T, []int{0, 0, 1, 3}, "bad"))
		d, want := ref.FromType(typ)
		check(c, typ, d, want)
		if want != nil {
			c.Label("unsupported")
		} else {
			c.Label("supported %v", d.Kind)
		}
		if typ.Kind() == reflect.Struct || typ.Kind() == reflect.Ptr || typ.Kind() == reflect.Array || typ.Kind() == reflect.Slice {
			c.NonTrivial(func() any { return map[string]any{"type": name(typ), "error": fmt.Sprint(want)} }, name(typ))
		}
	})
}

// TestPool covers every type of the pools, alone and as element, field and target of a pointer.
func TestPool(t *testing.T) {
	n := 0
	for _, p := range append(append([]reflect.Type(nil), odd...), unsupported...) {
		in := []reflect.Type{p, reflect.PtrTo(p), reflect.PtrTo(reflect.PtrTo(p)), reflect.ArrayOf(2, p), reflect.SliceOf(p), reflect.ArrayOf(0, p)}
		for _, tag := range tags {
			in = append(in, reflect.StructOf([]reflect.StructField{{Name: "A", Type: ty[uint8]()}, {Name: "B", Type: p, Tag: tag}, {Name: "C", Type: ty[reg.Checkpoint]()}}))
		}
		for _, typ := range in {
			d, want := ref.FromType(typ)
			check(t, typ, d, want)
			n++
		}
	}
	h.Count(t.Name(), n)
}

func check(c z.TB, typ reflect.Type, d *ref.Desc, want error) {
	var s types.SSZ
	var err error
	z.Try(c, "SSZFactory of "+name(typ), func() { s, err = types.SSZFactory(typ) })
	if want == nil && (d.Overflow || d.ZeroElem) {
		return // outside of the domain: no panic is all that is asked for
	}
	if (err == nil) != (want == nil) {
		z.Violated(c, "SSZFactory of %s: %v, should be: %v", name(typ), err, want)
	}
	if err == nil && s == nil {
		z.Violated(c, "SSZFactory of %s: no error, but no definition", name(typ))
	}
	var g types.SSZ
	p, _ := z.Panics(func() { g = zssz.GetSSZ(reflect.Zero(reflect.PtrTo(typ)).Interface()) })
	if (p == nil) != (want == nil) {
		z.Violated(c, "GetSSZ of %s: panic %v, SSZFactory: %v", name(typ), p, err)
	}
	if want != nil || !reg.Usable(d) {
		return
	}
	// the definitions are of the right form
	for i, s := range []types.SSZ{s, g} {
		x := &z.Typ{T: typ, D: d, S: s}
		form(c, x, []string{"SSZFactory", "GetSSZ"}[i])
	}
}

// form tells by its behaviour whether a definition is of the right form for the type.
func form(c z.TB, x *z.Typ, how string) {
	if _, ok := x.S.(types.SignedSSZ); x.T.Kind() != reflect.Ptr && ok != (x.D.Kind == ref.Container) {
		z.Violated(c, "%s of %s: offers signing roots: %v", how, name(x.T), ok)
	}
	if got, want := [3]uint64{x.S.FixedLen(), x.S.MinLen(), x.S.MaxLen()}, [3]uint64{x.D.FixedLen, x.D.Min, x.D.Max}; got != want || x.S.IsFixed() != x.D.Fixed {
		z.Violated(c, "%s of %s (%v): fixed, minimum and maximum length %v (fixed=%v), want %v (%v)", how, name(x.T), x, got, x.S.IsFixed(), want, x.D.Fixed)
	}
	rng := &bridge.Rng{S: 99}
	for i := 0; i < 3; i++ {
		v := sample(x.D, rng, i)
		obj := bridge.New(x.D, v, nil)
		want := ref.Encode(x.D, v)
		if got := z.Encode(c, x, obj.Interface()); !bytes.Equal(got, want) {
			z.Violated(c, "%s of %s is of another form: encoding of %s is %s instead of %s", how, name(x.T), ref.Render(x.D, v), ref.Short(got), ref.Short(want))
		}
		if got, want := z.Root(c, x, obj.Interface(), z.Hash), ref.DefaultHasher.Root(x.D, v); got != want {
			z.Violated(c, "%s of %s is of another form: root of %s is %x instead of %x", how, name(x.T), ref.Render(x.D, v), got, want)
		}
		dst := reflect.New(x.T)
		if err := z.Decode(c, x, bytes.NewReader(want), uint64(len(want)), dst.Interface()); err != nil {
			z.Violated(c, "%s of %s is of another form: decoding %s: %v", how, name(x.T), ref.Short(want), err)
		}
		if got, err := bridge.Get(x.D, dst.Elem()); err != nil || !ref.Equal(got, v) {
			z.Violated(c, "%s of %s is of another form: decoding %s gives %v (%v)", how, name(x.T), ref.Short(want), got, err)
		}
		// verdicts on other strings: bitfields, byte strings and lists differ in those
		for _, b := range [][]byte{{}, {0}, {1}, {2}, {0xff}, {0, 0}, {0, 1}, {1, 0}, {0xff, 0xff}, {0, 0, 0, 0}, append(append([]byte(nil), want...), 0), flip(want)} {
			_, e := ref.Decode(x.D, b)
			if got := z.DryCheck(c, x, bytes.NewReader(b), uint64(len(b))); (got == nil) != (e == nil) {
				z.Violated(c, "%s of %s is of another form: checking %s: %v, should be %v", how, name(x.T), ref.Short(b), got, e)
			}
		}
	}
}

func flip(b []byte) []byte {
	out := append([]byte(nil), b...)
	if len(out) > 0 {
		out[len(out)-1] ^= 0x80
	}
	return out
}

// sample makes a small value without drawing.
func sample(d *ref.Desc, rng *bridge.Rng, size int) *ref.Val {
	v := &ref.Val{}
	fill := func(n uint64, bits bool) {
		v.B = make([]byte, n)
		rng.Fill(v.B)
		for i := range v.B {
			if bits {
				v.B[i] &= 1
			}
		}
	}
	upTo := func(n uint64) uint64 {
		if size < 0 {
			return 0
		}
		if n > uint64(3*size) {
			n = uint64(3 * size)
		}
		return n
	}
	switch d.Kind {
	case ref.Bool:
		v.U = rng.U() & 1
	case ref.Uint:
		v.U = rng.U() >> (64 - 8*d.Size)
	case ref.BytesN:
		fill(d.N, false)
	case ref.Bitvector:
		fill(d.N, true)
	case ref.Bytes:
		fill(upTo(d.Limit), false)
	case ref.Bitlist:
		fill(upTo(d.Limit), true)
	case ref.Vector, ref.List:
		n := d.N
		if d.Kind == ref.List {
			n = upTo(d.Limit)
		}
		if d.PackedElems() {
			fill(n*d.Elem.Size, d.Elem.Kind == ref.Bool)
			break
		}
		for i := uint64(0); i < n; i++ {
			v.E = append(v.E, sample(d.Elem, rng, size-1+int(i%2)))
		}
	case ref.Container:
		for _, f := range d.Fields {
			v.E = append(v.E, sample(f.D, rng, size))
		}
	}
	return v
}
