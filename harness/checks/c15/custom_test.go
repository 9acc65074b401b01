package c15

import (
	"crypto/sha256"
	"errors"
	"fmt"
	"reflect"
	"unsafe"

	"github.com/protolambda/zssz/dec"
	"github.com/protolambda/zssz/enc"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/pretty"

	"zverif/ref"
)

// Claimed types: some are unsupported by default, some would work by default but differently.
type (
	MStr    string
	MStruct struct {
		S string
		N int
	}
	MBytes []byte // no limit
	MArr   [2]string
	MU64   uint64
	MBool  bool
	MRoot  [32]byte
	MPoint struct{ X, Y uint16 }
	MList  []uint32
	MByte  uint8
	MGrid  [2][2]uint16
)

func (*MList) Limit() uint64 { return 3 }

// content stores up to 8 bytes of content in any of the types, and reads it back.
func toGo(b []byte, rv reflect.Value) {
	switch rv.Type() {
	case reflect.TypeOf(MStr("")):
		rv.SetString(string(b))
	case reflect.TypeOf(MStruct{}):
		rv.Set(reflect.ValueOf(MStruct{string(b), len(b)}))
	case reflect.TypeOf(MBytes{}):
		rv.SetBytes(append([]byte{}, b...))
	case reflect.TypeOf(MArr{}):
		h := len(b) / 2
		rv.Set(reflect.ValueOf(MArr{string(b[:h]), string(b[h:])}))
	case reflect.TypeOf(MList{}):
		l := MList{}
		for _, x := range b {
			l = append(l, uint32(x)*0x01010101)
		}
		rv.Set(reflect.ValueOf(l))
	default: // flat memory
		copy(unsafe.Slice((*byte)(unsafe.Pointer(rv.UnsafeAddr())), rv.Type().Size()), b)
	}
}

func fromGo(rv reflect.Value) []byte {
	switch rv.Type() {
	case reflect.TypeOf(MStr("")):
		return []byte(rv.String())
	case reflect.TypeOf(MStruct{}):
		return []byte(rv.Interface().(MStruct).S)
	case reflect.TypeOf(MBytes{}):
		return append([]byte(nil), rv.Bytes()...)
	case reflect.TypeOf(MArr{}):
		a := rv.Interface().(MArr)
		return []byte(a[0] + a[1])
	case reflect.TypeOf(MList{}):
		var b []byte
		for _, x := range rv.Interface().(MList) {
			b = append(b, byte(x))
		}
		return b
	}
	return append([]byte(nil), unsafe.Slice((*byte)(unsafe.Pointer(rv.UnsafeAddr())), rv.Type().Size())...)
}

type claim struct {
	t     reflect.Type
	fixed bool
	n     int // content length, maximum when variable
	need  bool
}

func ty[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

// need: without the claim the type is not supported
var claims = []claim{
	{ty[MStr](), false, 20, true},
	{ty[MStruct](), false, 5, true},
	{ty[MBytes](), false, 9, true},
	{ty[MArr](), false, 6, true},
	{ty[MU64](), true, 8, false},
	{ty[MBool](), true, 1, false},
	{ty[MRoot](), true, 32, false},
	{ty[MPoint](), true, 4, false},
	{ty[MList](), false, 12, false},
	{ty[MByte](), true, 1, false},
	{ty[MGrid](), true, 8, false},
}

const mask, tag = 0x5a, 0xc5

// custom: the content, masked, after a tag byte. Only content below 0x60 is accepted.
func custom(k claim) *ref.Custom {
	c := &ref.Custom{Name: k.t.Name(), Fixed: k.fixed, Len: uint64(k.n + 1), MaxLen: uint64(k.n + 1)}
	c.Enc = func(v *ref.Val) []byte {
		b := content(k, v.B)
		out := []byte{tag}
		for _, x := range b {
			out = append(out, x^mask)
		}
		return out
	}
	c.Dec = func(b []byte) (*ref.Val, error) {
		if len(b) < 1 || len(b) > k.n+1 || k.fixed && len(b) != k.n+1 || b[0] != tag {
			return nil, errors.New("custom: form")
		}
		v := &ref.Val{}
		for _, x := range b[1:] {
			x ^= mask
			if x >= 0x60 {
				return nil, errors.New("custom: content")
			}
			v.B = append(v.B, x)
		}
		return v, nil
	}
	c.Root = func(v *ref.Val) [32]byte {
		return sha256.Sum256(append([]byte("custom root of "+k.t.Name()), content(k, v.B)...))
	}
	c.ToGo = func(v *ref.Val, rv reflect.Value) { toGo(content(k, v.B), rv) }
	c.FromGo = func(rv reflect.Value) (*ref.Val, error) {
		b := fromGo(rv)
		if len(b) > k.n || k.fixed && len(b) != k.n {
			return nil, fmt.Errorf("custom %v: %d bytes", k.t, len(b))
		}
		if len(b) == 0 {
			b = nil
		}
		return &ref.Val{B: b}, nil
	}
	c.Gen = func(rnd func() uint64) *ref.Val {
		n := k.n
		if !k.fixed {
			n = int(rnd() % uint64(k.n+1))
		}
		v := &ref.Val{}
		for len(v.B) < n {
			x := rnd()
			for j := 0; j < 8 && len(v.B) < n; j++ {
				v.B = append(v.B, byte(x)%0x60)
				x >>= 8
			}
		}
		return v
	}
	return c
}

func content(k claim, b []byte) []byte {
	if k.fixed && len(b) < k.n {
		return make([]byte, k.n)
	}
	return b
}

// cssz is the definition that the custom factory returns for a claimed type.
type cssz struct {
	k claim
	c *ref.Custom
}

func (s *cssz) FuzzMinLen() uint64 { return s.c.Len }
func (s *cssz) FuzzMaxLen() uint64 { return s.c.Len }
func (s *cssz) MinLen() uint64 {
	if s.k.fixed {
		return s.c.Len
	}
	return 0
}
func (s *cssz) MaxLen() uint64 { return s.c.Len }
func (s *cssz) FixedLen() uint64 {
	if s.k.fixed {
		return s.c.Len
	}
	return 0
}
func (s *cssz) IsFixed() bool { return s.k.fixed }

func (s *cssz) get(p unsafe.Pointer) *ref.Val {
	v, err := s.c.FromGo(reflect.NewAt(s.k.t, p).Elem())
	if err != nil {
		panic(err)
	}
	return v
}

func (s *cssz) DryCheck(dr *dec.DecodingReader) error {
	_, err := s.read(dr)
	return err
}

func (s *cssz) read(dr *dec.DecodingReader) (*ref.Val, error) {
	n := dr.GetBytesSpan()
	if dr.IsFuzzMode() {
		b := make([]byte, s.c.Len)
		if _, err := dr.Read(b); err != nil {
			return nil, err
		}
		v := &ref.Val{}
		n := s.k.n
		if !s.k.fixed {
			n = int(b[0]) % (n + 1)
		}
		for _, x := range b[1 : 1+n] {
			v.B = append(v.B, x%0x60)
		}
		return v, nil
	}
	if s.k.fixed {
		n = s.c.Len
	}
	if n > s.c.Len {
		return nil, errors.New("custom: too long")
	}
	b := make([]byte, n)
	if _, err := dr.Read(b); err != nil {
		return nil, err
	}
	return s.c.Dec(b)
}

func (s *cssz) SizeOf(p unsafe.Pointer) uint64 { return uint64(len(s.c.Enc(s.get(p)))) }

func (s *cssz) Encode(w *enc.EncodingWriter, p unsafe.Pointer) error {
	return w.Write(s.c.Enc(s.get(p)))
}

func (s *cssz) Decode(dr *dec.DecodingReader, p unsafe.Pointer) error {
	v, err := s.read(dr)
	if err != nil {
		return err
	}
	s.c.ToGo(v, reflect.NewAt(s.k.t, p).Elem())
	return nil
}

func (s *cssz) HashTreeRoot(_ htr.MerkleFn, p unsafe.Pointer) [32]byte { return s.c.Root(s.get(p)) }

func (s *cssz) Pretty(indent uint32, w *pretty.PrettyWriter, p unsafe.Pointer) {
	w.WriteIndent(indent)
	w.Write(fmt.Sprintf("custom(%x)", s.get(p).B))
}
