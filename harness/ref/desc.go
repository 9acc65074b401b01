// Package ref is an independent reference model of SSZ as zssz documents it:
// type descriptors, encoding, strict decoding, merkleization, length figures.
// It shares no code with zssz.
package ref

import (
	"fmt"
	"math/bits"
	"reflect"
	"strings"
)

type Kind uint8

const (
	Bool Kind = iota
	Uint
	BytesN
	Bytes
	Bitvector
	Bitlist
	Vector
	List
	Container
)

var kindNames = [...]string{"bool", "uint", "bytesN", "bytes", "bitvector", "bitlist", "vector", "list", "container"}

func (k Kind) String() string { return kindNames[k] }

// Field is one serialized (flattened) field of a container.
type Field struct {
	Name  string
	Path  []int // reflect.Value.FieldByIndex path from the container struct
	Depth int   // squash depth
	D     *Desc
}

// Desc describes one SSZ type together with the Go type that represents it.
type Desc struct {
	Kind   Kind
	Size   uint64 // Uint: byte size
	N      uint64 // BytesN: bytes, Bitvector: bits, Vector: elements
	Limit  uint64 // Bytes, List: elements; Bitlist: bits
	Elem   *Desc
	Fields []Field
	T      reflect.Type // Go type, possibly pointer(s) to the representing type
	Custom *Custom      // set when a custom rule replaces the default one (C15)

	Fixed              bool
	FixedLen, Min, Max uint64
	FuzzMin            uint64
	Overflow           bool // some maximum does not fit 62 bits
	ZeroElem           bool // contains a list with zero-size elements
	Depth              int  // nesting depth
	HasPtr             bool
	VarCount           int // number of variable-size nodes
}

// Custom replaces a type's codec by an arbitrary one; value content is opaque bytes V.B.
type Custom struct {
	Name   string
	Fixed  bool
	Len    uint64 // when fixed
	MaxLen uint64
	Enc    func(v *Val) []byte
	Dec    func(b []byte) (*Val, error)
	Root   func(v *Val) [32]byte
	ToGo   func(v *Val, rv reflect.Value)
	FromGo func(rv reflect.Value) (*Val, error)
	Gen    func(rnd func() uint64) *Val
}

type limited interface{ Limit() uint64 }
type bitSized interface{ BitLen() uint64 }

var bitSizedType = reflect.TypeOf((*bitSized)(nil)).Elem()

// CustomRule lets a caller claim a Go type.
type CustomRule func(t reflect.Type) (*Custom, bool)

// FromType derives the descriptor of a Go type following the rules of the README.
func FromType(t reflect.Type) (*Desc, error) { return FromTypeCustom(t, nil) }

func FromTypeCustom(t reflect.Type, rule CustomRule) (*Desc, error) {
	d, err := fromType(t, rule)
	if err != nil {
		return nil, err
	}
	return d, nil
}

const hugeLen = uint64(1) << 62

func (d *Desc) mul(a, b uint64) uint64 {
	hi, lo := bits.Mul64(a, b)
	if hi != 0 || lo >= hugeLen {
		d.Overflow = true
		return hugeLen
	}
	return lo
}

func (d *Desc) add(a, b uint64) uint64 {
	s, c := bits.Add64(a, b, 0)
	if c != 0 || s >= hugeLen {
		d.Overflow = true
		return hugeLen
	}
	return s
}

// HasFlag looks for a flag in the ssz tag.
func HasFlag(tag reflect.StructTag, flag string) bool {
	v, ok := tag.Lookup("ssz")
	if !ok {
		return false
	}
	for _, f := range strings.Split(v, ",") {
		if f == flag {
			return true
		}
	}
	return false
}

func fromType(t reflect.Type, rule CustomRule) (*Desc, error) {
	if rule != nil {
		if c, ok := rule(t); ok {
			d := &Desc{Kind: Container, T: t, Custom: c, Fixed: c.Fixed, FuzzMin: c.MaxLen}
			if c.Fixed {
				d.FixedLen, d.Min, d.Max = c.Len, c.Len, c.Len
			} else {
				d.Max = c.MaxLen
				d.VarCount = 1
			}
			return d, nil
		}
	}
	switch t.Kind() {
	case reflect.Bool:
		return &Desc{Kind: Bool, Size: 1, T: t, Fixed: true, FixedLen: 1, Min: 1, Max: 1, FuzzMin: 1}, nil
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n := uint64(t.Size())
		return &Desc{Kind: Uint, Size: n, T: t, Fixed: true, FixedLen: n, Min: n, Max: n, FuzzMin: n}, nil
	case reflect.Ptr:
		in, err := fromType(t.Elem(), rule)
		if err != nil {
			return nil, err
		}
		d := *in
		d.T = t
		d.HasPtr = true
		return &d, nil
	case reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			n := uint64(t.Len())
			d := &Desc{Kind: BytesN, N: n, T: t, Fixed: true, FixedLen: n, Min: n, Max: n, FuzzMin: n}
			if reflect.PtrTo(t).Implements(bitSizedType) {
				bs := reflect.New(t).Interface().(bitSized)
				d.Kind = Bitvector
				d.N = bs.BitLen()
				if ceilDiv(d.N, 8) != n {
					return nil, fmt.Errorf("bitvector of %d bits in %d bytes", d.N, n)
				}
			}
			return d, nil
		}
		e, err := fromType(t.Elem(), ruleFor(t.Elem(), rule))
		if err != nil {
			return nil, err
		}
		n := uint64(t.Len())
		d := &Desc{Kind: Vector, N: n, Elem: e, T: t, Fixed: e.Fixed, Overflow: e.Overflow, ZeroElem: e.ZeroElem,
			Depth: e.Depth + 1, HasPtr: e.HasPtr, VarCount: e.VarCount}
		if e.Fixed {
			d.FixedLen = d.mul(n, e.FixedLen)
			d.Min, d.Max = d.FixedLen, d.FixedLen
		} else {
			d.FixedLen = d.mul(n, 4)
			d.Min = d.mul(n, d.add(4, e.Min))
			d.Max = d.mul(n, d.add(4, e.Max))
			d.VarCount++
		}
		d.FuzzMin = d.mul(n, e.FuzzMin)
		return d, nil
	case reflect.Slice:
		l, ok := reflect.New(t).Interface().(limited)
		if !ok {
			return nil, fmt.Errorf("slice type %v without limit", t)
		}
		lim := l.Limit()
		if t.Elem().Kind() == reflect.Uint8 {
			d := &Desc{Limit: lim, T: t, VarCount: 1}
			if _, ok := reflect.New(t).Interface().(bitSized); ok {
				d.Kind = Bitlist
				d.Min, d.Max, d.FuzzMin = 1, lim/8+1, 9
			} else {
				d.Kind = Bytes
				d.Overflow = lim >= hugeLen
				d.Min, d.Max, d.FuzzMin = 0, lim, 8
			}
			return d, nil
		}
		e, err := fromType(t.Elem(), ruleFor(t.Elem(), rule))
		if err != nil {
			return nil, err
		}
		d := &Desc{Kind: List, Limit: lim, Elem: e, T: t, Overflow: e.Overflow,
			ZeroElem: e.ZeroElem, Depth: e.Depth + 1, HasPtr: e.HasPtr, VarCount: e.VarCount + 1, FuzzMin: 8}
		if e.Fixed {
			if e.FixedLen == 0 {
				d.ZeroElem = true
			}
			d.Max = d.mul(lim, e.FixedLen)
		} else {
			if e.FuzzMin == 0 {
				d.ZeroElem = true // e.g. lists of [0]T with T of variable size
			}
			d.Max = d.mul(lim, d.add(4, e.Max))
		}
		return d, nil
	case reflect.Struct:
		d := &Desc{Kind: Container, T: t, Fixed: true}
		for i := 0; i < t.NumField(); i++ {
			fs, err := structField(t.Field(i), rule)
			if err != nil {
				return nil, err
			}
			for _, f := range fs {
				f.Path = append([]int{i}, f.Path...)
				d.Fields = append(d.Fields, f)
			}
		}
		for _, f := range d.Fields {
			e := f.D
			if e.Fixed {
				d.FixedLen = d.add(d.FixedLen, e.FixedLen)
				d.Min = d.add(d.Min, e.Min)
				d.Max = d.add(d.Max, e.Max)
			} else {
				d.Fixed = false
				d.FixedLen = d.add(d.FixedLen, 4)
				d.Min = d.add(d.Min, 4+e.Min)
				d.Max = d.add(d.Max, d.add(4, e.Max))
			}
			d.FuzzMin = d.add(d.FuzzMin, e.FuzzMin)
			d.Overflow = d.Overflow || e.Overflow
			d.ZeroElem = d.ZeroElem || e.ZeroElem
			d.HasPtr = d.HasPtr || e.HasPtr
			d.VarCount += e.VarCount
			if e.Depth+1 > d.Depth {
				d.Depth = e.Depth + 1
			}
		}
		if !d.Fixed {
			d.VarCount++
		}
		return d, nil
	}
	return nil, fmt.Errorf("unsupported kind %v", t.Kind())
}

// Series of basic kinds are handled as a block by default: the factory is not consulted for their elements.
func ruleFor(elem reflect.Type, rule CustomRule) CustomRule {
	switch elem.Kind() {
	case reflect.Bool, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return nil
	}
	return rule
}

// The fields a struct field contributes: none (omitted), the fields of the struct (squashed or embedded), or itself.
func structField(sf reflect.StructField, rule CustomRule) ([]Field, error) {
	if HasFlag(sf.Tag, "omit") {
		return nil, nil
	}
	squash := HasFlag(sf.Tag, "squash")
	sub, err := fromType(sf.Type, rule)
	if err != nil {
		return nil, err
	}
	if squash || sf.Anonymous {
		if sub.Kind == Container && sf.Type.Kind() == reflect.Struct && sub.Custom == nil {
			out := make([]Field, len(sub.Fields))
			copy(out, sub.Fields)
			for i := range out {
				out[i].Depth++
			}
			return out, nil
		}
		if squash {
			return nil, fmt.Errorf("field %s of kind %v cannot be squashed", sf.Name, sf.Type.Kind())
		}
	}
	return []Field{{Name: sf.Name, D: sub}}, nil
}

// Basic reports whether d is a bool or an unsigned integer that is not behind a pointer.
func (d *Desc) Basic() bool {
	return (d.Kind == Bool || d.Kind == Uint) && d.Custom == nil && d.T.Kind() != reflect.Ptr
}

// BasicSSZ: the SSZ type is basic (pointers are transparent in SSZ).
func (d *Desc) BasicSSZ() bool { return (d.Kind == Bool || d.Kind == Uint) && d.Custom == nil }

// PackedElems: a series whose elements are kept packed in V.B.
func (d *Desc) PackedElems() bool {
	return (d.Kind == Vector || d.Kind == List) && d.Elem.Basic()
}

// String renders the SSZ type structure.
func (d *Desc) String() string {
	p := ""
	if d.T != nil {
		for t := d.T; t.Kind() == reflect.Ptr; t = t.Elem() {
			p += "*"
		}
	}
	if d.Custom != nil {
		return p + "custom:" + d.Custom.Name
	}
	switch d.Kind {
	case Bool:
		return p + "bool"
	case Uint:
		return fmt.Sprintf("%su%d", p, d.Size*8)
	case BytesN:
		return fmt.Sprintf("%sbytes[%d]", p, d.N)
	case Bytes:
		return fmt.Sprintf("%sbytes<%d>", p, d.Limit)
	case Bitvector:
		return fmt.Sprintf("%sbits[%d]", p, d.N)
	case Bitlist:
		return fmt.Sprintf("%sbits<%d>", p, d.Limit)
	case Vector:
		return fmt.Sprintf("%svec[%v,%d]", p, d.Elem, d.N)
	case List:
		return fmt.Sprintf("%slist<%v,%d>", p, d.Elem, d.Limit)
	}
	var sb strings.Builder
	sb.WriteString(p + "{")
	for i, f := range d.Fields {
		if i > 0 {
			sb.WriteString(" ")
		}
		sb.WriteString(f.Name + ":" + f.D.String())
	}
	sb.WriteString("}")
	return sb.String()
}
