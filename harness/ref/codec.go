package ref

import (
	"encoding/binary"
	"errors"
	"fmt"
)

func packBits(bits []byte, withDelimiter bool) []byte {
	n := len(bits)
	total := n
	if withDelimiter {
		total++
	}
	out := make([]byte, (total+7)/8)
	for i, b := range bits {
		if b != 0 {
			out[i/8] |= 1 << uint(i%8)
		}
	}
	if withDelimiter {
		out[n/8] |= 1 << uint(n%8)
	}
	return out
}

func le(u uint64, size uint64) []byte {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], u)
	return b[:size]
}

// Encode is the SSZ encoding of v.
func Encode(d *Desc, v *Val) []byte {
	if d.Custom != nil {
		return d.Custom.Enc(v)
	}
	switch d.Kind {
	case Bool, Uint:
		return append([]byte(nil), le(v.U, d.Size)...)
	case BytesN, Bytes:
		return append([]byte(nil), v.B...)
	case Bitvector:
		return packBits(v.B, false)
	case Bitlist:
		return packBits(v.B, true)
	}
	if d.PackedElems() {
		return append([]byte(nil), v.B...)
	}
	parts := make([][]byte, len(v.E))
	fixed := make([]bool, len(v.E))
	for i, e := range v.E {
		ed := d.Child(i)
		parts[i] = Encode(ed, e)
		fixed[i] = ed.Fixed
	}
	return Assemble(parts, fixed)
}

// Child is the descriptor of element or field i.
func (d *Desc) Child(i int) *Desc {
	if d.Kind == Container {
		return d.Fields[i].D
	}
	return d.Elem
}

// Assemble lays out the parts of a composite.
func Assemble(parts [][]byte, fixed []bool) []byte {
	head := 0
	for i := range parts {
		if fixed[i] {
			head += len(parts[i])
		} else {
			head += 4
		}
	}
	var out, tail []byte
	for i := range parts {
		if fixed[i] {
			out = append(out, parts[i]...)
		} else {
			off := head + len(tail)
			out = append(out, byte(off), byte(off>>8), byte(off>>16), byte(off>>24))
			tail = append(tail, parts[i]...)
		}
	}
	return append(out, tail...)
}

var errLen = errors.New("wrong length")

// Decode accepts exactly the valid encodings: b must be the complete encoding of one value.
func Decode(d *Desc, b []byte) (*Val, error) {
	n := uint64(len(b))
	if d.Custom != nil {
		return d.Custom.Dec(b)
	}
	switch d.Kind {
	case Bool:
		if n != 1 {
			return nil, errLen
		}
		if b[0] > 1 {
			return nil, errors.New("bad bool")
		}
		return &Val{U: uint64(b[0])}, nil
	case Uint:
		if n != d.Size {
			return nil, errLen
		}
		var w [8]byte
		copy(w[:], b)
		return &Val{U: binary.LittleEndian.Uint64(w[:])}, nil
	case BytesN:
		if n != d.N {
			return nil, errLen
		}
		return &Val{B: append([]byte(nil), b...)}, nil
	case Bytes:
		if n > d.Limit {
			return nil, errors.New("over limit")
		}
		return &Val{B: append([]byte(nil), b...)}, nil
	case Bitvector:
		if n != (d.N+7)/8 {
			return nil, errLen
		}
		bits := unpack(b, n*8)
		for _, x := range bits[d.N:] {
			if x != 0 {
				return nil, errors.New("padding bit set")
			}
		}
		return &Val{B: bits[:d.N]}, nil
	case Bitlist:
		if n == 0 {
			return nil, errors.New("no delimiter")
		}
		last := b[n-1]
		if last == 0 {
			return nil, errors.New("no delimiter in last byte")
		}
		top := uint64(7)
		for last>>top == 0 {
			top--
		}
		ln := (n-1)*8 + top
		if ln > d.Limit {
			return nil, errors.New("over limit")
		}
		return &Val{B: unpack(b, ln)}, nil
	}
	if d.PackedElems() {
		if n%d.Elem.Size != 0 {
			return nil, errLen
		}
		cnt := n / d.Elem.Size
		if d.Kind == Vector && cnt != d.N {
			return nil, errLen
		}
		if d.Kind == List && cnt > d.Limit {
			return nil, errors.New("over limit")
		}
		if d.Elem.Kind == Bool {
			for _, x := range b {
				if x > 1 {
					return nil, errors.New("bad bool in series")
				}
			}
		}
		return &Val{B: append([]byte(nil), b...)}, nil
	}
	var kids []*Desc
	switch d.Kind {
	case Container:
		for _, f := range d.Fields {
			kids = append(kids, f.D)
		}
	case Vector:
		if d.N*4 > n && !d.Elem.Fixed {
			return nil, errLen
		}
		if d.Elem.Fixed && d.N*d.Elem.FixedLen != n {
			return nil, errLen
		}
		kids = repeat(d.Elem, d.N)
	case List:
		if n == 0 {
			return &Val{}, nil
		}
		var cnt uint64
		if d.Elem.Fixed {
			if d.Elem.FixedLen == 0 || n%d.Elem.FixedLen != 0 {
				return nil, errLen
			}
			cnt = n / d.Elem.FixedLen
		} else {
			if n < 4 {
				return nil, errLen
			}
			first := uint64(binary.LittleEndian.Uint32(b))
			if first == 0 || first%4 != 0 || first > n {
				return nil, errors.New("bad first offset")
			}
			cnt = first / 4
		}
		if cnt > d.Limit {
			return nil, errors.New("over limit")
		}
		kids = repeat(d.Elem, cnt)
	}
	return decodeParts(kids, b)
}

func repeat(d *Desc, n uint64) []*Desc {
	out := make([]*Desc, n)
	for i := range out {
		out[i] = d
	}
	return out
}

func unpack(b []byte, n uint64) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = (b[i/8] >> uint(i%8)) & 1
	}
	return out
}

// The layout is: fixed parts and offsets, then the variable parts back to back, up to the end.
func decodeParts(kids []*Desc, b []byte) (*Val, error) {
	n := uint64(len(b))
	pos := uint64(0)
	chunks := make([][]byte, len(kids))
	var offs []uint64
	var vars []int
	for i, k := range kids {
		size := uint64(4)
		if k.Fixed {
			size = k.FixedLen
		}
		if n-pos < size {
			return nil, errLen
		}
		if k.Fixed {
			chunks[i] = b[pos : pos+size]
		} else {
			offs = append(offs, uint64(binary.LittleEndian.Uint32(b[pos:])))
			vars = append(vars, i)
		}
		pos += size
	}
	if len(offs) == 0 {
		if pos != n {
			return nil, errLen
		}
	} else {
		if offs[0] != pos {
			return nil, fmt.Errorf("first offset %d, fixed part ends at %d", offs[0], pos)
		}
		for j, o := range offs {
			end := n
			if j+1 < len(offs) {
				end = offs[j+1]
			}
			if end < o || end > n {
				return nil, errors.New("offsets out of order or range")
			}
			chunks[vars[j]] = b[o:end]
		}
	}
	v := &Val{}
	if len(kids) > 0 {
		v.E = make([]*Val, len(kids))
	}
	for i, k := range kids {
		e, err := Decode(k, chunks[i])
		if err != nil {
			return nil, err
		}
		v.E[i] = e
	}
	return v, nil
}

// Valid checks that v is a valid value of d (limits, shapes).
func Valid(d *Desc, v *Val) error {
	if d.Custom != nil {
		return nil
	}
	switch d.Kind {
	case Bool:
		if v.U > 1 {
			return errors.New("bad bool")
		}
		return nil
	case Uint:
		if d.Size < 8 && v.U>>(8*d.Size) != 0 {
			return errors.New("uint range")
		}
		return nil
	case BytesN, Bitvector:
		if uint64(len(v.B)) != d.N {
			return errLen
		}
		return nil
	case Bytes, Bitlist:
		if uint64(len(v.B)) > d.Limit {
			return fmt.Errorf("%v over limit: %d > %d", d.Kind, len(v.B), d.Limit)
		}
		return nil
	}
	n := d.Len(v)
	if d.Kind == List && n > d.Limit {
		return fmt.Errorf("list over limit: %d > %d", n, d.Limit)
	}
	if d.Kind == Vector && n != d.N {
		return errLen
	}
	if d.PackedElems() {
		if d.Elem.Kind == Bool {
			for _, x := range v.B {
				if x > 1 {
					return errors.New("bad bool in series")
				}
			}
		}
		return nil
	}
	for i, e := range v.E {
		if err := Valid(d.Child(i), e); err != nil {
			return err
		}
	}
	return nil
}
