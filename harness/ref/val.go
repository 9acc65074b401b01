package ref

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"
)

// Val is a plain value of an SSZ type.
//   - Bool, Uint:            U
//   - BytesN, Bytes:         B (the bytes)
//   - Bitvector, Bitlist:    B (one byte, 0 or 1, per bit)
//   - series of basics:      B (elements packed little-endian)
//   - other series, struct:  E
//   - Custom:                B (opaque)
//   - Nil: pointer that is nil (only for Pretty)
type Val struct {
	U   uint64
	B   []byte
	E   []*Val
	Nil bool
}

func Equal(a, b *Val) bool {
	if a.U != b.U || a.Nil != b.Nil || len(a.E) != len(b.E) || !bytes.Equal(a.B, b.B) {
		return false
	}
	for i := range a.E {
		if !Equal(a.E[i], b.E[i]) {
			return false
		}
	}
	return true
}

// Diff describes the first difference.
func Diff(d *Desc, a, b *Val) string {
	path := "val"
	for {
		if a.U != b.U {
			return fmt.Sprintf("%s: %#x vs %#x", path, a.U, b.U)
		}
		if a.Nil != b.Nil {
			return fmt.Sprintf("%s: nil %v vs %v", path, a.Nil, b.Nil)
		}
		if !bytes.Equal(a.B, b.B) {
			i := 0
			for i < len(a.B) && i < len(b.B) && a.B[i] == b.B[i] {
				i++
			}
			return fmt.Sprintf("%s: bytes differ at %d (lengths %d vs %d): %s vs %s", path, i, len(a.B), len(b.B), Short(a.B), Short(b.B))
		}
		if len(a.E) != len(b.E) {
			return fmt.Sprintf("%s: %d vs %d elements", path, len(a.E), len(b.E))
		}
		next := -1
		for i := range a.E {
			if !Equal(a.E[i], b.E[i]) {
				next = i
				break
			}
		}
		if next < 0 {
			return "equal"
		}
		path = fmt.Sprintf("%s[%d]", path, next)
		a, b = a.E[next], b.E[next]
	}
}

func Short(b []byte) string {
	if len(b) <= 96 {
		return hex.EncodeToString(b)
	}
	return fmt.Sprintf("%s...(%d bytes)", hex.EncodeToString(b[:96]), len(b))
}

// Len is the element count of a list-like value.
func (d *Desc) Len(v *Val) uint64 {
	if d.PackedElems() {
		return uint64(len(v.B)) / d.Elem.Size
	}
	switch d.Kind {
	case Vector, List, Container:
		return uint64(len(v.E))
	}
	return uint64(len(v.B))
}

// Zero is the value of a zeroed Go object (with a delimited empty bitlist and allocated pointers).
func Zero(d *Desc) *Val {
	v := &Val{}
	if d.Custom != nil {
		return v
	}
	switch d.Kind {
	case BytesN, Bitvector:
		v.B = make([]byte, d.N)
	case Vector:
		if d.PackedElems() {
			v.B = make([]byte, d.N*d.Elem.Size)
		} else {
			for i := uint64(0); i < d.N; i++ {
				v.E = append(v.E, Zero(d.Elem))
			}
		}
	case Container:
		for _, f := range d.Fields {
			v.E = append(v.E, Zero(f.D))
		}
	}
	return v
}

// Render prints a value for humans, shortened.
func Render(d *Desc, v *Val) string {
	var sb strings.Builder
	render(&sb, d, v, 400)
	return sb.String()
}

func render(sb *strings.Builder, d *Desc, v *Val, max int) {
	if sb.Len() > max {
		sb.WriteString("..")
		return
	}
	if v.Nil {
		sb.WriteString("nil")
		return
	}
	if d.Custom != nil {
		sb.WriteString("custom:" + Short(v.B))
		return
	}
	switch d.Kind {
	case Bool, Uint:
		fmt.Fprintf(sb, "%#x", v.U)
	case BytesN, Bytes:
		sb.WriteString("0x" + Short(v.B))
	case Bitvector, Bitlist:
		sb.WriteString("b")
		for i, b := range v.B {
			if i > 128 {
				fmt.Fprintf(sb, "...(%d bits)", len(v.B))
				break
			}
			sb.WriteByte('0' + b)
		}
	default:
		if d.PackedElems() {
			fmt.Fprintf(sb, "packed(%d):%s", d.Len(v), Short(v.B))
			return
		}
		sb.WriteString("[")
		for i, e := range v.E {
			if i > 0 {
				sb.WriteString(" ")
			}
			if sb.Len() > max {
				fmt.Fprintf(sb, "...(%d elements)", len(v.E))
				break
			}
			if d.Kind == Container {
				sb.WriteString(d.Fields[i].Name + ":")
				render(sb, d.Fields[i].D, e, max)
			} else {
				render(sb, d.Elem, e, max)
			}
		}
		sb.WriteString("]")
	}
}
