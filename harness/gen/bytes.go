package gen

import (
	"encoding/binary"
	"fmt"

	"pgregory.net/rapid"

	"zverif/bridge"
	"zverif/ref"
)

// faulter encodes a value with one structural fault at one node, with the surrounding structure consistent.
type faulter struct {
	t      *rapid.T
	target int
	cur    int
	what   string
}

// Faulty encodes v with a single structural fault, and tells which.
func Faulty(t *rapid.T, d *ref.Desc, v *ref.Val) ([]byte, string) {
	count := &faulter{target: -1}
	count.enc(d, v)
	f := &faulter{t: t, target: Index(t, count.cur, "node")}
	b := f.enc(d, v)
	return b, f.what
}

func (f *faulter) pick(label string, n int) int { return Index(f.t, n, label) }

func (f *faulter) note(format string, args ...any) { f.what = fmt.Sprintf(format, args...) }

func (f *faulter) enc(d *ref.Desc, v *ref.Val) []byte {
	hit := f.cur == f.target
	f.cur++
	if d.Custom != nil || d.PackedElems() || d.Kind < ref.Vector {
		b := ref.Encode(d, v)
		if hit {
			return f.leaf(d, v, b)
		}
		return b
	}
	n := len(v.E)
	parts := make([][]byte, n)
	fixed := make([]bool, n)
	for i, e := range v.E {
		if n > 64 && i >= 32 { // keep big series cheap
			parts[i] = ref.Encode(d.Child(i), e)
		} else {
			parts[i] = f.enc(d.Child(i), e)
		}
		fixed[i] = d.Child(i).Fixed
	}
	if !hit {
		return ref.Assemble(parts, fixed)
	}
	return f.composite(d, v, parts, fixed)
}

// over is a number above limit: just above, or one that only looks small when it is cut to 8 or 16 bits.
func (f *faulter) over(limit, max uint64) uint64 {
	n := limit + 1 + uint64(f.pick("over", 10))
	switch f.pick("far over", 6) {
	case 0:
		if x := (limit | 0xff) + 1 + uint64(f.pick("low", int(min(limit+1, 256)))); x <= max {
			n = x
		}
	case 1:
		if x := 1<<16 + uint64(f.pick("low", int(min(limit+1, 300)))); x > limit && x <= max {
			n = x
		}
	}
	return n
}

func (f *faulter) leaf(d *ref.Desc, v *ref.Val, b []byte) []byte {
	k := f.pick("fault", 6)
	if k == 4 {
		f.note("%v with a byte cut off", d.Kind)
		if len(b) > 0 {
			return b[:len(b)-1]
		}
		return b
	}
	if k == 5 {
		f.note("%v with bytes appended", d.Kind)
		return append(b, rapid.SliceOfN(smallByte, 1, 5).Draw(f.t, "extra")...)
	}
	switch {
	case d.Kind == ref.Bool:
		f.note("bad bool")
		return []byte{rapid.SampledFrom([]byte{2, 3, 4, 0x10, 0x80, 0x81, 0xfe, 0xff}).Draw(f.t, "bool")}
	case d.PackedElems() && d.Elem.Kind == ref.Bool && len(b) > 0 && k < 2:
		f.note("bad bool in series")
		b[f.pick("at", len(b))] = rapid.SampledFrom([]byte{2, 3, 0x80, 0xff}).Draw(f.t, "bool")
		return b
	case d.Kind == ref.Bytes || d.Kind == ref.List:
		size := uint64(1)
		if d.Kind == ref.List {
			size = d.Elem.Size
		}
		if d.Limit < 1<<15 {
			f.note("%v over limit", d.Kind)
			n := f.over(d.Limit, 1<<17/size) * size
			return append(b, make([]byte, n-uint64(len(b)))...)
		}
		f.note("%v with bytes appended", d.Kind)
		return append(b, make([]byte, 1+f.pick("n", 9))...)
	case d.Kind == ref.Bitlist:
		switch k {
		case 0:
			f.note("bitlist without bytes")
			return nil
		case 1:
			f.note("bitlist without delimiter in the last byte")
			b[len(b)-1] = 0
			return b
		case 2:
			f.note("bitlist with zero bytes behind")
			return append(b, make([]byte, 1+f.pick("n", 2))...)
		}
		if d.Limit < 1<<15 {
			f.note("bitlist over limit")
			n := f.over(d.Limit, 1<<19)
			bits := append(append([]byte(nil), v.B...), make([]byte, n-uint64(len(v.B)))...)
			return ref.Encode(d, &ref.Val{B: bits})
		}
		f.note("bitlist with bits behind")
		return append(b, 1)
	case d.Kind == ref.Bitvector && d.N%8 != 0:
		f.note("bitvector with padding bit")
		b[len(b)-1] |= 1 << (d.N%8 + uint64(f.pick("bit", int(8-d.N%8))))
		return b
	}
	f.note("%v content changed", d.Kind)
	if len(b) > 0 {
		b[f.pick("at", len(b))] ^= byte(1 << f.pick("bit", 8))
	}
	return b
}

func (f *faulter) composite(d *ref.Desc, v *ref.Val, parts [][]byte, fixed []bool) []byte {
	if d.Kind == ref.List && f.pick("listfault", 3) == 0 && d.Limit < 1<<12 {
		// more elements than the limit
		e, ed := []byte(nil), d.Elem
		if len(parts) > 0 {
			e = parts[0]
		} else {
			e = ref.Encode(ed, ref.Zero(ed))
		}
		n := f.over(d.Limit, 1<<17/uint64(len(e)+4))
		if uint64(len(e)+4)*n < 1<<17 {
			for uint64(len(parts)) < n {
				parts = append(parts, e)
				fixed = append(fixed, ed.Fixed)
			}
			f.note("list over limit (%d)", n)
			return ref.Assemble(parts, fixed)
		}
	}
	if d.Kind == ref.Vector && f.pick("vecfault", 4) == 0 {
		if len(parts) > 0 && f.pick("less", 2) == 0 {
			f.note("vector with one element less")
			return ref.Assemble(parts[1:], fixed[1:])
		}
		if len(parts) > 0 {
			f.note("vector with one element more")
			return ref.Assemble(append(parts, parts[0]), append(fixed, fixed[0]))
		}
	}
	out := ref.Assemble(parts, fixed)
	var pos []int // where the offsets are
	head := 0
	for i := range parts {
		if fixed[i] {
			head += len(parts[i])
		} else {
			pos = append(pos, head)
			head += 4
		}
	}
	if len(pos) == 0 {
		switch f.pick("fault", 3) {
		case 0:
			f.note("%v with a byte cut off", d.Kind)
			if len(out) > 0 {
				return out[:len(out)-1]
			}
			return out
		case 1:
			f.note("%v with bytes appended", d.Kind)
			return append(out, rapid.SliceOfN(smallByte, 1, 9).Draw(f.t, "extra")...)
		}
		f.note("%v with part removed", d.Kind)
		if len(parts) > 0 {
			i := f.pick("part", len(parts))
			return ref.Assemble(append(append([][]byte(nil), parts[:i]...), parts[i+1:]...), append(append([]bool(nil), fixed[:i]...), fixed[i+1:]...))
		}
		return append(out, 0)
	}
	off := func(i int) uint32 { return binary.LittleEndian.Uint32(out[pos[i]:]) }
	put := func(i int, x uint32) { binary.LittleEndian.PutUint32(out[pos[i]:], x) }
	i := f.pick("offset", len(pos))
	switch f.pick("fault", 13) {
	case 0, 1:
		delta := rapid.SampledFrom([]int{1, -1, 2, 4, -4, 8, -8, 3, 256, 1 << 16, 1 << 24, -1 << 24}).Draw(f.t, "delta")
		f.note("%v offset %d changed by %d", d.Kind, i, delta)
		put(i, off(i)+uint32(delta))
	case 2:
		x := rapid.SampledFrom([]uint32{0, 1, 4, uint32(head), uint32(head + 1), uint32(len(out)), uint32(len(out) + 1), uint32(len(out) - 1),
			0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffc}).Draw(f.t, "offval")
		f.note("%v offset %d set to %d", d.Kind, i, x)
		put(i, x)
	case 3:
		j := f.pick("other", len(pos))
		f.note("%v offsets %d and %d swapped", d.Kind, i, j)
		a, b := off(i), off(j)
		put(i, b)
		put(j, a)
	case 4:
		j := f.pick("other", len(pos))
		f.note("%v offset %d copied to %d", d.Kind, i, j)
		put(j, off(i))
	case 5:
		g := 1 + f.pick("gap", 8)
		f.note("%v with a gap of %d before the variable parts", d.Kind, g)
		for k := range pos {
			put(k, off(k)+uint32(g))
		}
		junk := make([]byte, g)
		out = append(out[:head:head], append(junk, out[head:]...)...)
	case 6:
		g := 1 + f.pick("gap", 8)
		f.note("%v with a gap of %d before variable part %d", d.Kind, g, i)
		at := int(off(i))
		for k := i; k < len(pos); k++ {
			put(k, off(k)+uint32(g))
		}
		out = append(out[:at:at], append(make([]byte, g), out[at:]...)...)
	case 7:
		f.note("%v with all offsets shifted", d.Kind)
		delta := rapid.SampledFrom([]int{1, -1, 4, -4, -head}).Draw(f.t, "delta")
		for k := range pos {
			put(k, off(k)+uint32(delta))
		}
	case 8:
		if len(pos) > 1 {
			// two variable parts stored in the other order, with offsets that point right
			a := i % (len(pos) - 1)
			end := len(out)
			if a+2 < len(pos) {
				end = int(off(a + 2))
			}
			x, y := int(off(a)), int(off(a+1))
			f.note("%v variable parts %d and %d reordered", d.Kind, a, a+1)
			s := append(append([]byte(nil), out[y:end]...), out[x:y]...)
			copy(out[x:], s)
			put(a, uint32(x+end-y))
			put(a+1, uint32(x))
		}
	case 9:
		f.note("%v with bytes appended", d.Kind)
		out = append(out, rapid.SliceOfN(smallByte, 1, 9).Draw(f.t, "extra")...)
	case 10:
		n := 1 + f.pick("cut", len(out))
		f.note("%v cut by %d", d.Kind, n)
		out = out[:len(out)-n]
	case 11:
		f.note("%v with an extra offset word", d.Kind)
		for k := range pos {
			put(k, off(k)+4)
		}
		w := make([]byte, 4)
		binary.LittleEndian.PutUint32(w, uint32(len(out)+4))
		if f.pick("zero", 2) == 0 {
			w = make([]byte, 4)
		}
		out = append(out[:head:head], append(w, out[head:]...)...)
	case 12:
		if len(pos) > 1 {
			// two parts overlap
			j := len(pos) - 1
			f.note("%v last part overlapping the previous", d.Kind)
			if off(j) > off(j-1) {
				put(j, off(j)-1-uint32(f.pick("by", int(off(j)-off(j-1)))))
			} else {
				put(j, off(j)-1)
			}
		}
	}
	if f.what == "" {
		f.note("none")
	}
	return out
}

var smallByte = rapid.SampledFrom([]byte{0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 0x7f, 0x80, 0xff})

// Mutate changes a byte string in a few places.
func Mutate(t *rapid.T, b []byte) []byte {
	b = append([]byte(nil), b...)
	n := rapid.IntRange(1, 3).Draw(t, "mutations")
	for ; n > 0; n-- {
		switch rapid.IntRange(0, 7).Draw(t, "mut") {
		case 0:
			if len(b) > 0 {
				b[at(t, len(b))] ^= byte(1 << rapid.IntRange(0, 7).Draw(t, "bit"))
			}
		case 1:
			if len(b) > 0 {
				b[at(t, len(b))] = smallByte.Draw(t, "b")
			}
		case 2:
			if len(b) > 0 {
				b = b[:len(b)-1-rapid.IntRange(0, min(len(b)-1, 8)).Draw(t, "cut")]
			}
		case 3:
			b = append(b, rapid.SliceOfN(smallByte, 1, 8).Draw(t, "tail")...)
		case 4:
			if len(b) >= 4 {
				p := at(t, len(b)-3)
				if rapid.Bool().Draw(t, "aligned") {
					p &^= 3
				}
				x := binary.LittleEndian.Uint32(b[p:])
				x += uint32(rapid.SampledFrom([]int{1, -1, 4, -4, 8, 2, 100, -100}).Draw(t, "delta"))
				binary.LittleEndian.PutUint32(b[p:], x)
			}
		case 5:
			p := at(t, len(b)+1)
			b = append(b[:p:p], append(rapid.SliceOfN(smallByte, 1, 5).Draw(t, "ins"), b[p:]...)...)
		case 6:
			if len(b) > 0 {
				p := at(t, len(b))
				q := p + 1 + rapid.IntRange(0, min(len(b)-p-1, 7)).Draw(t, "del")
				b = append(b[:p:p], b[q:]...)
			}
		case 7:
			if len(b) >= 8 {
				p := at(t, len(b)-3) &^ 3
				q := at(t, len(b)-3) &^ 3
				copy(b[p:p+4], append([]byte(nil), b[q:q+4]...))
			}
		}
	}
	return b
}

func at(t *rapid.T, n int) int {
	if n > 40 && rapid.IntRange(0, 2).Draw(t, "front") == 0 {
		n = 40
	}
	return rapid.IntRange(0, n-1).Draw(t, "at")
}

// Bytes draws a byte string that is interesting for the type, and how it was made.
func Bytes(t *rapid.T, d *ref.Desc) ([]byte, string) {
	switch k := Index(t, 12, "bytes"); {
	case k < 2:
		return ref.Encode(d, Value(t, d, BigBudget(t))), "valid"
	case k < 7:
		b, what := Faulty(t, d, Value(t, d, Budget(t)/2))
		return b, "fault: " + trimDigits(what)
	case k < 9:
		return Mutate(t, ref.Encode(d, Value(t, d, Budget(t)/2))), "mutated"
	case k == 9:
		b, _ := Faulty(t, d, Value(t, d, Budget(t)/2))
		return Mutate(t, b), "fault+mutated"
	case k == 10:
		n := int(min(d.Min, 3000)) + rapid.IntRange(0, 24).Draw(t, "n") - 3
		if n < 0 {
			n = 0
		}
		if n <= 64 {
			return rapid.SliceOfN(smallByte, n, n).Draw(t, "raw"), "small alphabet"
		}
		b := make([]byte, n)
		(&bridge.Rng{S: Seed(t, "seed")}).Fill(b)
		return b, "random"
	}
	b := make([]byte, rapid.IntRange(0, 600).Draw(t, "n"))
	(&bridge.Rng{S: Seed(t, "seed")}).Fill(b)
	return b, "random"
}

func trimDigits(s string) string {
	out := []byte{}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			out = append(out, s[i])
		}
	}
	return string(out)
}

// Many is the encoding of n times e, as a list of d: also of more elements than d allows.
func Many(d *ref.Desc, e *ref.Val, n uint64) []byte {
	switch {
	case d.Kind == ref.Bytes:
		return make([]byte, n)
	case d.Kind == ref.Bitlist:
		return ref.Encode(d, &ref.Val{B: make([]byte, n)})
	case d.PackedElems():
		return make([]byte, n*d.Elem.Size)
	}
	v := &ref.Val{E: make([]*ref.Val, n)}
	for i := range v.E {
		v.E[i] = e
	}
	return ref.Encode(d, v)
}

// Counts are numbers of elements at the limit of d, above it, and far above it but small when cut to 8, 16 or 17 bits.
func Counts(d *ref.Desc, most uint64) (ns []uint64) {
	l := d.Limit
	for _, n := range []uint64{l - 1, l, l + 1, l + 2, l + 7, l + 8, l + 9, 2*l - 1, 2 * l, 2*l + 1, l + 255, l + 256, l + 257, 256, 257, 1<<16 - 1, 1 << 16, 1<<16 + 1,
		1<<16 + l - 1, 1<<16 + l, 1<<16 + l + 1, 1 << 17, 1<<17 + 1} {
		if n <= most {
			ns = append(ns, n)
		}
	}
	return
}
