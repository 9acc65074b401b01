// Package huge makes values and encodings of around and beyond 2^32 bytes, in memory that is reserved but never filled.
package huge

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"syscall"
	"unsafe"

	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/reg"
	"zverif/z"
)

// Init reserves the memory.
func Init() {
	Region, Heads = Reserve(regionLen), Reserve(headsLen)
	mark()
}

// mark writes marks, to tell positions apart; all other pages stay untouched.
func mark() {
	for i := 0; i+8 < len(Region); i += 1 << 26 {
		binary.LittleEndian.PutUint64(Region[i:], uint64(i)*0x9e3779b97f4a7c15|1)
	}
}

// Reserve reserves address space.
func Reserve(n int) []byte {
	b, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		fmt.Println("HARNESS: no address space:", err)
		return nil
	}
	const noHugePages = 15
	_ = syscall.Madvise(b, noHugePages)
	return b
}

// Ready reserves the memory, and ends the test if there is none.
func Ready(c z.TB) {
	if Region == nil {
		Init()
	}
	if Region == nil || Heads == nil {
		z.Broken(c, "no address space")
	}
}

// Memory that is reserved but never filled: the contents of huge values, and the headers of huge lists.
var Region, Heads []byte

const (
	regionLen = 14 << 30
	headsLen  = 50 << 30
	Max32     = uint64(1) << 32
)

type Big struct{}

func (Big) N() uint64 { return 1 << 40 }

type few struct{}

func (few) N() uint64 { return 1 << 10 }

type (
	By  = reg.By[Big]
	U64 = reg.Li[uint64, Big]
	U16 = reg.Li[uint16, Big]
	Bt  = reg.Bl[Big]
	LBy = reg.Li[By, few]
)

type Pair struct {
	A By
	N uint32
	B U64
}
type Tags struct {
	X uint8
	Pair
	M map[string]int `ssz:"omit"`
	Y struct {
		P [3]byte
		Q By
		R struct{ S Bt } `ssz:"squash"`
	} `ssz:"squash"`
	Z uint64
	W U16
}
type Node struct {
	Data By
	Kids reg.Li[Pair, few]
	Last Bt
}
type WideFixed struct {
	A By
	F [1<<32 - 9]byte
	B By
}
type WideFixedOver struct {
	A By
	F [1<<32 - 8]byte
	B By
}
type WideFixedMax struct {
	F [1<<32 - 5]byte
	A By
}
type WideFixedTail struct {
	A By
	B U64
	F [1 << 32]byte
}

func Ty[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

var Shapes = []reflect.Type{
	Ty[LBy](), Ty[[2]By](), Ty[[5]U64](), Ty[[3]Bt](), Ty[reg.Li[U16, few]](), Ty[Pair](), Ty[Tags](), Ty[Node](), Ty[reg.Li[Node, few]](), Ty[[2]Node](),
	Ty[reg.Li[LBy, few]](), Ty[reg.Li[[2]LBy, few]](), Ty[struct{ A, B, C LBy }](), Ty[reg.Li[*Pair, few]](), Ty[struct {
		P *Pair
		Q *By
		T Tags
	}](), Ty[[2][2][2]By](), Ty[*Tags](), Ty[reg.Li[Bt, few]](), Ty[struct {
		N uint16
		V [3]struct{ A By }
		L LBy
		B bool
	}](), Ty[reg.Li[struct{ A, B By }, few]](),
}

var FixedShapes = []reflect.Type{Ty[WideFixed](), Ty[WideFixedOver](), Ty[WideFixedMax](), Ty[WideFixedTail]()}

// Val is a value whose leaves are parts of the Region.
type Val struct {
	n    uint64 // bytes of a variable-size leaf
	at   uint64 // where in the Region
	v    *ref.Val
	huge bool // fixed bytes of the object itself
	kids []*Val
	Size uint64
}

func leaf(d *ref.Desc) bool {
	return d.Kind == ref.Bytes || d.Kind == ref.Bitlist || d.Kind == ref.List && d.PackedElems()
}

func unit(d *ref.Desc) uint64 {
	if d.Kind == ref.List {
		return d.Elem.Size
	}
	return 1
}

type maker struct {
	c      *h.C
	leaves []*Val
	descs  []*ref.Desc
	big    int
}

func (m *maker) Val(d *ref.Desc) *Val {
	x := &Val{}
	switch {
	case leaf(d):
		switch gen.Index(m.c.T, 8, "size") {
		case 0:
		case 1, 2, 3:
			x.n = uint64(gen.Index(m.c.T, 70, "small"))
		case 4:
			x.n = uint64(gen.Index(m.c.T, 1<<20, "medium"))
		default:
			if m.big == 0 {
				x.n = uint64(gen.Index(m.c.T, 70, "small"))
				break
			}
			m.big--
			x.n = gen.From(m.c.T, []uint64{1 << 30, 1 << 31, 1<<32 - 40, 1 << 32, 5 << 30, 3 << 30}, "large") + uint64(gen.Index(m.c.T, 100, "plus"))
		}
		x.n -= x.n % unit(d)
		if d.Kind == ref.Bitlist && x.n == 0 {
			x.n = 1
		}
		x.at = uint64(gen.Index(m.c.T, 1<<28, "at")) &^ 7
		m.leaves = append(m.leaves, x)
		m.descs = append(m.descs, d)
	case d.Kind == ref.BytesN && d.N > 1<<20:
		x.huge = true
	case d.Fixed:
		x.v = gen.Value(m.c.T, d, 0)
	case d.Kind == ref.Vector || d.Kind == ref.List:
		n := int(d.N)
		if d.Kind == ref.List {
			n = gen.Index(m.c.T, 5, "elements")
		}
		for i := 0; i < n; i++ {
			x.kids = append(x.kids, m.Val(d.Elem))
		}
	default:
		for _, f := range d.Fields {
			x.kids = append(x.kids, m.Val(f.D))
		}
	}
	return x
}

func (x *Val) Measure(d *ref.Desc) uint64 {
	x.Size = x.n
	switch {
	case leaf(d):
	case d.Fixed:
		x.Size = d.FixedLen
	default:
		for i, k := range x.kids {
			if x.Size += k.Measure(d.Child(i)); !d.Child(i).Fixed {
				x.Size += 4
			}
		}
	}
	return x.Size
}

// offsets lists all offsets, each with the leaves whose sizes it depends on.
func (x *Val) Offsets(d *ref.Desc, fn func(off uint64, before []*Val)) {
	if leaf(d) || d.Fixed {
		return
	}
	head := uint64(0)
	for i := range x.kids {
		if e := d.Child(i); e.Fixed {
			head += e.FixedLen
		} else {
			head += 4
		}
	}
	var before []*Val
	for i, k := range x.kids {
		if e := d.Child(i); !e.Fixed {
			fn(head, before)
			head += k.Size
			before = append(before, k)
		}
	}
	for i, k := range x.kids {
		k.Offsets(d.Child(i), fn)
	}
}

func (x *Val) allLeaves(d *ref.Desc, fn func(*Val, *ref.Desc)) {
	if leaf(d) {
		fn(x, d)
	}
	for i, k := range x.kids {
		k.allLeaves(d.Child(i), fn)
	}
}

// seg is a part of the expected stream.
type Seg struct {
	small  []byte
	offset bool
	n      uint64
	at     []byte // n bytes
	last   byte   // of a bitlist
}

// emit makes the expected stream; false at an offset that does not fit.
func (x *Val) Emit(d *ref.Desc, rv reflect.Value, out *[]Seg) bool {
	for rv.Kind() == reflect.Ptr {
		rv = rv.Elem()
	}
	switch {
	case leaf(d):
		g := Seg{n: x.n, at: Region[x.at : x.at+x.n]}
		if d.Kind == ref.Bitlist {
			g.last = 1 << (x.n % 8)
		}
		*out = append(*out, g)
		return true
	case x.huge:
		*out = append(*out, Seg{n: d.N, at: bridge.Bytes(rv)})
		return true
	case d.Fixed:
		b := ref.Encode(d, x.v)
		*out = append(*out, Seg{n: uint64(len(b)), small: b})
		return true
	}
	child := func(i int) reflect.Value {
		if d.Kind == ref.Container {
			return bridge.FieldByPath(rv, d.Fields[i].Path)
		}
		return rv.Index(i)
	}
	off := uint64(0)
	for i := range x.kids {
		if e := d.Child(i); e.Fixed {
			off += e.FixedLen
		} else {
			off += 4
		}
	}
	for i, k := range x.kids {
		if e := d.Child(i); e.Fixed {
			k.Emit(e, child(i), out)
		} else {
			if off >= Max32 {
				return false
			}
			b := make([]byte, 4)
			binary.LittleEndian.PutUint32(b, uint32(off))
			*out = append(*out, Seg{n: 4, small: b, offset: true})
			off += k.Size
		}
	}
	for i, k := range x.kids {
		if e := d.Child(i); !e.Fixed && !k.Emit(e, child(i), out) {
			return false
		}
	}
	return true
}

type SliceHeader struct {
	Data     unsafe.Pointer
	Len, Cap int
}

// set makes the Go object.
func (x *Val) Set(d *ref.Desc, rv reflect.Value) {
	for rv.Kind() == reflect.Ptr {
		rv.Set(reflect.New(rv.Type().Elem()))
		rv = rv.Elem()
	}
	switch {
	case leaf(d):
		if d.Kind == ref.Bitlist {
			Region[x.at+x.n-1] = 1 << (x.n % 8)
		}
		n := int(x.n / unit(d))
		*(*SliceHeader)(unsafe.Pointer(rv.UnsafeAddr())) = SliceHeader{unsafe.Pointer(&Region[x.at]), n, n}
	case x.huge:
	case d.Fixed:
		bridge.Set(d, x.v, rv, nil)
	case d.Kind == ref.List:
		n := len(x.kids)
		s := reflect.MakeSlice(rv.Type(), n, n)
		for i, k := range x.kids {
			k.Set(d.Elem, s.Index(i))
		}
		rv.Set(s)
	case d.Kind == ref.Vector:
		for i, k := range x.kids {
			k.Set(d.Elem, rv.Index(i))
		}
	default:
		for i, k := range x.kids {
			k.Set(d.Fields[i].D, bridge.FieldByPath(rv, d.Fields[i].Path))
		}
	}
}

// Checker compares what is written with the expected stream, without reading the large parts in full.
type Checker struct {
	Segs []Seg
	i    int
	pos  uint64 // in the segment
	N    uint64
	Bad  string
}

func (w *Checker) Write(p []byte) (int, error) {
	total := len(p)
	for len(p) > 0 && w.Bad == "" {
		for w.i < len(w.Segs) && w.pos == w.Segs[w.i].n {
			w.i, w.pos = w.i+1, 0
		}
		if w.i == len(w.Segs) {
			w.Bad = fmt.Sprintf("%d bytes more than expected after byte %d: %s", len(p), w.N, ref.Short(p[:min(len(p), 64)]))
			break
		}
		s := w.Segs[w.i]
		k := min(uint64(len(p)), s.n-w.pos)
		want := s.small
		if want == nil {
			want = s.at
		}
		want = want[w.pos : w.pos+k]
		for _, r := range [][2]uint64{{0, min(k, 64)}, {k - min(k, 64), k}} {
			if !bytes.Equal(p[r[0]:r[1]], want[r[0]:r[1]]) {
				w.Bad = fmt.Sprintf("bytes %d to %d are %x instead of %x", w.N+r[0], w.N+r[1], p[r[0]:r[1]], want[r[0]:r[1]])
			}
		}
		p = p[k:]
		w.pos += k
		w.N += k
	}
	return total, nil
}

func (w *Checker) Complete() bool {
	for w.i < len(w.Segs) && w.pos == w.Segs[w.i].n {
		w.i, w.pos = w.i+1, 0
	}
	return w.i == len(w.Segs)
}

func Describe(d *ref.Desc, x *Val) string {
	var s string
	x.Offsets(d, func(off uint64, _ []*Val) {
		if len(s) < 300 {
			s += fmt.Sprintf(" %d", off)
		}
	})
	return fmt.Sprintf("%v of %d bytes with offsets%s", d, x.Size, s)
}

// DrawLast draws a value that is small but for its last part, of 2^32 bytes and some more.
func DrawLast(c *h.C, typ *z.Typ) *Val {
	m := &maker{c: c}
	x := m.Val(typ.D)
	if k := len(m.leaves) - 1; k >= 0 {
		l := m.leaves[k]
		l.n = Max32 + uint64(gen.Index(c.T, 100, "last"))
		l.n -= l.n % unit(m.descs[k])
	}
	x.Measure(typ.D)
	return x
}

// Draw draws a value with leaves of up to 6 GiB, most with an offset near 2^32.
func Draw(c *h.C, typ *z.Typ) *Val {
	m := &maker{c: c, big: gen.Index(c.T, 3, "big leaves")}
	x := m.Val(typ.D)
	x.Measure(typ.D)
	if gen.Index(c.T, 5, "tune") > 0 {
		// move one offset to the boundary by changing one of the leaves before it
		type cand struct {
			off uint64
			l   []*Val
			d   []*ref.Desc
		}
		var cands []cand
		x.Offsets(typ.D, func(off uint64, before []*Val) {
			if len(before) > 0 {
				cands = append(cands, cand{off: off, l: before})
			}
		})
		if len(cands) > 0 {
			k := gen.From(c.T, cands, "offset")
			b := gen.From(c.T, k.l, "before")
			in := map[*Val]bool{}
			var mark func(v *Val)
			mark = func(v *Val) {
				in[v] = true
				for _, y := range v.kids {
					mark(y)
				}
			}
			mark(b)
			var ls []*Val
			var ds []*ref.Desc
			for i, l := range m.leaves {
				if in[l] {
					ls, ds = append(ls, l), append(ds, m.descs[i])
				}
			}
			if len(ls) > 0 {
				i := gen.Index(c.T, len(ls), "leaf")
				target := Max32 + uint64(gen.Index(c.T, 7, "delta")) - 4
				n := int64(ls[i].n) + int64(target) - int64(k.off)
				if n > 0 && n < 6<<30 {
					ls[i].n = uint64(n) - uint64(n)%unit(ds[i])
					if ds[i].Kind == ref.Bitlist && ls[i].n == 0 {
						ls[i].n = 1
					}
				}
			}
		}
		x.Measure(typ.D)
	}
	return x
}

func Get(c z.TB, t reflect.Type) *z.Typ {
	d, err := ref.FromType(t)
	if err != nil {
		z.Broken(c, "%v: %v", t, err)
	}
	return z.Get(c, t, d)
}
