package huge

import (
	"encoding/binary"
	"fmt"
	"io"
	"math/bits"
	"reflect"
	"sort"
	"syscall"
	"unsafe"

	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/reg"
	"zverif/z"
)

// Stream is an encoding laid out in reserved memory. Large parts are zero, apart from marks.
type Stream struct {
	B       []byte
	offsets []uint64 // where the offsets are
	written [][2]uint64
	What    string
}

var space []byte

const spaceLen = 30 << 30

func (s *Stream) put(at uint64, b []byte) {
	copy(space[at:], b)
	s.written = append(s.written, [2]uint64{at, uint64(len(b))})
}

// Reader reads the stream, without touching the memory of its zero parts.
type Reader struct {
	S   *Stream
	Pos uint64
}

func (r *Reader) Read(p []byte) (int, error) {
	n := min(uint64(len(p)), uint64(len(r.S.B))-r.Pos)
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	p = p[:n]
	clear(p)
	ws := r.S.written // in order
	for _, w := range ws[sort.Search(len(ws), func(i int) bool { return ws[i][0]+ws[i][1] > r.Pos }):] {
		if w[0] >= r.Pos+n {
			break
		}
		if lo, hi := max(w[0], r.Pos), min(w[0]+w[1], r.Pos+n); lo < hi {
			copy(p[lo-r.Pos:], r.S.B[lo:hi])
		}
	}
	r.Pos += n
	return int(n), nil
}

// Close clears the memory for the next stream.
func (s *Stream) Close() {
	for _, w := range s.written {
		clear(space[w[0] : w[0]+w[1]])
	}
}

type e32 struct{}
type e33 struct{}
type f32 struct{}
type e29 struct{}
type e31 struct{}
type e35 struct{}

func (e32) N() uint64 { return 1<<32 + 5 }
func (f32) N() uint64 { return 1<<32 - 3 }
func (e33) N() uint64 { return 1<<33 + 11 }
func (e29) N() uint64 { return 1<<29 + 3 }
func (e31) N() uint64 { return 1<<31 + 1 }
func (e35) N() uint64 { return 1<<35 + 15 }

type edge struct {
	t    reflect.Type
	leaf func(*ref.Desc) *ref.Desc
	head []byte
}

func self(d *ref.Desc) *ref.Desc { return d }

var edges = []edge{
	{Ty[reg.By[e32]](), self, nil},
	{Ty[reg.By[f32]](), self, nil},
	{Ty[reg.Bl[e32]](), self, nil},
	{Ty[reg.Bl[f32]](), self, nil},
	{Ty[reg.Bl[e33]](), self, nil},
	{Ty[reg.Bl[e35]](), self, nil},
	{Ty[reg.Li[uint64, e29]](), self, nil},
	{Ty[reg.Li[uint16, e31]](), self, nil},
	{Ty[reg.Li[uint32, e29]](), self, nil},
	{Ty[struct {
		N uint8
		B reg.Bl[e33]
	}](), func(d *ref.Desc) *ref.Desc { return d.Fields[1].D }, []byte{7, 5, 0, 0, 0}},
	{Ty[reg.Li[reg.By[e32], few]](), func(d *ref.Desc) *ref.Desc { return d.Elem }, []byte{4, 0, 0, 0}},
	{Ty[[1]reg.Bl[e32]](), func(d *ref.Desc) *ref.Desc { return d.Elem }, []byte{4, 0, 0, 0}},
}

// Edge makes an input whose one large part is near its limit, which is near a power of two.
func Edge(c *h.C) (*z.Typ, *Stream) {
	if space == nil {
		if space = Reserve(spaceLen); space == nil {
			z.Broken(c, "no address space")
		}
	}
	e := gen.From(c.T, edges, "edge")
	typ := Get(c, e.t)
	d := e.leaf(typ.D)
	s := &Stream{}
	s.put(0, e.head)
	k := d.Limit + uint64(gen.Index(c.T, 25, "delta")) - 12
	if gen.Index(c.T, 6, "byte") == 0 {
		k = d.Limit + uint64(gen.Index(c.T, 300, "delta")) - 150
	}
	n := k * unit(d)
	if d.Kind == ref.Bitlist {
		n = k/8 + 1
		s.put(uint64(len(e.head))+n-1, []byte{1 << (k % 8)})
	}
	n += uint64(len(e.head))
	s.B = space[:n:n]
	s.What = fmt.Sprintf("%d elements", k)
	return typ, s
}

// Encoding lays out the encoding of a value; nil if it cannot be encoded.
func Encoding(c z.TB, d *ref.Desc, x *Val, obj reflect.Value) *Stream {
	if space == nil {
		if space = Reserve(spaceLen); space == nil {
			z.Broken(c, "no address space")
		}
	}
	var segs []Seg
	if !x.Emit(d, obj.Elem(), &segs) {
		return nil
	}
	s := &Stream{What: "encoded"}
	at := uint64(0)
	for _, g := range segs {
		if g.small != nil {
			if g.offset {
				s.offsets = append(s.offsets, at)
			}
			s.put(at, g.small)
		} else if g.n > 0 {
			for i := uint64(0); i+8 <= g.n; i += 1 << 26 {
				var m [8]byte
				binary.LittleEndian.PutUint64(m[:], (at+i)*0x9e3779b97f4a7c15|1)
				s.put(at+i, m[:])
			}
			if g.last != 0 {
				s.put(at+g.n-1, []byte{g.last})
			}
		}
		at += g.n
	}
	if at != x.Size {
		z.Broken(c, "stream of %d bytes for a size of %d", at, x.Size)
	}
	s.B = space[:at:at]
	return s
}

// Mutate changes one thing.
func (s *Stream) Mutate(c *h.C) {
	k := gen.Index(c.T, 4, "mutation")
	switch {
	case k == 0 && len(s.B) > 0:
		n := uint64(len(s.B))
		if gen.Index(c.T, 2, "by") == 0 {
			n -= min(n, 1+uint64(gen.Index(c.T, 40, "less")))
		} else if m := uint64(1) << (31 + gen.Index(c.T, 3, "power")); n > m {
			n -= m
		}
		s.B = s.B[:n:n]
		s.What += fmt.Sprintf(", cut to %d", n)
	case k == 1:
		n := len(s.B) + 1 + gen.Index(c.T, 40, "more")
		if gen.Index(c.T, 3, "by") == 0 {
			n += 1 << 32
		}
		s.B = space[:n:n]
		s.What += fmt.Sprintf(", extended to %d", n)
	case len(s.offsets) > 0:
		at := gen.From(c.T, s.offsets, "offset")
		o := binary.LittleEndian.Uint32(s.B[at:])
		switch gen.Index(c.T, 3, "change") {
		case 0:
			o += uint32(gen.Index(c.T, 17, "delta")) - 8
		case 1:
			o ^= 1 << (24 + gen.Index(c.T, 8, "bit"))
		case 2:
			o = binary.LittleEndian.Uint32(s.B[gen.From(c.T, s.offsets, "other"):])
		}
		binary.LittleEndian.PutUint32(s.B[at:], o)
		s.What += fmt.Sprintf(", with offset %d at %d", o, at)
	}
}

// Valid decides whether b is an encoding of a value of a type of this package. Nothing is copied.
func Valid(d *ref.Desc, b []byte) bool {
	n := uint64(len(b))
	switch {
	case d.Kind == ref.Bytes:
		return n <= d.Limit
	case d.Kind == ref.Bitlist:
		return n > 0 && b[n-1] != 0 && (n-1)*8+uint64(bits.Len8(b[n-1]))-1 <= d.Limit
	case leaf(d):
		return n%d.Elem.Size == 0 && n/d.Elem.Size <= d.Limit
	case d.Kind == ref.BytesN:
		return n == d.N
	case d.Fixed:
		_, err := ref.Decode(d, b)
		return err == nil
	}
	var kids []*ref.Desc
	switch d.Kind {
	case ref.Container:
		for _, f := range d.Fields {
			kids = append(kids, f.D)
		}
	default:
		k := d.N
		if d.Kind == ref.List {
			if n == 0 {
				return true
			}
			if d.Elem.Fixed {
				k = n / d.Elem.FixedLen
			} else if n < 4 {
				return false
			} else {
				k = uint64(binary.LittleEndian.Uint32(b)) / 4
			}
			if k == 0 || k > d.Limit {
				return false
			}
		}
		for i := uint64(0); i < k; i++ {
			kids = append(kids, d.Elem)
		}
	}
	pos := uint64(0)
	var offs []uint64
	for _, k := range kids {
		l := uint64(4)
		if k.Fixed {
			l = k.FixedLen
		}
		if n-pos < l {
			return false
		}
		if !k.Fixed {
			offs = append(offs, uint64(binary.LittleEndian.Uint32(b[pos:])))
		} else if !Valid(k, b[pos:pos+l]) {
			return false
		}
		pos += l
	}
	if len(offs) == 0 {
		return pos == n
	}
	if offs[0] != pos {
		return false
	}
	i := 0
	for _, k := range kids {
		if k.Fixed {
			continue
		}
		end := n
		if i+1 < len(offs) {
			end = offs[i+1]
		}
		if end < offs[i] || end > n || !Valid(k, b[offs[i]:end]) {
			return false
		}
		i++
	}
	return true
}

// Spread gives the leaves places of their own, so that they can be decoded into; false if there is no room.
func (x *Val) Spread(d *ref.Desc) bool {
	at := uint64(0)
	x.allLeaves(d, func(l *Val, _ *ref.Desc) {
		l.at = at
		at += (l.n + 15) &^ 7
	})
	return at <= regionLen
}

// Same compares an object with the encoding of a value, at both ends of every leaf and at the marks.
func (x *Val) Same(d *ref.Desc, rv reflect.Value, s *Stream) string {
	at := uint64(0)
	bad := ""
	var walk func(x *Val, d *ref.Desc, rv reflect.Value)
	walk = func(x *Val, d *ref.Desc, rv reflect.Value) {
		for rv.Kind() == reflect.Ptr {
			if rv.IsNil() {
				bad = "nil pointer"
				return
			}
			rv = rv.Elem()
		}
		if bad != "" {
			return
		}
		switch {
		case leaf(d):
			if uint64(rv.Len())*unit(d) != x.n {
				bad = fmt.Sprintf("%v of %d elements, want %d bytes", d, rv.Len(), x.n)
				return
			}
			got, want := unsafe.Slice((*byte)(rv.UnsafePointer()), int(x.n)), s.B[at:at+x.n]
			for i := uint64(0); i < x.n; i += 1 << 26 {
				if g, w := string(got[i:min(x.n, i+64)]), string(want[i:min(x.n, i+64)]); g != w {
					bad = fmt.Sprintf("%v: bytes at %d are %x, want %x", d, i, g, w)
				}
			}
			if k := x.n - min(x.n, 64); string(got[k:]) != string(want[k:]) {
				bad = fmt.Sprintf("%v: last bytes are %x, want %x", d, got[k:], want[k:])
			}
			at += x.n
			return
		case d.Fixed:
			if x.v != nil {
				if got, err := bridge.Get(d, rv); err != nil || !ref.Equal(got, x.v) {
					bad = fmt.Sprintf("%v: got %v, want %s", d, err, ref.Render(d, x.v))
				}
			}
			at += d.FixedLen
			return
		}
		n := len(x.kids)
		if d.Kind == ref.List && rv.Len() != n {
			bad = fmt.Sprintf("%v has %d elements, want %d", d, rv.Len(), n)
			return
		}
		child := func(i int) reflect.Value {
			if d.Kind == ref.Container {
				return bridge.FieldByPath(rv, d.Fields[i].Path)
			}
			return rv.Index(i)
		}
		for i, k := range x.kids {
			if e := d.Child(i); e.Fixed {
				walk(k, e, child(i))
			} else {
				at += 4
			}
		}
		for i, k := range x.kids {
			if e := d.Child(i); !e.Fixed {
				walk(k, e, child(i))
			}
		}
	}
	walk(x, d, rv)
	return bad
}

// Forget gives back the memory behind the contents of values.
func Forget() {
	const dontNeed = 4
	_ = syscall.Madvise(Region, dontNeed)
	mark()
}
