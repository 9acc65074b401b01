package c24

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"testing"
	"unsafe"

	"github.com/protolambda/zssz"

	"zverif/gen"
	"zverif/h"
	"zverif/huge"
	"zverif/reg"
	"zverif/z"
)

func TestMain(m *testing.M) { h.Main(m) }

func check(c *h.C, typ *z.Typ, x *huge.Val, obj reflect.Value) {
	d := typ.D
	var segs []huge.Seg
	fits := x.Emit(d, obj.Elem(), &segs)
	if got := z.Size(c, typ, obj.Interface()); got != x.Size {
		z.Violated(c, "size of %s is %d", huge.Describe(d, x), got)
	}
	w := &huge.Checker{Segs: segs}
	var n int
	var err error
	p, st := z.Panics(func() { n, err = zssz.Encode(w, obj.Interface(), typ.S) })
	if w.Bad != "" {
		z.Violated(c, "encoding of %s: %s (panic %v)", huge.Describe(d, x), w.Bad, p)
	}
	if fits {
		if p != nil {
			z.Violated(c, "encoding of %s panicked although all offsets fit: %v\n%s", huge.Describe(d, x), p, st)
		}
		if err != nil || uint64(n) != x.Size || !w.Complete() {
			z.Violated(c, "encoding of %s: %d, %v, after %d bytes", huge.Describe(d, x), n, err, w.N)
		}
	} else if p == nil {
		z.Violated(c, "encoding of %s did not panic: %d, %v", huge.Describe(d, x), n, err)
	}
	near, over := false, false
	x.Offsets(d, func(off uint64, _ []*huge.Val) {
		near = near || off >= huge.Max32-4 && off < huge.Max32
		over = over || off >= huge.Max32
	})
	c.Label("offsets fit=%v, one just below 2^32=%v, total beyond 2^32=%v", fits, near, x.Size >= huge.Max32)
	if near || over || x.Size >= huge.Max32 {
		c.NonTrivial(func() any { return map[string]any{"value": huge.Describe(d, x), "fits": fits, "written": w.N} }, huge.Describe(d, x))
	}
}

func TestOffsets(t *testing.T) {
	huge.Ready(t)
	h.Check(t, 1, func(c *h.C) {
		var gt reflect.Type
		if gen.Index(c.T, 3, "compose") == 0 {
			var fs []reflect.StructField
			for i, n := 0, 2+gen.Index(c.T, 4, "fields"); i < n; i++ {
				ft := gen.From(c.T, append([]reflect.Type{huge.Ty[huge.By](), huge.Ty[huge.U64](), huge.Ty[huge.Bt](), huge.Ty[uint32](), huge.Ty[[7]byte]()}, huge.Shapes...), "field")
				fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: ft})
			}
			gt = reflect.StructOf(fs)
		} else {
			gt = gen.From(c.T, huge.Shapes, "shape")
		}
		typ := huge.Get(c, gt)
		x := huge.Draw(c, typ)
		obj := reflect.New(gt)
		x.Set(typ.D, obj.Elem())
		check(c, typ, x, obj)
	})
}

// TestFixedParts: the fixed-size part alone reaches 2^32; the objects lie in the reserved memory.
func TestFixedParts(t *testing.T) {
	huge.Ready(t)
	h.Check(t, 0.2, func(c *h.C) {
		gt := gen.From(c.T, huge.FixedShapes, "shape")
		typ := huge.Get(c, gt)
		x := huge.Draw(c, typ)
		obj := reflect.NewAt(gt, unsafe.Pointer(&huge.Heads[0]))
		x.Set(typ.D, obj.Elem())
		check(c, typ, x, obj)
	})
}

type stop struct {
	want  []byte // repeated
	n     int
	limit int
	bad   string
}

func (w *stop) Write(p []byte) (int, error) {
	for i, b := range p {
		if w.n+i >= w.limit {
			w.n += i
			return i, gen.ErrInjected
		}
		if want := w.want[(w.n+i)%4]; b != want && w.bad == "" {
			w.bad = fmt.Sprintf("byte %d is %#x instead of %#x", w.n+i, b, want)
		}
	}
	w.n += len(p)
	return len(p), nil
}

// TestManyElements: so many elements that their offsets alone reach 2^32. All elements are empty.
func TestManyElements(t *testing.T) {
	huge.Ready(t)
	// a clean range behind what TestFixedParts uses
	empty := unsafe.Pointer(&huge.Heads[10<<30])
	h.Check(t, 0.1, func(c *h.C) {
		type many = reg.Li[huge.By, huge.Big]
		typ := huge.Get(c, huge.Ty[many]())
		n := huge.Max32/4 + uint64(gen.Index(c.T, 9, "elements")) - 4
		if gen.Index(c.T, 4, "more") == 0 {
			n = uint64(1<<30) + uint64(gen.Index(c.T, 1<<28, "more elements"))
		}
		var l many
		*(*huge.SliceHeader)(unsafe.Pointer(&l)) = huge.SliceHeader{empty, int(n), int(n)}
		off := n * 4
		want := make([]byte, 4)
		binary.LittleEndian.PutUint32(want, uint32(off))
		w := &stop{want: want, limit: gen.Index(c.T, 400, "limit")}
		var err error
		p, _ := z.Panics(func() { _, err = zssz.Encode(w, &l, typ.S) })
		if off >= huge.Max32 {
			if p == nil || w.n != 0 {
				z.Violated(c, "encoding a list of %d empty elements wrote %d bytes: panic %v, error %v", n, w.n, p, err)
			}
		} else if p != nil || err != gen.ErrInjected || w.bad != "" || w.n != w.limit {
			z.Violated(c, "encoding a list of %d empty elements to a writer that fails after %d: panic %v, error %v, wrote %d %s", n, w.limit, p, err, w.n, w.bad)
		}
		c.Label("fits=%v", off < huge.Max32)
		c.NonTrivial(func() any { return map[string]any{"elements": n, "fits": off < huge.Max32} }, n, w.limit)
	})
}
