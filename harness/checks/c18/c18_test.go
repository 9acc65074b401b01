package c18

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"sort"
	"testing"

	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/z"
)

func TestMain(m *testing.M) { h.Main(m) }

var hugs = []reflect.Type{
	reflect.TypeOf([1]byte{}), reflect.TypeOf([3]byte{}), reflect.TypeOf([16]byte{}), reflect.TypeOf([67]byte{}), reflect.TypeOf(uint64(0)),
}

// frame puts the destination between canaries.
type frame struct {
	pre, post []byte
	want      [2][]byte
	guards    *bridge.Guards
	dst       reflect.Value // pointer to the object
}

func mkFrame(c *h.C, d *ref.Desc) (*frame, string) {
	ft := reflect.StructOf([]reflect.StructField{
		{Name: "Pre", Type: gen.From(c.T, hugs, "pre")}, {Name: "V", Type: d.T}, {Name: "Post", Type: gen.From(c.T, hugs, "post")}})
	o := reflect.New(ft).Elem()
	f := &frame{guards: &bridge.Guards{}, dst: o.Field(1).Addr()}
	rng := &bridge.Rng{S: gen.Seed(c.T, "frame"), Guards: f.guards}
	// everything in front of and behind the object, padding included
	all := bridge.Bytes(o)
	off, size := int(ft.Field(1).Offset), int(d.T.Size())
	f.pre, f.post = all[:off:off], all[off+size:]
	rng.Fill(f.pre)
	rng.Fill(f.post)
	f.want = [2][]byte{append([]byte{}, f.pre...), append([]byte{}, f.post...)}
	kind := "fresh"
	switch gen.Index(c.T, 3, "content") {
	case 1:
		kind = "zero"
		bridge.Set(d, ref.Zero(d), f.dst.Elem(), rng)
	case 2:
		kind = "stale"
		bridge.Set(d, gen.Value(c.T, d, gen.Budget(c.T)), f.dst.Elem(), rng)
	}
	if !bytes.Equal(f.pre, f.want[0]) || !bytes.Equal(f.post, f.want[1]) || f.guards.Check() >= 0 {
		z.Broken(c, "bridge writes out of bounds")
	}
	return f, kind
}

func (f *frame) check(c *h.C, typ *z.Typ, what string, in []byte) {
	if !bytes.Equal(f.pre, f.want[0]) {
		z.Violated(c, "%s of %s wrote in front of the destination\nbytes %s", what, typ, ref.Short(in))
	}
	if !bytes.Equal(f.post, f.want[1]) {
		z.Violated(c, "%s of %s wrote behind the destination\nbytes %s", what, typ, ref.Short(in))
	}
	if i := f.guards.Check(); i >= 0 {
		z.Violated(c, "%s of %s wrote next to the slices of the destination (block %d)\nbytes %s", what, typ, i, ref.Short(in))
	}
}

type block struct {
	start, size uintptr
	owner       string
}

// disjoint: the objects and byte slices share no memory.
func disjoint(c *h.C, typ *z.Typ, owners map[string]reflect.Value, in []byte) {
	var bs []block
	for name, rv := range owners {
		bridge.Ranges(rv, func(s, n uintptr) { bs = append(bs, block{s, n, name}) })
	}
	if len(in) > 0 {
		bs = append(bs, block{reflect.ValueOf(in).Pointer(), uintptr(cap(in)), "the input"})
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].start < bs[j].start })
	for i := 1; i < len(bs); i++ {
		if bs[i-1].start+bs[i-1].size > bs[i].start {
			z.Violated(c, "decoding %s: %s and %s share memory\nbytes %s", typ, bs[i-1].owner, bs[i].owner, ref.Short(in))
		}
	}
}

func reader(c *h.C, in []byte) (io.Reader, string) {
	switch gen.Index(c.T, 3, "reader") {
	case 0:
		return bytes.NewReader(in), "bytes.Reader"
	case 1:
		return bytes.NewBuffer(in), "bytes.Buffer"
	}
	r := &gen.Reader{Data: in, Err: io.EOF}
	r.Sizes, _ = gen.Chunking(c.T)
	return r, "chunks"
}

// TestDecode: decoding and fuzz decoding write nothing but the destination.
func TestDecode(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		typ := gen.Type(c.T)
		d := typ.D
		in, kind := ref.Encode(d, gen.Value(c.T, d, gen.Budget(c.T))), "valid"
		if gen.Index(c.T, 3, "bytes") == 0 {
			in, kind = gen.Bytes(c.T, d)
		}
		f, content := mkFrame(c, d)
		keep := append([]byte{}, in...)
		r, rk := reader(c, in)
		err := z.Decode(c, typ, r, uint64(len(in)), f.dst.Interface())
		f.check(c, typ, "decoding", keep)
		if !bytes.Equal(in, keep) {
			z.Violated(c, "decoding %s from %s changed the input\nbytes %s, now %s", typ, rk, ref.Short(keep), ref.Short(in))
		}
		if err == nil {
			v, gerr := bridge.Get(d, f.dst.Elem())
			if gerr != nil {
				z.Violated(c, "decoding %s made an invalid value: %v\nbytes %s", typ, gerr, ref.Short(keep))
			}
			g, _ := mkFrame(c, d)
			if err := z.Decode(c, typ, bytes.NewReader(in), uint64(len(in)), g.dst.Interface()); err != nil {
				z.Violated(c, "decoding %s again: %v\nbytes %s", typ, err, ref.Short(keep))
			}
			disjoint(c, typ, map[string]reflect.Value{"the first value": f.dst.Elem(), "the second value": g.dst.Elem()}, in)
			for i := range in {
				in[i] ^= 0xff
			}
			// a third decode, of other content, does not disturb the first two
			o := bridge.New(d, ref.Zero(d), nil)
			_ = z.Decode(c, typ, bytes.NewReader(in), uint64(len(in)), o.Interface())
			for _, x := range []*frame{f, g} {
				if got, gerr := bridge.Get(d, x.dst.Elem()); gerr != nil || !ref.Equal(got, v) {
					z.Violated(c, "a value of %s changed after its decoding (%v)\nbytes %s", typ, gerr, ref.Short(keep))
				}
				x.check(c, typ, "later use", keep)
			}
		}
		c.Label("%s into %s, from %s, accepted=%v", kind, content, rk, err == nil)
		if len(keep) > 0 {
			c.NonTrivial(gen.BytesSample(typ, keep, kind, fmt.Sprintf("into %s, %d guarded blocks", content, f.guards.Len()+2)), typ.T, keep, content)
		}
		if d.FuzzMin < 5000 {
			fz := make([]byte, int(d.FuzzMin)+gen.Index(c.T, 300, "more"))
			(&bridge.Rng{S: gen.Seed(c.T, "fuzz")}).Fill(fz)
			keep := append([]byte{}, fz...)
			f, _ := mkFrame(c, d)
			r, _ := reader(c, fz)
			_, err := z.Fuzz(c, typ, r, uint64(len(fz)), f.dst.Interface())
			f.check(c, typ, "fuzz decoding", keep)
			if !bytes.Equal(fz, keep) {
				z.Violated(c, "fuzz decoding %s changed the input", typ)
			}
			if err == nil {
				disjoint(c, typ, map[string]reflect.Value{"the value": f.dst.Elem()}, fz)
			}
		}
	})
}

// TestRead: operations that read the object do not modify it.
func TestRead(t *testing.T) {
	h.Check(t, 0.6, func(c *h.C) {
		k := gen.NewCase(c.T)
		byValue := gen.Index(c.T, 3, "by value") == 0 && k.Typ.T.Kind() != reflect.Ptr // a pointer is always taken as the pointer to the object
		val := k.Ptr()
		obj := k.Obj.Elem()
		if byValue {
			val = k.Obj.Elem().Interface()
		}
		before := bridge.Snapshot(obj)
		same := func(what string) {
			if !bytes.Equal(before, bridge.Snapshot(obj)) {
				z.Violated(c, "%s of %s (by value %v) modified the object\nvalue %s", what, k.Typ, byValue, ref.Render(k.D(), k.V))
			}
			if byValue {
				cp := reflect.New(k.Typ.T)
				cp.Elem().Set(reflect.ValueOf(val))
				if got, err := bridge.Get(k.D(), cp.Elem()); err != nil || !ref.Equal(got, k.V) {
					z.Violated(c, "%s of %s modified the value in the interface (%v)\nvalue %s", what, k.Typ, err, ref.Render(k.D(), k.V))
				}
			}
		}
		z.Encode(c, k.Typ, val)
		same("encoding")
		w := &gen.Writer{Room: gen.Index(c.T, len(k.Enc)+2, "room")}
		_, _ = z.EncodeTo(c, k.Typ, val, w)
		same("failing encoding")
		z.Size(c, k.Typ, val)
		same("sizing")
		root := z.Root(c, k.Typ, val, z.Hash)
		same("hashing")
		if k.Typ.T.Kind() == reflect.Struct {
			z.Signing(c, k.Typ, val, z.Hash)
			same("signing")
		}
		z.Pretty(c, k.Typ, val, " ")
		same("printing")
		if root != z.Root(c, k.Typ, val, z.Hash) {
			z.Violated(c, "hashing %s twice differs", k.Typ)
		}
		c.Label("by value %v", byValue)
		if len(before) > int(k.Typ.T.Size()) || len(k.Enc) > 8 {
			c.NonTrivial(k.Sample, k.Typ.T, k.Enc, byValue)
		}
	})
}

var sink [][]byte

// TestGC: decoded values survive garbage collections, also those that run while they are decoded.
func TestGC(t *testing.T) {
	h.Check(t, 0.15, func(c *h.C) {
		n := 3 + gen.Index(c.T, 6, "values")
		var ks []*gen.Case
		for i := 0; i < n; i++ {
			ks = append(ks, gen.NewCase(c.T))
		}
		stop, done := make(chan struct{}), make(chan struct{})
		go func() {
			defer close(done)
			for {
				select {
				case <-stop:
					return
				default:
					runtime.GC()
				}
			}
		}()
		dsts := make([]reflect.Value, n)
		var panicked any
		for round := 0; round < 3; round++ {
			for i, k := range ks {
				dsts[i] = reflect.New(k.Typ.T)
				if p, st := z.Panics(func() {
					if err := z.Decode(nopTB{c}, k.Typ, bytes.NewReader(append([]byte{}, k.Enc...)), uint64(len(k.Enc)), dsts[i].Interface()); err != nil {
						panic(err)
					}
				}); p != nil {
					panicked = fmt.Sprint(p, st)
				}
				for j := 0; j < 4; j++ {
					sink = append(sink, bytes.Repeat([]byte{0xee}, 16<<(j*2)))
				}
			}
			sink = nil
		}
		close(stop)
		<-done
		if panicked != nil {
			z.Violated(c, "decoding during garbage collections: %v", panicked)
		}
		runtime.GC()
		for j := 0; j < 200; j++ {
			sink = append(sink, bytes.Repeat([]byte{0xdd}, 8+j*5))
		}
		runtime.GC()
		sink = nil
		size := 0
		for i, k := range ks {
			if got, err := bridge.Get(k.D(), dsts[i].Elem()); err != nil || !ref.Equal(got, k.V) {
				z.Violated(c, "a decoded value of %s changed across garbage collections (%v)\nvalue %s", k.Typ, err, ref.Render(k.D(), k.V))
			}
			if enc := z.Encode(c, k.Typ, dsts[i].Interface()); !bytes.Equal(enc, k.Enc) {
				z.Violated(c, "a decoded value of %s encodes differently after garbage collections\nvalue %s", k.Typ, ref.Render(k.D(), k.V))
			}
			size += len(k.Enc)
		}
		c.Label("values %d", n)
		if size > 64 {
			c.NonTrivial(func() any { return fmt.Sprintf("%d values, %d bytes, first type %s", n, size, ks[0].Typ) }, ks[0].Enc, ks[1].Enc, ks[2].Enc)
		}
	})
}

// nopTB turns a failure inside into a panic, so that the collector goroutine is stopped first.
type nopTB struct{ *h.C }

func (nopTB) Helper()                   {}
func (nopTB) Fatalf(f string, a ...any) { panic(fmt.Sprintf(f, a...)) }
