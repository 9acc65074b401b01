package c23

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing"

	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/z"
)

func TestMain(m *testing.M) { h.Main(m) }

// object is a Go object and the value it should hold.
type object struct {
	typ *z.Typ
	ptr reflect.Value
	v   *ref.Val // nil: leftovers of a failed decode, the content is unknown
}

type run struct {
	*h.C
	typs []*z.Typ
	objs []*object
	buf  bytes.Buffer // reused for encoding
	rd   bytes.Reader // reused for decoding
	log  []string
	// statistics
	failed, recovered, reused int
}

func (r *run) note(format string, args ...any) {
	r.log = append(r.log, fmt.Sprintf(format, args...))
}

func (r *run) bad(format string, args ...any) {
	n := len(r.log)
	if n > 30 {
		n = 30
	}
	z.Violated(r.C, "%s\nhistory (last steps):\n%s", fmt.Sprintf(format, args...), strings.Join(r.log[len(r.log)-n:], "\n"))
}

func (r *run) pick(known bool) *object {
	o := gen.From(r.T, r.objs, "object")
	if known && o.v == nil {
		// the first one with a known value after it
		for i := range r.objs {
			if p := r.objs[i]; p.v != nil {
				return p
			}
		}
		return nil
	}
	return o
}

func (r *run) id(o *object) string {
	for i, p := range r.objs {
		if p == o {
			return fmt.Sprintf("object %d (%.60s)", i, o.typ)
		}
	}
	return "?"
}

func (r *run) same(o *object, what string) {
	got, err := bridge.Get(o.typ.D, o.ptr.Elem())
	if err != nil {
		r.bad("%s leaves an invalid value in %s: %v", what, r.id(o), err)
	}
	if !ref.Equal(got, o.v) {
		r.bad("%s: %s holds another value: %s", what, r.id(o), ref.Diff(o.typ.D, got, o.v))
	}
}

func (r *run) read(b []byte) io.Reader {
	if gen.Index(r.T, 3, "reader") == 0 {
		sizes, _ := gen.Chunking(r.T)
		return &gen.Reader{Data: b, Err: io.EOF, Sizes: sizes}
	}
	r.rd.Reset(b)
	return &r.rd
}

func (r *run) step() {
	switch gen.Index(r.T, 15, "op") {
	case 0, 1: // encode
		o := r.pick(true)
		if o == nil {
			return
		}
		r.note("encode %s", r.id(o))
		r.buf.Reset()
		n, err := z.EncodeTo(r.C, o.typ, o.ptr.Interface(), &r.buf)
		want := ref.Encode(o.typ.D, o.v)
		if err != nil || n != len(want) || !bytes.Equal(r.buf.Bytes(), want) {
			r.bad("encoding of %s: %d, %v, %s instead of %s", r.id(o), n, err, ref.Short(r.buf.Bytes()), ref.Short(want))
		}
	case 2: // encode to a writer that fails
		o := r.pick(true)
		if o == nil {
			return
		}
		want := ref.Encode(o.typ.D, o.v)
		w := &gen.Writer{Room: gen.Index(r.T, len(want)+1, "room"), Err: gen.Fault(r.T)}
		r.note("encode %s to a writer with room for %d of %d", r.id(o), w.Room, len(want))
		n, err := z.EncodeTo(r.C, o.typ, o.ptr.Interface(), w)
		if w.Room < len(want) && err == nil || w.Room == len(want) && err != nil || n != w.Room || !bytes.Equal(w.Got, want[:w.Room]) {
			r.bad("encoding of %s to a failing writer: %d, %v, %s", r.id(o), n, err, ref.Short(w.Got))
		}
	case 3: // root
		o := r.pick(true)
		if o == nil {
			return
		}
		r.note("root of %s", r.id(o))
		if got, want := z.Root(r.C, o.typ, o.ptr.Interface(), z.Hash), ref.DefaultHasher.Root(o.typ.D, o.v); got != want {
			r.bad("root of %s is %x instead of %x", r.id(o), got, want)
		}
	case 4: // signing root
		o := r.pick(true)
		if o == nil || o.typ.T.Kind() != reflect.Struct {
			return
		}
		r.note("signing root of %s", r.id(o))
		if got, want := z.Signing(r.C, o.typ, o.ptr.Interface(), z.Hash), ref.DefaultHasher.SigningRoot(o.typ.D, o.v); got != want {
			r.bad("signing root of %s is %x instead of %x", r.id(o), got, want)
		}
	case 5: // size
		o := r.pick(true)
		if o == nil {
			return
		}
		r.note("size of %s", r.id(o))
		if got, want := z.Size(r.C, o.typ, o.ptr.Interface()), uint64(len(ref.Encode(o.typ.D, o.v))); got != want {
			r.bad("size of %s is %d instead of %d", r.id(o), got, want)
		}
	case 6: // pretty, compared with another object of the same value
		o := r.pick(true)
		if o == nil {
			return
		}
		r.note("print %s", r.id(o))
		p := bridge.New(o.typ.D, o.v, nil)
		if a, b := z.Pretty(r.C, o.typ, o.ptr.Interface(), " "), z.Pretty(r.C, o.typ, p.Interface(), " "); a != b {
			r.bad("printed form of %s differs from that of a new object with its value: %.300s, %.300s", r.id(o), a, b)
		}
	case 7: // build the definition again
		i := gen.Index(r.T, len(r.typs), "type")
		r.note("definition of %.60s again", r.typs[i])
		again := z.Build(r.C, r.typs[i].T, r.typs[i].D)
		for _, o := range r.objs {
			if o.typ == r.typs[i] && gen.Index(r.T, 2, "switch") == 0 {
				o.typ = again
			}
		}
		r.typs[i] = again
	case 8: // assign a value
		o := r.pick(false)
		o.v = gen.Value(r.T, o.typ.D, 200)
		r.note("assign %s", r.id(o))
		bridge.Set(o.typ.D, o.v, o.ptr.Elem(), gen.Noise(r.T))
	case 9: // dry check
		typ := gen.From(r.T, r.typs, "type")
		in, kind := gen.Bytes(r.T, typ.D)
		_, want := ref.Decode(typ.D, in)
		r.note("dry check of %s as %.60s", kind, typ)
		if err := z.DryCheck(r.C, typ, r.read(in), uint64(len(in))); (err == nil) != (want == nil) {
			r.bad("dry check of %.60s: %v, should be %v\nbytes %s", typ, err, want, ref.Short(in))
		}
	case 10: // fuzz decoding, compared with a new object
		o := r.pick(false)
		if o.typ.D.FuzzMin > 3000 {
			return
		}
		in := make([]byte, int(o.typ.D.FuzzMin)+gen.Index(r.T, 100, "more"))
		(&bridge.Rng{S: gen.Seed(r.T, "fuzz")}).Fill(in)
		r.note("fuzz decode into %s", r.id(o))
		n, err := z.Fuzz(r.C, o.typ, r.read(in), uint64(len(in)), o.ptr.Interface())
		p := reflect.New(o.typ.T)
		n2, err2 := z.Fuzz(r.C, z.Build(r.C, o.typ.T, o.typ.D), bytes.NewReader(in), uint64(len(in)), p.Interface())
		if n != n2 || (err == nil) != (err2 == nil) {
			r.bad("fuzz decoding into %s: %d, %v; into a new object: %d, %v\nbytes %s", r.id(o), n, err, n2, err2, ref.Short(in))
		}
		o.v = nil
		if err == nil {
			v, e := bridge.Get(o.typ.D, p.Elem())
			if e != nil {
				r.bad("fuzz decoding into a new object of %s: %v", r.id(o), e)
			}
			o.v = v
			r.same(o, "fuzz decoding")
		}
	case 11: // several messages on one stream
		n := 2 + gen.Index(r.T, 3, "messages")
		var all []byte
		var msgs []*gen.Case
		for i := 0; i < n; i++ {
			k := gen.CaseOf(r.T, gen.From(r.T, r.typs, "type"))
			msgs = append(msgs, k)
			all = append(all, k.Enc...)
		}
		r.note("decode %d messages from one stream", n)
		rd := &gen.Reader{Data: all, Err: io.EOF}
		for i, k := range msgs {
			o := &object{typ: k.Typ, ptr: reflect.New(k.Typ.T), v: k.V}
			for _, p := range r.objs {
				if p.typ == k.Typ && gen.Index(r.T, 2, "reuse") == 0 {
					o = p
					o.v = k.V
					break
				}
			}
			if err := z.Decode(r.C, o.typ, rd, uint64(len(k.Enc)), o.ptr.Interface()); err != nil {
				r.bad("decoding message %d of a stream into %s: %v", i, r.id(o), err)
			}
			r.same(o, fmt.Sprintf("decoding message %d of a stream", i))
		}
	default: // decode into an object, valid or not
		o := r.pick(false)
		var in []byte
		var kind string
		if gen.Index(r.T, 2, "valid") == 0 {
			in, kind = ref.Encode(o.typ.D, gen.Value(r.T, o.typ.D, 200)), "valid"
		} else {
			in, kind = gen.Bytes(r.T, o.typ.D)
		}
		cut := gen.Index(r.T, 6, "cut") == 0 && len(in) > 0
		v, want := ref.Decode(o.typ.D, in)
		data := in
		if cut {
			data = in[:gen.Index(r.T, len(in), "at")]
			kind += ", reader fails"
			want = io.ErrUnexpectedEOF
		}
		r.note("decode %s into %s (known=%v)", kind, r.id(o), o.v != nil)
		err := z.Decode(r.C, o.typ, r.read(data), uint64(len(in)), o.ptr.Interface())
		if (err == nil) != (want == nil) {
			r.bad("decoding into %s: %v, should be %v\n%s: %s", r.id(o), err, want, kind, ref.Short(in))
		}
		if err != nil {
			r.failed++
			o.v = nil
			return
		}
		if o.v == nil {
			r.recovered++
		}
		r.reused++
		o.v = v
		r.same(o, "decoding "+kind)
	}
}

func TestHistories(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		r := &run{C: c}
		for i, n := 0, 1+gen.Index(c.T, 3, "types"); i < n; i++ {
			r.typs = append(r.typs, gen.Type(c.T))
		}
		for i, n := 0, 2+gen.Index(c.T, 4, "objects"); i < n; i++ {
			typ := r.typs[i%len(r.typs)]
			o := &object{typ: typ, v: gen.Value(c.T, typ.D, 200)}
			o.ptr = bridge.New(typ.D, o.v, gen.Noise(c.T))
			r.objs = append(r.objs, o)
		}
		n := 5 + gen.Index(c.T, 40, "steps")
		for i := 0; i < n; i++ {
			r.step()
		}
		for _, o := range r.objs {
			if o.v != nil {
				r.same(o, "at the end")
			}
		}
		c.Label("failed decodes=%v, decoded over leftovers=%v", r.failed > 0, r.recovered > 0)
		if r.reused >= 2 {
			c.NonTrivial(func() any { return map[string]any{"types": fmt.Sprint(r.typs), "history": r.log} }, strings.Join(r.log, "\n"))
		}
	})
}
