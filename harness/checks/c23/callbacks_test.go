package c23

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strings"
	"testing"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/merkle"
	"github.com/protolambda/zssz/types"

	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/merk"
	"zverif/ref"
	"zverif/z"
)

// boom is what callbacks panic with.
type boom struct{}

// hook acts when the operation calls back for the at-th time.
type hook struct {
	at, n int
	plan  *plan // an operation to run
	throw bool  // panic (after it)
	gc    bool  // collect garbage
	fired bool
	out   *[]string
}

func (k *hook) tick() {
	if k == nil {
		return
	}
	k.n++
	if k.n-1 != k.at {
		return
	}
	k.fired = true
	if k.plan != nil {
		k.plan.run(k.out)
	}
	if k.gc {
		runtime.GC()
	}
	if k.throw {
		panic(boom{})
	}
}

type hookedReader struct {
	io.Reader
	*hook
}

func (r hookedReader) Read(p []byte) (int, error) { r.tick(); return r.Reader.Read(p) }

type hookedWriter struct {
	io.Writer
	*hook
}

func (w hookedWriter) Write(p []byte) (int, error) { w.tick(); return w.Writer.Write(p) }

func (k *hook) reader(b []byte, sizes func() int) io.Reader {
	return hookedReader{&gen.Reader{Data: b, Err: io.EOF, Sizes: sizes}, k}
}

func (k *hook) fn(object bool) htr.MerkleFn {
	return merk.Fn(func(b []byte) [32]byte { k.tick(); return sha256.Sum256(b) }, object)
}

// plan is an operation, drawn before it runs, with what it should give.
type plan struct {
	what string
	hook *hook
	do   func() string // "" or what is wrong; panics of the operation pass
	// the operation may panic by contract
	refuses bool
}

func (p *plan) run(out *[]string) {
	bad := ""
	v, st := z.Panics(func() { bad = p.do() })
	switch {
	case v != nil && p.refuses:
	case v != nil && (p.hook == nil || !p.hook.fired || v != any(boom{})):
		bad = fmt.Sprintf("panics: %v\n%s", v, st)
	case p.hook != nil && p.hook.fired && p.hook.throw:
		bad = "" // however it ended
	}
	if bad != "" {
		*out = append(*out, p.what+": "+bad)
	}
}

type world struct {
	*h.C
	cases []*gen.Case
	// destinations, by depth of nesting
	dsts [3]map[*z.Typ]reflect.Value
	out  []string
	log  []string
}

func (w *world) draw(depth int) *plan {
	t := w.T
	k := gen.From(t, w.cases, "case")
	typ, d := k.Typ, k.D()
	p := &plan{}
	if gen.Index(t, 4, "hooked") != 0 || depth > 0 && gen.Index(t, 2, "hooked") != 0 {
		p.hook = &hook{at: gen.Index(t, 3, "at"), out: &w.out}
		if gen.Index(t, 3, "late") == 0 {
			p.hook.at = gen.Index(t, 40, "at")
		}
		p.hook.throw = gen.Index(t, 3, "throw") == 0
		p.hook.gc = gen.Index(t, 20, "gc") == 0
		if depth+1 < len(w.dsts) && gen.Index(t, 3, "nest") != 0 {
			p.hook.plan = w.draw(depth + 1)
		}
	}
	hk := p.hook
	dst := func() reflect.Value {
		if x, ok := w.dsts[depth][typ]; ok {
			return x
		}
		x, _ := gen.Dst(t, d)
		w.dsts[depth][typ] = x
		return x
	}
	op := gen.Index(t, 11, "op")
	switch op {
	case 0, 1:
		p.what = "Encode"
		p.do = func() string {
			var buf bytes.Buffer
			n, err := zssz.Encode(hookedWriter{&buf, hk}, k.Ptr(), typ.S)
			if err != nil || n != len(k.Enc) || !bytes.Equal(buf.Bytes(), k.Enc) {
				return fmt.Sprintf("%d, %v, %s instead of %s", n, err, ref.Short(buf.Bytes()), ref.Short(k.Enc))
			}
			return ""
		}
	case 2, 3, 4:
		in, kind := k.Enc, "valid"
		if gen.Index(t, 3, "valid") == 0 {
			in, kind = gen.Bytes(t, d)
		}
		want, wantErr := ref.Decode(d, in)
		sizes, _ := gen.Chunking(t)
		x := dst()
		if op == 4 {
			p.what = "DryCheck of " + kind
			p.do = func() string {
				if err := zssz.DryCheck(hk.reader(in, sizes), uint64(len(in)), typ.S); (err == nil) != (wantErr == nil) {
					return fmt.Sprintf("%v instead of %v\nbytes %s", err, wantErr, ref.Short(in))
				}
				return ""
			}
			break
		}
		p.what = "Decode of " + kind
		p.do = func() string {
			err := zssz.Decode(hk.reader(in, sizes), uint64(len(in)), x.Interface(), typ.S)
			if (err == nil) != (wantErr == nil) {
				return fmt.Sprintf("%v instead of %v\nbytes %s", err, wantErr, ref.Short(in))
			}
			return differs(d, x, want, err)
		}
	case 5:
		if d.FuzzMin > 3000 {
			return w.draw(depth)
		}
		p.what = "DecodeFuzzBytes"
		in := make([]byte, int(d.FuzzMin)+gen.Index(t, 100, "more"))
		(&bridge.Rng{S: gen.Seed(t, "fuzz")}).Fill(in)
		alone := reflect.New(typ.T)
		n, err := z.Fuzz(w.C, typ, bytes.NewReader(in), uint64(len(in)), alone.Interface())
		if err != nil {
			z.Violated(w.C, "fuzz decoding of %v: %v", typ, err)
		}
		want, err := bridge.Get(d, alone.Elem())
		if err != nil {
			z.Violated(w.C, "fuzz decoding of %v: %v", typ, err)
		}
		sizes, _ := gen.Chunking(t)
		x := dst()
		p.do = func() string {
			m, err := zssz.DecodeFuzzBytes(hk.reader(in, sizes), uint64(len(in)), x.Interface(), typ.S)
			if err != nil || m != n {
				return fmt.Sprintf("%d, %v instead of %d", m, err, n)
			}
			return differs(d, x, want, nil)
		}
	case 6, 7:
		object := gen.Index(t, 3, "object") == 0
		s, ok := typ.S.(types.SignedSSZ)
		if op == 7 && ok {
			p.what = "SigningRoot"
			want := ref.DefaultHasher.SigningRoot(d, k.V)
			p.do = func() string {
				if got := zssz.SigningRoot(hk.fn(object), k.Ptr(), s); got != want {
					return fmt.Sprintf("%x instead of %x", got, want)
				}
				return ""
			}
			break
		}
		p.what = "HashTreeRoot"
		want := ref.DefaultHasher.Root(d, k.V)
		p.do = func() string {
			if got := zssz.HashTreeRoot(hk.fn(object), k.Ptr(), typ.S); got != want {
				return fmt.Sprintf("%x instead of %x", got, want)
			}
			return ""
		}
	case 8:
		p.what = "Pretty"
		want := z.Pretty(w.C, typ, k.Ptr(), " ")
		size := uint64(len(k.Enc))
		p.do = func() string {
			var buf bytes.Buffer
			zssz.Pretty(hookedWriter{&buf, hk}, " ", k.Ptr(), typ.S)
			if buf.String() != want {
				return fmt.Sprintf("%.300q instead of %.300q", buf.String(), want)
			}
			if n := zssz.SizeOf(k.Ptr(), typ.S); n != size {
				return fmt.Sprintf("SizeOf is %d instead of %d", n, size)
			}
			return ""
		}
	case 9:
		count := uint64(gen.Index(t, 40, "count"))
		limit := count + uint64(gen.Index(t, 40, "more"))
		if gen.Index(t, 3, "far") == 0 {
			limit = count + gen.Seed(t, "far")>>1
		}
		if limit == 0 {
			limit = 1
		}
		c := merk.Make(count, limit, gen.Seed(t, "leaves"))
		object := gen.Index(t, 3, "object") == 0
		at := gen.Seed(t, "index") % limit
		leaf := func(i uint64) []byte { hk.tick(); return c.Leaf(i) }
		root, branch := c.Ref.Tree(c.Leaves, c.Depth), c.Ref.Branch(c.Leaves, c.Depth, at)
		p.what = "Merkleize and ConstructProof of " + c.String()
		p.do = func() string {
			if got := merkle.Merkleize(hk.fn(object), count, limit, leaf); got != root {
				return fmt.Sprintf("%x instead of %x", got, root)
			}
			got := merkle.ConstructProof(hk.fn(object), count, limit, leaf, at)
			if fmt.Sprint(got) != fmt.Sprint(branch) {
				return fmt.Sprintf("branch of %d is %x instead of %x", at, got, branch)
			}
			return ""
		}
	case 10:
		p.refuses = true
		p.hook = nil
		switch gen.Index(t, 4, "refused") {
		case 0:
			p.what = "Merkleize of 5 leaves with limit 4"
			p.do = func() string {
				merkle.Merkleize(z.Hash, 5, 4, func(uint64) []byte { return make([]byte, 32) })
				return "not refused"
			}
		case 1:
			p.what = "ConstructProof of index 4 with limit 4"
			p.do = func() string {
				merkle.ConstructProof(z.Hash, 3, 4, func(uint64) []byte { return make([]byte, 32) }, 4)
				return "not refused"
			}
		case 2:
			p.what = "GetSSZ of an unsupported type"
			p.do = func() string {
				zssz.GetSSZ((*struct {
					A uint8
					B []uint16
				})(nil))
				return "not refused"
			}
		case 3:
			// building the definition again is not refused, but it may be used from now on
			p.what, p.refuses = "SSZFactory", false
			p.do = func() string {
				s, err := types.SSZFactory(typ.T)
				if err != nil {
					return err.Error()
				}
				var buf bytes.Buffer
				if _, err := zssz.Encode(&buf, k.Ptr(), s); err != nil || !bytes.Equal(buf.Bytes(), k.Enc) {
					return fmt.Sprintf("Encode with it: %v, %s instead of %s", err, ref.Short(buf.Bytes()), ref.Short(k.Enc))
				}
				return ""
			}
		}
	}
	p.what += fmt.Sprintf(" (%.60s)", typ)
	note := strings.Repeat("  ", depth) + p.what
	if hk := p.hook; hk != nil {
		note += fmt.Sprintf(", at callback %d: operation=%v panic=%v", hk.at, hk.plan != nil, hk.throw)
	}
	w.log = append(w.log, note)
	return p
}

func differs(d *ref.Desc, x reflect.Value, want *ref.Val, err error) string {
	if err != nil {
		return ""
	}
	got, err := bridge.Get(d, x.Elem())
	if err != nil {
		return "an invalid value: " + err.Error()
	}
	if !ref.Equal(got, want) {
		return ref.Diff(d, got, want)
	}
	return ""
}

// TestCallbacks runs operations from within the readers, writers and hash functions of others, and lets those panic.
func TestCallbacks(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		w := &world{C: c}
		for i := range w.dsts {
			w.dsts[i] = map[*z.Typ]reflect.Value{}
		}
		for i, n := 0, 1+gen.Index(c.T, 3, "cases"); i < n; i++ {
			typ := gen.Type(c.T)
			v := gen.Value(c.T, typ.D, 200)
			w.cases = append(w.cases, &gen.Case{Typ: typ, V: v, Obj: bridge.New(typ.D, v, gen.Noise(c.T)), Enc: ref.Encode(typ.D, v)})
		}
		nested, thrown := 0, 0
		for i, n := 0, 2+gen.Index(c.T, 8, "steps"); i < n; i++ {
			p := w.draw(0)
			p.run(&w.out)
			for q := p; q != nil && q.hook != nil && q.hook.fired; q = q.hook.plan {
				if q.hook.plan != nil {
					nested++
				}
				if q.hook.throw {
					thrown++
				}
			}
			if len(w.out) > 0 {
				z.Violated(c, "%s\nhistory (indented: from within a callback of the next):\n%s", strings.Join(w.out, "\n"), strings.Join(w.log, "\n"))
			}
		}
		for _, k := range w.cases {
			if bad := differs(k.D(), k.Obj, k.V, nil); bad != "" {
				z.Violated(c, "a value has changed: %s\nhistory:\n%s", bad, strings.Join(w.log, "\n"))
			}
		}
		c.Label("nested=%v, thrown=%v", nested > 0, thrown > 0)
		if nested > 0 || thrown > 0 {
			c.NonTrivial(func() any { return map[string]any{"history": w.log} }, strings.Join(w.log, "\n"))
		}
	})
}
