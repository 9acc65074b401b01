package c17

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"sync"
	"testing"

	"github.com/protolambda/zssz/types"

	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/reg"
	"zverif/z"
)

func TestMain(m *testing.M) { h.Main(m) }

// rec records failures of goroutines, for the test to report.
type rec struct {
	mu  sync.Mutex
	msg string
}

func (r *rec) Helper()             {}
func (r *rec) Logf(string, ...any) {}
func (r *rec) Fatalf(f string, a ...any) {
	r.mu.Lock()
	if r.msg == "" {
		r.msg = fmt.Sprintf(f, a...)
	}
	r.mu.Unlock()
	runtime.Goexit()
}

// item is a shared definition with a shared value and what the operations give when run alone.
type item struct {
	k       *gen.Case
	shared  *z.Typ
	root    [32]byte
	signing [32]byte
	pretty  string
	bad     []byte
	badOK   bool
	badV    *ref.Val
	fz      []byte
	fzV     *ref.Val
	fzN     uint64
	figures [5]uint64
}

func figures(t z.TB, s types.SSZ) (out [5]uint64) {
	z.Try(t, "figures", func() {
		out = [5]uint64{s.FixedLen(), s.MinLen(), s.MaxLen(), s.FuzzMinLen(), s.FuzzMaxLen()}
	})
	return
}

func mk(c *h.C) *item {
	k := gen.NewCase(c.T)
	it := &item{k: k}
	// the results in isolation, from a definition and an object of their own
	own := bridge.New(k.D(), k.V, nil).Interface()
	it.root = ref.DefaultHasher.Root(k.D(), k.V)
	if k.Typ.T.Kind() == reflect.Struct {
		it.signing = ref.DefaultHasher.SigningRoot(k.D(), k.V)
	}
	it.pretty = z.Pretty(c, k.Typ, own, "\t")
	it.bad, _ = gen.Bytes(c.T, k.D())
	v, err := ref.Decode(k.D(), it.bad)
	it.badOK, it.badV = err == nil, v
	if n := k.D().FuzzMin; n < 3000 {
		it.fz = make([]byte, int(n)+gen.Index(c.T, 100, "more"))
		(&bridge.Rng{S: gen.Seed(c.T, "fuzz")}).Fill(it.fz)
		dst := bridge.New(k.D(), ref.Zero(k.D()), nil)
		it.fzN, err = z.Fuzz(c, k.Typ, bytes.NewReader(it.fz), uint64(len(it.fz)), dst.Interface())
		if err == nil {
			it.fzV, _ = bridge.Get(k.D(), dst.Elem())
		}
	}
	it.figures = figures(c, k.Typ.S)
	return it
}

var opNames = []string{"encode", "size", "root", "signing", "pretty", "decode", "decode any", "dry check", "fuzz", "figures"}

// do runs one operation and compares with the result in isolation.
func (it *item) do(t z.TB, op int, dst reflect.Value) {
	k, typ := it.k, it.shared
	switch opNames[op] {
	case "encode":
		if got := z.Encode(t, typ, k.Ptr()); !bytes.Equal(got, k.Enc) {
			z.Violated(t, "concurrent encoding of %s gave %s, alone %s", typ, ref.Short(got), ref.Short(k.Enc))
		}
	case "size":
		if got := z.Size(t, typ, k.Ptr()); got != uint64(len(k.Enc)) {
			z.Violated(t, "concurrent sizing of %s gave %d, alone %d", typ, got, len(k.Enc))
		}
	case "root":
		if got := z.Root(t, typ, k.Ptr(), z.Hash); got != it.root {
			z.Violated(t, "concurrent hashing of %s gave %x, alone %x", typ, got, it.root)
		}
	case "signing":
		if k.Typ.T.Kind() == reflect.Struct {
			if got := z.Signing(t, typ, k.Ptr(), z.Hash); got != it.signing {
				z.Violated(t, "concurrent signing root of %s gave %x, alone %x", typ, got, it.signing)
			}
		}
	case "pretty":
		if got := z.Pretty(t, typ, k.Ptr(), "\t"); got != it.pretty {
			z.Violated(t, "concurrent printing of %s gave\n%s\nalone\n%s", typ, got, it.pretty)
		}
	case "decode", "decode any":
		in, want := k.Enc, k.V
		ok := true
		if opNames[op] == "decode any" {
			in, want, ok = it.bad, it.badV, it.badOK
		}
		err := z.Decode(t, typ, bytes.NewReader(in), uint64(len(in)), dst.Interface())
		if (err == nil) != ok {
			z.Violated(t, "concurrent decoding of %s: %v, alone ok=%v\nbytes %s", typ, err, ok, ref.Short(in))
		}
		if ok {
			if got, err := bridge.Get(k.D(), dst.Elem()); err != nil || !ref.Equal(got, want) {
				z.Violated(t, "concurrent decoding of %s gave another value (%v)\nbytes %s", typ, err, ref.Short(in))
			}
		}
	case "dry check":
		if err := z.DryCheck(t, typ, bytes.NewReader(it.bad), uint64(len(it.bad))); (err == nil) != it.badOK {
			z.Violated(t, "concurrent dry check of %s: %v, alone ok=%v\nbytes %s", typ, err, it.badOK, ref.Short(it.bad))
		}
	case "fuzz":
		if it.fzV == nil {
			return
		}
		n, err := z.Fuzz(t, typ, bytes.NewReader(it.fz), uint64(len(it.fz)), dst.Interface())
		if err != nil || n != it.fzN {
			z.Violated(t, "concurrent fuzz decoding of %s: %d, %v, alone %d", typ, n, err, it.fzN)
		}
		if got, err := bridge.Get(k.D(), dst.Elem()); err != nil || !ref.Equal(got, it.fzV) {
			z.Violated(t, "concurrent fuzz decoding of %s gave another value (%v)", typ, err)
		}
	case "figures":
		if got := figures(t, typ.S); got != it.figures {
			z.Violated(t, "concurrent figures of %s: %v, alone %v", typ, got, it.figures)
		}
	}
}

// schedule draws what each goroutine does.
func schedule(c *h.C, items int) [][][2]int {
	n := 2 + gen.Index(c.T, 7, "goroutines")
	if gen.Index(c.T, 8, "many") == 0 {
		n = 9 + gen.Index(c.T, 40, "goroutines")
	}
	out := make([][][2]int, n)
	same := gen.Index(c.T, 2, "same") == 0 // everybody does the same
	for g := range out {
		if same && g > 0 {
			out[g] = out[0]
			continue
		}
		for i := 0; i < 2+gen.Index(c.T, 8, "ops"); i++ {
			out[g] = append(out[g], [2]int{gen.Index(c.T, items, "item"), gen.Index(c.T, len(opNames), "op")})
		}
	}
	return out
}

func describe(its []*item, sched [][][2]int) string {
	s := ""
	for i, it := range its {
		s += fmt.Sprintf("item %d: %s; ", i, it.k.Typ)
	}
	for g, ops := range sched {
		s += fmt.Sprintf("goroutine %d:", g)
		for _, o := range ops {
			s += fmt.Sprintf(" %s(%d)", opNames[o[1]], o[0])
		}
		s += "; "
	}
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

// together runs the functions at once and reports what one of them found.
func together(c *h.C, fns []func(t z.TB)) {
	r := &rec{}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for _, fn := range fns {
		wg.Add(1)
		go func(fn func(t z.TB)) {
			defer wg.Done()
			<-start
			fn(r)
		}(fn)
	}
	close(start)
	wg.Wait()
	if r.msg != "" {
		c.Fatalf("%s", r.msg)
	}
}

var fresh int

// TestAFresh runs first: goroutines build definitions of types that nothing has been built for before, and use them at once.
// What they should find comes from the model, or is compared afterwards.
func TestAFresh(t *testing.T) {
	h.Check(t, 0.5, func(c *h.C) {
		type result struct {
			item int
			out  string
			fz   []byte
			n    uint64
			v    *ref.Val
		}
		var its []*item
		for i := 0; i < 1+gen.Index(c.T, 3, "items"); i++ {
			e := gen.Entry(c.T, 2)
			rt := e.T
			for n := gen.Index(c.T, 4, "wrap"); n > 0; n-- {
				switch gen.Index(c.T, 4, "how") {
				case 0:
					rt = reflect.PointerTo(rt)
				case 1:
					rt = reflect.ArrayOf(1+gen.Index(c.T, 3, "len"), rt)
				default:
					// a struct type of its own
					fresh++
					rt = reflect.StructOf([]reflect.StructField{{Name: fmt.Sprintf("F%d", fresh), Type: rt}, {Name: "X", Type: reflect.TypeOf(uint16(0))}})
				}
			}
			d, err := ref.FromType(rt)
			if err != nil || !reg.Usable(d) {
				rt, d = e.T, e.D
			}
			typ := &z.Typ{T: rt, D: d}
			k := gen.CaseOf(c.T, typ)
			it := &item{k: k, shared: typ, root: ref.DefaultHasher.Root(d, k.V)}
			if rt.Kind() == reflect.Struct {
				it.signing = ref.DefaultHasher.SigningRoot(d, k.V)
			}
			it.bad, _ = gen.Bytes(c.T, d)
			v, err := ref.Decode(d, it.bad)
			it.badOK, it.badV = err == nil, v
			if d.FuzzMin < 3000 {
				it.fz = make([]byte, int(d.FuzzMin)+gen.Index(c.T, 100, "more"))
				(&bridge.Rng{S: gen.Seed(c.T, "fuzz")}).Fill(it.fz)
			}
			its = append(its, it)
		}
		sched := schedule(c, len(its))
		found := make([][]result, len(sched))
		var fns []func(z.TB)
		for g, ops := range sched {
			dsts := make([]reflect.Value, len(its))
			for i, it := range its {
				dsts[i] = bridge.New(it.k.D(), ref.Zero(it.k.D()), nil)
			}
			g := g
			fns = append(fns, func(t z.TB) {
				mine := map[int]*item{}
				for _, o := range ops {
					it := mine[o[0]]
					if it == nil {
						x := *its[o[0]]
						it = &x
						it.shared = z.Build(t, it.k.Typ.T, it.k.D())
						mine[o[0]] = it
					}
					switch d := it.k.D(); opNames[o[1]] {
					case "pretty":
						found[g] = append(found[g], result{item: o[0], out: z.Pretty(t, it.shared, it.k.Ptr(), "\t")})
					case "fuzz":
						dst := bridge.New(d, ref.Zero(d), nil)
						r := result{item: o[0], fz: it.fz}
						n, err := z.Fuzz(t, it.shared, bytes.NewReader(it.fz), uint64(len(it.fz)), dst.Interface())
						if err == nil {
							r.n = n
							r.v, _ = bridge.Get(d, dst.Elem())
						}
						found[g] = append(found[g], r)
					case "figures":
						if f := figures(t, it.shared.S); f[0] != d.FixedLen || f[1] != d.Min || f[2] != d.Max {
							z.Violated(t, "concurrent figures of %s: %v, want %d, %d, %d", it.shared, f, d.FixedLen, d.Min, d.Max)
						}
					default:
						it.do(t, o[1], dsts[o[0]])
					}
				}
			})
		}
		together(c, fns)
		for _, rs := range found {
			for _, r := range rs {
				it := its[r.item]
				typ := z.Build(c, it.k.Typ.T, it.k.D())
				if r.fz == nil {
					if want := z.Pretty(c, typ, it.k.Ptr(), "\t"); r.out != "" && r.out != want {
						z.Violated(c, "concurrent printing of %s gave\n%s\nalone\n%s", typ, r.out, want)
					}
					continue
				}
				dst := bridge.New(it.k.D(), ref.Zero(it.k.D()), nil)
				n, err := z.Fuzz(c, typ, bytes.NewReader(r.fz), uint64(len(r.fz)), dst.Interface())
				var v *ref.Val
				if err == nil {
					v, _ = bridge.Get(it.k.D(), dst.Elem())
				}
				if err == nil && n != r.n || (v == nil) != (r.v == nil) || v != nil && !ref.Equal(v, r.v) {
					z.Violated(c, "concurrent fuzz decoding of %s gave another result (%d) than alone (%d, %v)", typ, r.n, n, err)
				}
			}
		}
		c.Label("%d goroutines", min(len(sched), 9))
		c.NonTrivial(func() any { return describe(its, sched) }, describe(its, sched))
	})
}

// TestShared: goroutines share new definitions and values.
func TestShared(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		var its []*item
		for i := 0; i < 1+gen.Index(c.T, 2, "items"); i++ {
			it := mk(c)
			it.shared = z.Build(c, it.k.Typ.T, it.k.D())
			its = append(its, it)
		}
		sched := schedule(c, len(its))
		var fns []func(z.TB)
		for _, ops := range sched {
			dsts := make([]reflect.Value, len(its))
			for i, it := range its {
				dsts[i], _ = gen.Dst(c.T, it.k.D())
			}
			fns = append(fns, func(t z.TB) {
				for _, o := range ops {
					its[o[0]].do(t, o[1], dsts[o[0]])
				}
			})
		}
		before := make([][]byte, len(its))
		for i, it := range its {
			before[i] = bridge.Snapshot(it.k.Obj.Elem())
		}
		together(c, fns)
		for i, it := range its {
			if !bytes.Equal(before[i], bridge.Snapshot(it.k.Obj.Elem())) {
				z.Violated(c, "a shared value of %s was modified", it.k.Typ)
			}
		}
		c.Label("%d goroutines", min(len(sched), 9))
		c.NonTrivial(func() any { return describe(its, sched) }, describe(its, sched))
	})
}

// TestConstruction: definitions are built concurrently, of the same and of different types, and used at once.
func TestConstruction(t *testing.T) {
	h.Check(t, 0.5, func(c *h.C) {
		var its []*item
		for i := 0; i < 1+gen.Index(c.T, 3, "items"); i++ {
			its = append(its, mk(c))
		}
		sched := schedule(c, len(its))
		var fns []func(z.TB)
		for _, ops := range sched {
			dsts := make([]reflect.Value, len(its))
			for i, it := range its {
				dsts[i] = bridge.New(it.k.D(), ref.Zero(it.k.D()), nil)
			}
			fns = append(fns, func(t z.TB) {
				for _, o := range ops {
					mine := *its[o[0]]
					mine.shared = z.Build(t, mine.k.Typ.T, mine.k.D())
					mine.do(t, o[1], dsts[o[0]])
				}
			})
		}
		together(c, fns)
		c.Label("%d goroutines", min(len(sched), 9))
		c.NonTrivial(func() any { return describe(its, sched) }, describe(its, sched))
	})
}
