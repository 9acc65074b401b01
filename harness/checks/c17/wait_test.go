package c17

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"reflect"
	"sync"
	"testing"

	"github.com/protolambda/zssz/htr"

	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/z"
)

// gate lets an operation wait at a callback until the others are done.
type gate struct {
	at, n   int
	arrived func() // the operation waits or has ended
	open    chan struct{}
}

func (g *gate) pass() {
	g.n++
	if g.n-1 == g.at {
		g.arrived()
		<-g.open
	}
}

type gateReader struct {
	r io.Reader
	*gate
}

func (r gateReader) Read(p []byte) (int, error) { r.pass(); return r.r.Read(p) }

type gateWriter struct {
	w io.Writer
	*gate
}

func (w gateWriter) Write(p []byte) (int, error) { w.pass(); return w.w.Write(p) }

// waiting runs an operation that waits at some callback for the gate.
func (it *item) waiting(t z.TB, op int, g *gate) {
	defer g.arrived()
	k, typ := it.k, it.shared
	switch op {
	case 0:
		var buf bytes.Buffer
		if n, err := z.EncodeTo(t, typ, k.Ptr(), gateWriter{&buf, g}); err != nil || n != len(k.Enc) || !bytes.Equal(buf.Bytes(), k.Enc) {
			z.Violated(t, "encoding of %s to a slow writer: %d, %v, %s instead of %s", typ, n, err, ref.Short(buf.Bytes()), ref.Short(k.Enc))
		}
	case 1:
		dst := reflect.New(typ.T)
		if err := z.Decode(t, typ, gateReader{bytes.NewReader(k.Enc), g}, uint64(len(k.Enc)), dst.Interface()); err != nil {
			z.Violated(t, "decoding of %s from a slow reader: %v\nbytes %s", typ, err, ref.Short(k.Enc))
		}
		if got, err := bridge.Get(k.D(), dst.Elem()); err != nil || !ref.Equal(got, k.V) {
			z.Violated(t, "decoding of %s from a slow reader gave another value (%v)\nbytes %s", typ, err, ref.Short(k.Enc))
		}
	case 2:
		if err := z.DryCheck(t, typ, gateReader{bytes.NewReader(k.Enc), g}, uint64(len(k.Enc))); err != nil {
			z.Violated(t, "dry check of %s from a slow reader: %v\nbytes %s", typ, err, ref.Short(k.Enc))
		}
	case 3:
		if got := z.Root(t, typ, k.Ptr(), htr.HashFn(func(b []byte) [32]byte { g.pass(); return sha256.Sum256(b) })); got != it.root {
			z.Violated(t, "hashing of %s with a slow hash gave %x, alone %x", typ, got, it.root)
		}
	}
}

// TestWaiting: operations that wait in their readers, writers or hash functions do not hold up others,
// be these unrelated or on the other end of a pipe.
func TestWaiting(t *testing.T) {
	h.Check(t, 0.4, func(c *h.C) {
		var its []*item
		for i, n := 0, 1+gen.Index(c.T, 3, "items"); i < n; i++ {
			it := mk(c)
			it.shared = z.Build(c, it.k.Typ.T, it.k.D())
			its = append(its, it)
		}
		log := ""
		open := make(chan struct{})
		var stuck, others sync.WaitGroup
		r := &rec{}
		var all sync.WaitGroup
		for i, n := 0, gen.Index(c.T, 6, "waiting"); i < n; i++ {
			it, op := gen.From(c.T, its, "item"), gen.Index(c.T, 4, "op")
			var once sync.Once
			stuck.Add(1)
			g := &gate{at: gen.Index(c.T, 12, "at"), open: open, arrived: func() { once.Do(stuck.Done) }}
			log += fmt.Sprintf("op %d on %.60s waits at callback %d; ", op, it.k.Typ, g.at)
			all.Add(1)
			go func() { defer all.Done(); it.waiting(r, op, g) }()
		}
		stuck.Wait()
		var fns []func(z.TB)
		for i, n := 0, gen.Index(c.T, 4, "others"); i < n; i++ {
			it, op := gen.From(c.T, its, "item"), gen.Index(c.T, len(opNames), "op")
			dst, _ := gen.Dst(c.T, it.k.D())
			log += fmt.Sprintf("%s on %.60s; ", opNames[op], it.k.Typ)
			fns = append(fns, func(t z.TB) { it.do(t, op, dst) })
		}
		for i, n := 0, gen.Index(c.T, 4, "pipes"); i < n; i++ {
			it, msgs, dry := gen.From(c.T, its, "item"), 1+gen.Index(c.T, 3, "messages"), gen.Index(c.T, 3, "dry") == 0
			log += fmt.Sprintf("%d messages of %.60s over a pipe (dry %v); ", msgs, it.k.Typ, dry)
			pr, pw := io.Pipe()
			k := it.k
			fns = append(fns, func(t z.TB) {
				defer pw.Close()
				for j := 0; j < msgs; j++ {
					if n, err := z.EncodeTo(t, it.shared, k.Ptr(), pw); err != nil || n != len(k.Enc) {
						z.Violated(t, "encoding of %s to a pipe: %d, %v", it.shared, n, err)
					}
				}
			}, func(t z.TB) {
				defer pr.Close()
				dst := reflect.New(it.shared.T)
				for j := 0; j < msgs; j++ {
					if dry {
						if err := z.DryCheck(t, it.shared, pr, uint64(len(k.Enc))); err != nil {
							z.Violated(t, "dry check of message %d of %s from a pipe: %v", j, it.shared, err)
						}
						continue
					}
					if err := z.Decode(t, it.shared, pr, uint64(len(k.Enc)), dst.Interface()); err != nil {
						z.Violated(t, "decoding of message %d of %s from a pipe: %v", j, it.shared, err)
					}
					if got, err := bridge.Get(k.D(), dst.Elem()); err != nil || !ref.Equal(got, k.V) {
						z.Violated(t, "decoding of message %d of %s from a pipe gave another value (%v)", j, it.shared, err)
					}
				}
				if n, err := io.Copy(io.Discard, pr); n != 0 || err != nil { // takes empty writes, too
					z.Violated(t, "after %d messages of %s the pipe has %d bytes left (%v)", msgs, it.shared, n, err)
				}
			})
		}
		for _, fn := range fns {
			others.Add(1)
			go func(fn func(z.TB)) { defer others.Done(); fn(r) }(fn)
		}
		others.Wait()
		close(open)
		all.Wait()
		if r.msg != "" {
			c.Fatalf("%s\nhistory: %s", r.msg, log)
		}
		c.Label("waiting operations")
		if len(fns) > 0 {
			c.NonTrivial(func() any { return log }, log)
		}
	})
}
