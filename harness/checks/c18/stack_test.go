package c18

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"testing"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/types"

	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/reg"
	"zverif/z"
)

// grow makes the stack grow (and move, if it was small), and fills what it uses.
//
//go:noinline
func grow(n int, fill byte) (sum byte) {
	var a [512]byte
	for i := range a {
		a[i] = fill
	}
	if n > 0 {
		sum = grow(n-1, fill)
	}
	for i := range a {
		sum += a[i]
	}
	return
}

// mover moves the stack of its goroutine every now and then.
type mover struct {
	every, n int
	gc       bool
}

func (m *mover) move() {
	m.n++
	if m.n%m.every != 0 {
		return
	}
	grow(4<<uint(m.n/m.every%6), 0xee)
	if m.gc && m.n < 8 {
		runtime.GC() // shrinks stacks
		done := make(chan byte)
		for i := 0; i < 4; i++ { // others take the stack that was left
			go func() { done <- grow(30, 0xdd) }()
		}
		for i := 0; i < 4; i++ {
			<-done
		}
	}
}

type movingReader struct {
	io.Reader
	m *mover
}

func (r movingReader) Read(p []byte) (int, error) { r.m.move(); return r.Reader.Read(p) }

type movingWriter struct {
	w io.Writer
	m *mover
}

func (w movingWriter) Write(p []byte) (int, error) { w.m.move(); return w.w.Write(p) }

// local is what a program does with a local variable that nothing else points to.
type local struct {
	decode func(r io.Reader, n uint64, s types.SSZ, fuzz bool) (any, error)
	all    func(v any, w, pw io.Writer, h htr.MerkleFn, s types.SSZ) (size uint64, root [32]byte, err error)
}

func localOf[T any]() (reflect.Type, local) {
	return reflect.TypeOf((*T)(nil)).Elem(), local{
		decode: func(r io.Reader, n uint64, s types.SSZ, fuzz bool) (any, error) {
			x, err := decodeLocal[T](r, n, s, fuzz)
			return &x, err
		},
		all: func(v any, w, pw io.Writer, h htr.MerkleFn, s types.SSZ) (uint64, [32]byte, error) {
			return readLocal[T](*v.(*T), w, pw, h, s)
		},
	}
}

//go:noinline
func decodeLocal[T any](r io.Reader, n uint64, s types.SSZ, fuzz bool) (T, error) {
	var x T
	var err error
	if fuzz {
		_, err = zssz.DecodeFuzzBytes(r, n, &x, s)
	} else {
		err = zssz.Decode(r, n, &x, s)
	}
	return x, err
}

//go:noinline
func readLocal[T any](v T, w, pw io.Writer, h htr.MerkleFn, s types.SSZ) (size uint64, root [32]byte, err error) {
	x := v
	_, err = zssz.Encode(w, &x, s)
	size = zssz.SizeOf(&x, s)
	root = zssz.HashTreeRoot(h, &x, s)
	zssz.Pretty(pw, "\t", &x, s)
	return
}

var locals = map[reflect.Type]local{}
var localTypes []reflect.Type

func add[T any]() {
	t, l := localOf[T]()
	locals[t] = l
	localTypes = append(localTypes, t)
}

func init() {
	add[uint8]()
	add[uint64]()
	add[reg.Root]()
	add[[5]uint16]()
	add[[300]bool]()
	add[[70]uint64]()
	add[reg.SmallT]()
	add[reg.VarT]()
	add[reg.FixedT]()
	add[reg.ComplexT]()
	add[reg.EmbT]()
	add[reg.OmitT]()
	add[reg.SquashDeep]()
	add[reg.PtrT]()
	add[reg.Wide33]()
	add[reg.Align]()
	add[reg.Validator]()
	add[reg.Attestation]()
	add[reg.BlockBody]()
	add[reg.Checkpoint]()
	add[reg.AttestationData]()
	add[reg.BlVal]()
	add[reg.Bv257]()
	add[[3]reg.VarT]()
	add[[2]*reg.SmallT]()
	add[struct{ A, B uint32 }]()
}

// TestStack: the object is a local variable, and the stack moves while readers, writers and hash functions run.
func TestStack(t *testing.T) {
	h.Check(t, 0.1, func(c *h.C) {
		gt := gen.From(c.T, localTypes, "local")
		d, err := ref.FromType(gt)
		if err != nil {
			z.Broken(c, "%v: %v", gt, err)
		}
		typ := z.Get(c, gt, d)
		l := locals[gt]
		k := &gen.Case{Typ: typ, V: gen.Value(c.T, d, 300)}
		k.Enc = ref.Encode(d, k.V)
		k.Obj = bridge.New(d, k.V, nil)
		m := &mover{every: 1 + gen.Index(c.T, 3, "every"), gc: gen.Index(c.T, 16, "gc") == 0}
		sizes, _ := gen.Chunking(c.T)
		alone := z.Pretty(c, typ, k.Ptr(), "\t")
		fz := make([]byte, int(d.FuzzMin)+gen.Index(c.T, 100, "more"))
		(&bridge.Rng{S: gen.Seed(c.T, "fuzz")}).Fill(fz)
		fresh := reflect.New(gt)
		_, ferr := z.Fuzz(c, typ, bytes.NewReader(fz), uint64(len(fz)), fresh.Interface())

		bad := ""
		done := make(chan bool)
		go func() { // on a stack that is small at first
			defer close(done)
			p, st := z.Panics(func() {
				x, err := l.decode(movingReader{&gen.Reader{Data: k.Enc, Err: io.EOF, Sizes: sizes}, m}, uint64(len(k.Enc)), typ.S, false)
				if err != nil {
					bad = "decoding: " + err.Error()
					return
				}
				if got, err := bridge.Get(d, reflect.ValueOf(x).Elem()); err != nil || !ref.Equal(got, k.V) {
					bad = fmt.Sprintf("the decoded local variable holds something else (%v)", err)
				}
			})
			if p != nil {
				bad = fmt.Sprintf("decoding panics: %v\n%s", p, st)
			}
		}()
		<-done
		if bad == "" {
			done = make(chan bool)
			go func() {
				defer close(done)
				p, st := z.Panics(func() {
					x, err := l.decode(movingReader{&gen.Reader{Data: fz, Err: io.EOF, Sizes: sizes}, m}, uint64(len(fz)), typ.S, true)
					if (err == nil) != (ferr == nil) {
						bad = fmt.Sprintf("fuzz decoding: %v, into a new object: %v", err, ferr)
						return
					}
					if err != nil {
						return
					}
					a, err := bridge.Get(d, reflect.ValueOf(x).Elem())
					b, err2 := bridge.Get(d, fresh.Elem())
					if err != nil || err2 != nil || !ref.Equal(a, b) {
						bad = fmt.Sprintf("the fuzz-decoded local variable holds something else (%v, %v)", err, err2)
					}
				})
				if p != nil {
					bad = fmt.Sprintf("fuzz decoding panics: %v\n%s", p, st)
				}
			}()
			<-done
		}
		if bad == "" {
			done = make(chan bool)
			go func() {
				defer close(done)
				p, st := z.Panics(func() {
					var enc, text bytes.Buffer
					fn := htr.HashFn(func(b []byte) [32]byte { m.move(); return sha256.Sum256(b) })
					size, root, err := l.all(k.Ptr(), movingWriter{&enc, m}, movingWriter{&text, m}, fn, typ.S)
					switch {
					case err != nil || !bytes.Equal(enc.Bytes(), k.Enc):
						bad = fmt.Sprintf("the local variable encodes as %s (%v) instead of %s", ref.Short(enc.Bytes()), err, ref.Short(k.Enc))
					case size != uint64(len(k.Enc)):
						bad = fmt.Sprintf("size %d instead of %d", size, len(k.Enc))
					case root != ref.DefaultHasher.Root(d, k.V):
						bad = "another root"
					case text.String() != alone:
						bad = fmt.Sprintf("printed as %.300q instead of %.300q", text.String(), alone)
					}
				})
				if p != nil {
					bad = fmt.Sprintf("reading the local variable panics: %v\n%s", p, st)
				}
			}()
			<-done
		}
		if bad != "" {
			z.Violated(c, "%s, a local variable, while the stack moves: %s\nvalue %s", typ, bad, ref.Render(d, k.V))
		}
		c.Label("moves %v", m.n/m.every > 0)
		if m.n >= m.every && len(k.Enc) > 0 {
			c.NonTrivial(k.Sample, gt, k.Enc)
		}
	})
}
