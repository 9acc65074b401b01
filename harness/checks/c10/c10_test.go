package c10

import (
	"bytes"
	"errors"
	"io"
	"os"
	"testing"

	"zverif/blocks"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/z"
)

func TestMain(m *testing.M) { h.Main(m) }

func TestWriter(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		k := gen.NewCase(c.T)
		if len(k.Enc) > 6000 {
			k = gen.NewCase(c.T)
		}
		// without failure
		w := &gen.Writer{Room: -1}
		n, err := z.EncodeTo(c, k.Typ, k.Ptr(), gen.WriterAbilities(c.T, w))
		if err != nil || n != len(w.Got) || !bytes.Equal(w.Got, k.Enc) {
			z.Violated(c, "Encode of %s returned %d, %v; wrote %d bytes, want nil and %d bytes", k.Typ, n, err, len(w.Got), len(k.Enc))
		}
		full := len(k.Enc)
		var rooms []int
		if full <= 40 {
			for i := 0; i <= full; i++ {
				rooms = append(rooms, i)
			}
			c.Label("every position")
		} else {
			rooms = []int{0, 1, 2, 3, 4, 5, full - 1, full}
			for i := 0; i < 10; i++ {
				rooms = append(rooms, gen.Index(c.T, full+1, "room"))
			}
			c.Label("sampled positions")
		}
		failing(c, k, rooms)
		if full > 1 && w.Calls > 1 {
			c.NonTrivial(k.Sample, k.Typ.T, k.Enc)
		}
	})
}

// failing encodes to writers with room for so many bytes.
func failing(c *h.C, k *gen.Case, rooms []int) {
	full := len(k.Enc)
	fault := gen.Fault(c.T)
	for _, room := range rooms {
		for _, early := range []bool{false, true} {
			w := &gen.Writer{Room: room, Early: early, Err: fault}
			n, err := z.EncodeTo(c, k.Typ, k.Ptr(), gen.WriterAbilities(c.T, w))
			if n != len(w.Got) {
				z.Violated(c, "Encode of %s returned %d, the writer accepted %d of %d (room %d, early %v)", k.Typ, n, len(w.Got), full, room, early)
			}
			if !bytes.Equal(w.Got, k.Enc[:len(w.Got)]) {
				z.Violated(c, "Encode of %s: the bytes before the failure are no prefix (room %d, early %v)\ngot  %s\nfull %s", k.Typ, room, early, ref.Short(w.Got), ref.Short(k.Enc))
			}
			if w.Failed() && !errors.Is(err, fault) {
				z.Violated(c, "Encode of %s: writer failed after %d of %d bytes, returned error %v (early %v)", k.Typ, room, full, err, early)
			}
			if !w.Failed() && (err != nil || n != full) {
				z.Violated(c, "Encode of %s: writer with room for %d did not fail, returned %d, %v, want %d", k.Typ, room, n, err, full)
			}
			if w.Late != 0 {
				z.Violated(c, "Encode of %s: %d writes after the failure at %d of %d bytes", k.Typ, w.Late, room, full)
			}
		}
	}
}

// TestStd: writers of the standard library, which may have been written to before, and ones that are closed.
func TestStd(t *testing.T) {
	h.Check(t, 0.5, func(c *h.C) {
		k := gen.NewCase(c.T)
		w := gen.StdSink(c.T)
		n, err := z.EncodeTo(c, k.Typ, k.Ptr(), w.Writer)
		got := w.Got()
		if err != nil || n != len(k.Enc) || !bytes.Equal(got, k.Enc) {
			z.Violated(c, "Encode of %s to a %s returned %d, %v\ngot  %s\nwant %s", k.Typ, w.Name, n, err, ref.Short(got), ref.Short(k.Enc))
		}
		c.Label("%s", w.Name)
		if len(k.Enc) > 1 {
			c.NonTrivial(k.Sample, k.Typ.T, k.Enc, w.Name)
		}
		if len(k.Enc) > 0 && gen.Index(c.T, 4, "bad file") == 0 {
			// a full device, a file that is not open for writing, a closed one
			name := "/dev/full"
			if gen.Index(c.T, 2, "full") > 0 {
				name = os.DevNull
			}
			f, err := os.OpenFile(name, os.O_RDWR, 0)
			if name == os.DevNull && err == nil {
				if gen.Index(c.T, 2, "read-only") == 0 {
					name = "a file to read"
					_ = f.Close()
					f, err = os.Open(os.DevNull)
				} else {
					name = "a closed file"
					_ = f.Close()
				}
			}
			if err != nil {
				z.Broken(c, "%s: %v", name, err)
			}
			n, err := z.EncodeTo(c, k.Typ, k.Ptr(), f)
			_ = f.Close()
			if err == nil || n != 0 {
				z.Violated(c, "Encode of %s to %s returned %d, %v", k.Typ, name, n, err)
			}
			c.Label("%s", name)
		}
		if len(k.Enc) > 0 && gen.Index(c.T, 4, "closed") == 0 {
			// the reader takes some bytes of a pipe and goes
			room := gen.Index(c.T, len(k.Enc), "room")
			r, pw := io.Pipe()
			var took []byte
			gone := make(chan struct{})
			go func() {
				defer close(gone)
				took = make([]byte, room)
				m, _ := io.ReadFull(r, took)
				took = took[:m]
				_ = r.CloseWithError(gen.ErrInjected)
			}()
			n, err := z.EncodeTo(c, k.Typ, k.Ptr(), pw)
			_ = pw.Close()
			<-gone
			if !errors.Is(err, gen.ErrInjected) || n != room || !bytes.Equal(took, k.Enc[:room]) {
				z.Violated(c, "Encode of %s to a pipe that is closed after %d bytes returned %d, %v; the pipe delivered %s", k.Typ, room, n, err, ref.Short(took))
			}
		}
	})
}

// TestBlocks: writers that fail near multiples of powers of two.
func TestBlocks(t *testing.T) {
	h.Check(t, 0.01, func(c *h.C) {
		k := blocks.Case(c)
		rooms := []int{-1}
		for i := 0; i < 4; i++ {
			rooms = append(rooms, blocks.Position(c, len(k.Enc)))
		}
		failing(c, k, rooms)
		c.NonTrivial(k.Sample, k.Typ.T, k.Enc)
	})
}
