package gen

import (
	"bufio"
	"bytes"
	"compress/flate"
	"io"
	"net"
	"os"
	"strings"
	"testing/iotest"

	"github.com/protolambda/zssz/dec"
	"pgregory.net/rapid"
)

// StdReader is a reader of the standard library that delivers Data and then ends.
type StdReader struct {
	io.Reader
	Name  string
	Close func()
}

func nop() {}

func must(err error) {
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
}

// onlyReader hides what else a reader can do.
type onlyReader struct{ io.Reader }

// file holds so many bytes, and stands somewhere else than at its start.
func file(before, data []byte) (*os.File, func()) {
	f, err := os.CreateTemp("", "zv-std-")
	must(err)
	_, err = f.Write(append(before[:len(before):len(before)], data...))
	must(err)
	_, err = f.Seek(int64(len(before)), io.SeekStart)
	must(err)
	return f, func() {
		must(f.Close())
		must(os.Remove(f.Name()))
	}
}

// Std makes a reader of the standard library that delivers data from where it stands: some have delivered other bytes before.
func Std(t *rapid.T, data []byte) *StdReader {
	before := bytes.Repeat([]byte{0xa7}, Index(t, 3, "before")*Index(t, 40, "bytes before"))
	all := append(before[:len(before):len(before)], data...)
	past := func(r io.Reader) io.Reader {
		_, err := io.ReadFull(r, make([]byte, len(before)))
		must(err)
		return r
	}
	cut := func(what string) int { return Index(t, len(data)+1, what) }
	switch Index(t, 18, "reader") {
	case 0:
		return &StdReader{past(bytes.NewReader(all)), "bytes.Reader", nop}
	case 1:
		return &StdReader{past(bytes.NewBuffer(all)), "bytes.Buffer", nop}
	case 2:
		return &StdReader{past(strings.NewReader(string(all))), "strings.Reader", nop}
	case 3:
		size := 16 + Index(t, 60, "size")
		var src io.Reader = bytes.NewReader(all)
		if Index(t, 2, "plain source") == 0 {
			src = onlyReader{src}
		}
		return &StdReader{past(bufio.NewReaderSize(src, size)), "bufio.Reader", nop}
	case 4:
		r := bufio.NewReader(onlyReader{bytes.NewReader(all)})
		return &StdReader{past(bufio.NewReadWriter(r, bufio.NewWriter(io.Discard))), "bufio.ReadWriter", nop}
	case 5:
		// what it delivers ends where its source goes on
		more := append(all[:len(all):len(all)], bytes.Repeat([]byte{0x3c}, Index(t, 20, "more"))...)
		return &StdReader{past(&io.LimitedReader{R: bytes.NewReader(more), N: int64(len(all))}), "io.LimitedReader", nop}
	case 6:
		more := append(all[:len(all):len(all)], bytes.Repeat([]byte{0x3c}, Index(t, 20, "more"))...)
		return &StdReader{io.NewSectionReader(bytes.NewReader(more), int64(len(before)), int64(len(data))), "io.SectionReader", nop}
	case 7:
		i := cut("first part")
		return &StdReader{io.MultiReader(bytes.NewReader(data[:i]), strings.NewReader(string(data[i:]))), "io.MultiReader", nop}
	case 8:
		return &StdReader{io.TeeReader(past(bytes.NewReader(all)), &bytes.Buffer{}), "io.TeeReader", nop}
	case 9:
		f, done := file(before, data)
		return &StdReader{f, "file", done}
	case 10:
		f, done := file(before, data)
		return &StdReader{bufio.NewReaderSize(f, 16+Index(t, 60, "size")), "bufio.Reader of a file", done}
	case 11:
		r, w, err := os.Pipe()
		must(err)
		gone := make(chan struct{})
		go func() {
			defer close(gone)
			i := len(data) / 2
			_, _ = w.Write(data[:i])
			_, _ = w.Write(data[i:])
			_ = w.Close()
		}()
		return &StdReader{r, "os.Pipe", func() { _ = r.Close(); <-gone }}
	case 12:
		r, w := io.Pipe()
		gone := make(chan struct{})
		i := cut("first part")
		go func() {
			defer close(gone)
			_, _ = w.Write(data[:i])
			_, _ = w.Write(data[i:])
			_ = w.Close()
		}()
		return &StdReader{r, "io.Pipe", func() { _ = r.Close(); <-gone }}
	case 13:
		i := cut("first part")
		b := net.Buffers{append([]byte{}, data[:i]...), {}, append([]byte{}, data[i:]...)}
		return &StdReader{&b, "net.Buffers", nop}
	case 14:
		var z bytes.Buffer
		w, err := flate.NewWriter(&z, 1)
		must(err)
		_, err = w.Write(data)
		must(err)
		must(w.Close())
		return &StdReader{flate.NewReader(&z), "flate", nop}
	case 16:
		// what a custom type definition has at hand
		dr := dec.NewDecodingReader(past(bytes.NewReader(all)))
		if Index(t, 2, "scope") == 0 {
			var err error
			if dr, err = dr.Scope(uint64(len(data))); err != nil {
				return &StdReader{iotest.ErrReader(err), "scope of a DecodingReader", nop}
			}
		}
		return &StdReader{dr, "DecodingReader", nop}
	case 15:
		return &StdReader{iotest.DataErrReader(iotest.HalfReader(bytes.NewReader(data))), "halves, EOF with the last bytes", nop}
	}
	// a file that cannot be read at an offset, by its other name
	r, w, err := os.Pipe()
	must(err)
	gone := make(chan struct{})
	go func() {
		defer close(gone)
		_, _ = w.Write(data)
		_ = w.Close()
	}()
	return &StdReader{bufio.NewReaderSize(r, 16), "bufio.Reader of os.Pipe", func() { _ = r.Close(); <-gone }}
}

// StdWriter is a writer of the standard library. Got closes it and tells what it was given.
type StdWriter struct {
	io.Writer
	Name string
	Got  func() []byte
}

// StdSink makes a writer of the standard library, which may hold other bytes before.
func StdSink(t *rapid.T) *StdWriter {
	before := bytes.Repeat([]byte{0xa7}, Index(t, 3, "before")*Index(t, 40, "bytes before"))
	strip := func(b []byte) []byte {
		if !bytes.HasPrefix(b, before) {
			return append([]byte("what was there before is gone: "), b...)
		}
		return b[len(before):]
	}
	switch Index(t, 11, "writer") {
	case 0:
		b := bytes.NewBuffer(append([]byte{}, before...))
		return &StdWriter{b, "bytes.Buffer", func() []byte { return strip(b.Bytes()) }}
	case 1:
		var s strings.Builder
		_, _ = s.Write(before)
		return &StdWriter{&s, "strings.Builder", func() []byte { return strip([]byte(s.String())) }}
	case 2:
		var b bytes.Buffer
		w := bufio.NewWriterSize(&b, 16+Index(t, 60, "size"))
		_, _ = w.Write(before)
		return &StdWriter{w, "bufio.Writer", func() []byte { must(w.Flush()); return strip(b.Bytes()) }}
	case 3:
		var b bytes.Buffer
		w := bufio.NewWriter(&b)
		_, _ = w.Write(before)
		return &StdWriter{bufio.NewReadWriter(bufio.NewReader(strings.NewReader("")), w), "bufio.ReadWriter", func() []byte { must(w.Flush()); return strip(b.Bytes()) }}
	case 4, 5:
		f, done := file(before, nil)
		return &StdWriter{f, "file", func() []byte {
			b, err := os.ReadFile(f.Name())
			must(err)
			done()
			return strip(b)
		}}
	case 6:
		f, done := file(before, nil)
		g, err := os.OpenFile(f.Name(), os.O_APPEND|os.O_WRONLY, 0)
		must(err)
		return &StdWriter{g, "file, append", func() []byte {
			must(g.Close())
			b, err := os.ReadFile(f.Name())
			must(err)
			done()
			return strip(b)
		}}
	case 7:
		r, w := io.Pipe()
		var b []byte
		gone := make(chan struct{})
		go func() {
			defer close(gone)
			b, _ = io.ReadAll(iotest.OneByteReader(r))
		}()
		return &StdWriter{w, "io.Pipe", func() []byte { _ = w.Close(); <-gone; return b }}
	case 8:
		r, w, err := os.Pipe()
		must(err)
		var b []byte
		gone := make(chan struct{})
		go func() {
			defer close(gone)
			b, _ = io.ReadAll(r)
		}()
		return &StdWriter{w, "os.Pipe", func() []byte { _ = w.Close(); <-gone; _ = r.Close(); return b }}
	case 9:
		var z bytes.Buffer
		w, err := flate.NewWriter(&z, 1)
		must(err)
		return &StdWriter{w, "flate", func() []byte {
			must(w.Close())
			b, err := io.ReadAll(flate.NewReader(&z))
			must(err)
			return b
		}}
	}
	var a, b bytes.Buffer
	return &StdWriter{io.MultiWriter(&a, &b), "io.MultiWriter", func() []byte {
		if !bytes.Equal(a.Bytes(), b.Bytes()) {
			panic("HARNESS: the parts of a MultiWriter differ")
		}
		return a.Bytes()
	}}
}
