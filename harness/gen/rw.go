package gen

import (
	"errors"
	"io"
	"os"

	"pgregory.net/rapid"

	"zverif/bridge"
)

// ErrInjected is what faulty readers and writers return.
var ErrInjected = errors.New("injected fault")

// fault is an error that cannot be compared.
type fault []string

func (f fault) Error() string { return f[0] }

// Is makes errors.Is work with it.
func (f fault) Is(err error) bool {
	g, ok := err.(fault)
	return ok && len(g) == len(f) && g[0] == f[0]
}

// Faults are errors that readers and writers return: some have a meaning elsewhere, none is special to whoever reads or writes.
var Faults = []error{
	ErrInjected, ErrInjected, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrShortWrite, io.ErrShortBuffer, io.ErrClosedPipe,
	os.ErrDeadlineExceeded, &os.PathError{Op: "read", Path: "x", Err: os.ErrClosed}, fault{"a fault that cannot be compared"},
}

// Fault draws an error other than io.EOF.
func Fault(t *rapid.T) error { return From(t, Faults, "fault") }

// Reader delivers Data in pieces and then an error, and counts.
type Reader struct {
	Data  []byte
	Err   error      // after the data
	With  bool       // the error accompanies the last bytes
	Sizes func() int // size of the next piece, <= 0: nothing this time
	More  []byte     // what the reader delivers if it is asked again after the error
	Pos   int        // bytes delivered
	Calls int
	Ask   int // the largest size asked for

	failed bool
}

func (r *Reader) Read(p []byte) (int, error) {
	r.Calls++
	if len(p) > r.Ask {
		r.Ask = len(p)
	}
	if r.Pos >= len(r.Data) && r.failed {
		r.Data, r.More = append(r.Data[:len(r.Data):len(r.Data)], r.More...), nil
	}
	if r.Pos >= len(r.Data) {
		r.failed = true
		return 0, r.Err
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if r.Sizes != nil {
		if s := r.Sizes(); s < n {
			n = s
		}
		if n <= 0 {
			return 0, nil
		}
	}
	n = copy(p[:n], r.Data[r.Pos:])
	r.Pos += n
	// readers may use the rest of p as scratch space
	for i := n; i < len(p) && i < n+40; i++ {
		p[i] = 0xA5
	}
	if r.Pos == len(r.Data) && r.With {
		return n, r.Err
	}
	return n, nil
}

// Chunking draws a way to split a stream.
func Chunking(t *rapid.T) (func() int, string) {
	switch Index(t, 5, "chunking") {
	case 0:
		return nil, "whole"
	case 1:
		return func() int { return 1 }, "bytewise"
	case 2:
		n := 1 + Index(t, 9, "size")
		return func() int { return n }, "small"
	case 3:
		r := &bridge.Rng{S: Seed(t, "chunks")}
		return func() int { return 1 + r.N(40) }, "random"
	}
	r := &bridge.Rng{S: Seed(t, "chunks")}
	idle := 0
	return func() int {
		if idle < 3 && r.N(3) == 0 {
			idle++
			return 0 // a read may deliver nothing
		}
		idle = 0
		return 1 + r.N(9)
	}, "with empty reads"
}

// End draws what comes after the data: io.EOF or an error, separate or with the last bytes.
func End(t *rapid.T) (error, bool, string) {
	switch Index(t, 4, "end") {
	case 0:
		return io.EOF, false, "EOF after"
	case 1:
		return io.EOF, true, "EOF with the last bytes"
	case 2:
		return Fault(t), false, "error after"
	}
	return Fault(t), true, "error with the last bytes"
}

// Writer accepts Room bytes and then fails.
type Writer struct {
	Room  int  // negative: never fails
	Early bool // the call that uses up the room already returns the error
	Err   error
	Got   []byte
	Calls int // calls
	Late  int // calls after the error
	dead  bool
}

func (w *Writer) Write(p []byte) (int, error) {
	w.Calls++
	if w.dead {
		w.Late++
		return 0, w.Fault()
	}
	if w.Room < 0 {
		w.Got = append(w.Got, p...)
		return len(p), nil
	}
	left := w.Room - len(w.Got)
	if len(p) > left || w.Early && len(p) == left && left > 0 {
		w.Got = append(w.Got, p[:left]...)
		w.dead = true
		return left, w.Fault()
	}
	w.Got = append(w.Got, p...)
	return len(p), nil
}

// Failed: the writer returned its error.
func (w *Writer) Failed() bool { return w.dead }

// Fault is the error that the writer returns.
func (w *Writer) Fault() error {
	if w.Err == nil {
		return ErrInjected
	}
	return w.Err
}

// richWriter has what writers of the standard library have besides Write.
type richWriter struct{ *Writer }

func (w richWriter) WriteByte(b byte) error {
	_, err := w.Write([]byte{b})
	return err
}

func (w richWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

func (w richWriter) ReadFrom(r io.Reader) (n int64, err error) {
	b, err := io.ReadAll(r)
	m, werr := w.Write(b)
	if err == nil {
		err = werr
	}
	return int64(m), err
}

func (w richWriter) Flush() error { return nil }

// WriterAbilities wraps a writer so that it has more methods than Write. Everything still counts in w.
func WriterAbilities(t *rapid.T, w *Writer) io.Writer {
	if Index(t, 3, "abilities") == 0 {
		return richWriter{w}
	}
	return w
}
