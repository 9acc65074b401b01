package c26

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"testing"

	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/z"

	"github.com/protolambda/zssz/dec"
	"github.com/protolambda/zssz/enc"
)

func TestMain(m *testing.M) { h.Main(m) }

// scope is what the model knows of a reading scope.
type scope struct {
	dr    *dec.DecodingReader
	index uint64
	max   uint64
	fuzz  bool
}

func (s *scope) left() uint64 { return s.max - s.index }

type run struct {
	c      *h.C
	data   []byte
	pos    uint64 // bytes of data consumed
	stack  []*scope
	log    []string
	over   int // operations refused for the scope
	ended  bool
	scopes int
}

func (r *run) logf(f string, a ...any) { r.log = append(r.log, fmt.Sprintf(f, a...)) }

func (r *run) fail(f string, a ...any) {
	z.Violated(r.c, "%s\ninput %s, history: %v", fmt.Sprintf(f, a...), ref.Short(r.data), r.log)
}

// take is what an operation that consumes n bytes must do: 0 it succeeds, 1 it is refused, 2 the input ends.
func (r *run) take(n uint64) (int, []byte) {
	s := r.stack[len(r.stack)-1]
	if n > s.left() {
		r.over++
		return 1, nil
	}
	if n > uint64(len(r.data))-r.pos {
		return 2, nil
	}
	b := r.data[r.pos : r.pos+n]
	r.pos += n
	s.index += n
	return 0, b
}

func (r *run) judge(what string, n uint64, err error, check func(want []byte)) {
	verdict, want := r.take(n)
	switch {
	case verdict == 0 && err != nil:
		r.fail("%s of %d bytes failed: %v", what, n, err)
	case verdict == 1 && err == nil:
		r.fail("%s of %d bytes went beyond the scope, which has %d left", what, n, r.stack[len(r.stack)-1].left())
	case verdict == 2 && err == nil:
		r.fail("%s of %d bytes succeeded, the input has %d left", what, n, uint64(len(r.data))-r.pos)
	case verdict == 0:
		check(want)
	}
	r.ended = r.ended || verdict == 2
}

// count judges the number of bytes that a failed Read or Skip reports: io.ReadFull and others go by it.
func (r *run) count(what string, n uint64, got int, err error) {
	if err == nil {
		return
	}
	if got < 0 || n > 0 && uint64(got) >= n || !r.ended && got != 0 {
		r.fail("%s of %d bytes failed and says that it was %d bytes: %v", what, n, got, err)
	}
	if left := uint64(len(r.data)) - r.pos; r.ended && what == "Read" && uint64(got) != left {
		r.fail("Read of %d bytes met the end after %d and says that it was %d bytes: %v", n, left, got, err)
	}
}

func (r *run) amount() uint64 {
	s := r.stack[len(r.stack)-1]
	n := uint64(0)
	switch gen.Index(r.c.T, 8, "amount") {
	case 0:
		n = s.left()
	case 1:
		n = s.left() + 1 + uint64(gen.Index(r.c.T, 9, "beyond"))
	case 2:
		// as far beyond as it can be: the sum with the position does not fit
		n = -s.index + uint64(gen.Index(r.c.T, 5, "wrapped")) - 2
	case 3:
		n = uint64(len(r.data)) - r.pos
	case 4:
		n = uint64(len(r.data)) - r.pos + uint64(gen.Index(r.c.T, 20, "past the end"))
	default:
		n = uint64(long(r.c, 48, "some"))
	}
	return n
}

func (r *run) step() {
	s := r.stack[len(r.stack)-1]
	switch k := gen.Index(r.c.T, 9, "op"); k {
	case 0, 1:
		n := r.amount()
		if n > 1<<18 {
			n = uint64(gen.Index(r.c.T, 64, "less"))
		}
		p := bytes.Repeat([]byte{0xcc}, int(n)+8)
		r.logf("Read %d", n)
		var got int
		var err error
		z.Try(r.c, "Read", func() { got, err = s.dr.Read(p[:n:n]) })
		r.judge("Read", n, err, func(want []byte) {
			if uint64(got) != n || !bytes.Equal(p[:n], want) {
				r.fail("Read of %d bytes returned %d, bytes %s, want %s", n, got, ref.Short(p[:n]), ref.Short(want))
			}
		})
		r.count("Read", n, got, err)
		if !bytes.Equal(p[n:], bytes.Repeat([]byte{0xcc}, 8)) {
			r.fail("Read of %d bytes wrote beyond them", n)
		}
	case 2, 3:
		n := r.amount()
		r.logf("Skip %d", n)
		var got int
		var err error
		z.Try(r.c, "Skip", func() { got, err = s.dr.Skip(n) })
		r.judge("Skip", n, err, func([]byte) {
			if uint64(got) != n {
				r.fail("Skip of %d bytes returned %d", n, got)
			}
		})
		r.count("Skip", n, got, err)
	case 4, 5:
		size := []uint64{1, 2, 4, 8, 4}[gen.Index(r.c.T, 5, "size")]
		offset := gen.Index(r.c.T, 2, "offset") == 0
		var got uint64
		var err error
		name := fmt.Sprintf("ReadUint%d", size*8)
		switch {
		case size == 1:
			name = "ReadByte"
		case size == 4 && offset:
			name = "ReadOffset"
		}
		r.logf("%s", name)
		z.Try(r.c, name, func() {
			switch name {
			case "ReadByte":
				var x byte
				x, err = s.dr.ReadByte()
				got = uint64(x)
			case "ReadUint16":
				var x uint16
				x, err = s.dr.ReadUint16()
				got = uint64(x)
			case "ReadUint32":
				var x uint32
				x, err = s.dr.ReadUint32()
				got = uint64(x)
			case "ReadUint64":
				got, err = s.dr.ReadUint64()
			case "ReadOffset":
				got, err = s.dr.ReadOffset()
			}
		})
		r.judge(name, size, err, func(want []byte) {
			var b [8]byte
			copy(b[:], want)
			if x := binary.LittleEndian.Uint64(b[:]); got != x {
				r.fail("%s = %#x, want %#x", name, got, x)
			}
		})
	case 6:
		if len(r.stack) == 5 {
			return
		}
		n := r.amount()
		r.logf("Scope %d", n)
		var sub *dec.DecodingReader
		var err error
		z.Try(r.c, "Scope", func() { sub, err = s.dr.Scope(n) })
		if (err == nil) != (n <= s.left()) {
			r.fail("Scope of %d bytes with %d left: %v", n, s.left(), err)
		}
		if err != nil {
			r.over++
			return
		}
		t := &scope{dr: sub, max: n, fuzz: sub.IsFuzzMode()}
		if gen.Index(r.c.T, 3, "fuzz") == 0 {
			sub.EnableFuzzMode()
			t.fuzz = true
		}
		r.stack = append(r.stack, t)
		r.scopes++
	default:
		if len(r.stack) == 1 {
			return
		}
		r.logf("end of the scope")
		r.stack = r.stack[:len(r.stack)-1]
		p := r.stack[len(r.stack)-1]
		z.Try(r.c, "UpdateIndexFromScoped", func() { p.dr.UpdateIndexFromScoped(s.dr) })
		p.index += s.index
	}
}

func (r *run) state() {
	s := r.stack[len(r.stack)-1]
	if got := s.dr.Index(); got != s.index {
		r.fail("Index = %d, want %d", got, s.index)
	}
	if got := s.dr.Max(); got != s.max {
		r.fail("Max = %d, want %d", got, s.max)
	}
	if got := s.dr.GetBytesSpan(); got != s.left() {
		r.fail("GetBytesSpan = %d, want %d", got, s.left())
	}
	if got := s.dr.IsFuzzMode(); got != s.fuzz {
		r.fail("IsFuzzMode = %v, want %v", got, s.fuzz)
	}
}

// TestReading: histories of the operations of DecodingReader, with nested scopes, against a position in the input.
func TestReading(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		r := &run{c: c}
		r.data = make([]byte, long(c, 300, "bytes"))
		(&bridge.Rng{S: gen.Seed(c.T, "content")}).Fill(r.data)
		src := &gen.Reader{Data: r.data}
		var chunk, end string
		src.Sizes, chunk = gen.Chunking(c.T)
		src.Err, src.With, end = gen.End(c.T)
		rd, able := gen.Abilities(c.T, src)
		var dr *dec.DecodingReader
		z.Try(c, "NewDecodingReader", func() { dr = dec.NewDecodingReader(rd) })
		r.stack = []*scope{{dr: dr, max: ^uint64(0)}}
		r.logf("reader %s, %s, %s", chunk, end, able)
		if gen.Index(c.T, 3, "scoped") > 0 {
			sub, err := dr.Scope(uint64(len(r.data)))
			if err != nil {
				r.fail("Scope of %d bytes: %v", len(r.data), err)
			}
			r.stack = append(r.stack, &scope{dr: sub, max: uint64(len(r.data))})
		}
		for n := 1 + gen.Index(c.T, 24, "steps"); n > 0 && !r.ended; n-- {
			r.step()
			if r.ended {
				break
			}
			r.state()
			if uint64(src.Pos) != r.pos {
				r.fail("%d bytes are taken from the reader, want %d", src.Pos, r.pos)
			}
		}
		c.Label("scopes:%d ended:%v refused:%v", min(r.scopes, 3), r.ended, r.over > 0)
		if r.pos > 0 && len(r.log) > 3 {
			c.NonTrivial(func() any { return map[string]any{"history": r.log} }, fmt.Sprint(r.log))
		}
	})
}

// TestWriting: histories of the operations of EncodingWriter, on writers that fail anywhere.
func TestWriting(t *testing.T) {
	h.Check(t, 0.5, func(c *h.C) {
		w := &gen.Writer{Room: -1}
		if gen.Index(c.T, 3, "fails") == 0 {
			w.Room, w.Early = long(c, 120, "room"), gen.Index(c.T, 2, "early") == 0
			w.Err = gen.Fault(c.T)
		}
		var ew *enc.EncodingWriter
		z.Try(c, "NewEncodingWriter", func() { ew = enc.NewEncodingWriter(gen.WriterAbilities(c.T, w)) })
		var want []byte
		var log []string
		rng := &bridge.Rng{S: gen.Seed(c.T, "content")}
		for n := 1 + gen.Index(c.T, 20, "steps"); n > 0; n-- {
			var err error
			switch gen.Index(c.T, 3, "op") {
			case 0:
				p := make([]byte, long(c, 40, "bytes"))
				rng.Fill(p)
				keep := append([]byte(nil), p...)
				log = append(log, "Write "+ref.Short(p))
				z.Try(c, "Write", func() { err = ew.Write(p) })
				if !bytes.Equal(p, keep) {
					z.Violated(c, "Write changed the bytes %s to %s", ref.Short(keep), ref.Short(p))
				}
				want = append(want, p...)
			case 1:
				b := byte(gen.Index(c.T, 256, "byte"))
				log = append(log, fmt.Sprintf("WriteByte %x", b))
				z.Try(c, "WriteByte", func() { err = ew.WriteByte(b) })
				want = append(want, b)
			case 2:
				a, b := draw32(c, "previous"), draw32(c, "length")
				if gen.Index(c.T, 3, "sum") == 0 {
					b = 1<<32 - a + uint64(gen.Index(c.T, 5, "around")) - 3
				}
				log = append(log, fmt.Sprintf("WriteOffset %#x %#x", a, b))
				var off uint64
				p, _ := z.Panics(func() { off, err = ew.WriteOffset(a, b) })
				fits := a < 1<<32 && b < 1<<32 && a+b < 1<<32
				if !fits {
					// there is no such offset: whatever happens, it is neither written nor returned as a success
					if p == nil && err == nil {
						z.Violated(c, "WriteOffset(%#x, %#x) succeeded with %#x", a, b, off)
					}
					if !bytes.Equal(w.Got, want) && !w.Failed() {
						z.Violated(c, "WriteOffset(%#x, %#x) wrote %x", a, b, w.Got[len(want):])
					}
					err = nil
					if w.Failed() {
						return
					}
					break
				}
				if p != nil {
					z.Violated(c, "WriteOffset(%#x, %#x) panicked: %v", a, b, p)
				}
				if err == nil && off != a+b {
					z.Violated(c, "WriteOffset(%#x, %#x) = %#x", a, b, off)
				}
				want = binary.LittleEndian.AppendUint32(want, uint32(a+b))
			}
			if (err != nil) != w.Failed() || err != nil && !errors.Is(err, w.Fault()) {
				z.Violated(c, "the writer failed: %v, the error is %v\nhistory: %v", w.Failed(), err, log)
			}
			if got := ew.Written(); got != len(w.Got) {
				z.Violated(c, "Written = %d after %d bytes\nhistory: %v", got, len(w.Got), log)
			}
			if w.Failed() {
				if !bytes.HasPrefix(want, w.Got) {
					z.Violated(c, "written %s, want a prefix of %s\nhistory: %v", ref.Short(w.Got), ref.Short(want), log)
				}
				break
			}
			if !bytes.Equal(w.Got, want) {
				z.Violated(c, "written %s, want %s\nhistory: %v", ref.Short(w.Got), ref.Short(want), log)
			}
		}
		c.Label("failed:%v", w.Failed())
		if len(want) > 1 {
			c.NonTrivial(func() any { return map[string]any{"history": log} }, fmt.Sprint(log), w.Room)
		}
	})
}

// long is a number of bytes: mostly below few, else around a power of two up to 2^17.
func long(c *h.C, few int, label string) int {
	if gen.Index(c.T, 6, label+" long") > 0 {
		return gen.Index(c.T, few, label)
	}
	return max(0, 1<<gen.Index(c.T, 18, label+" power")+gen.Index(c.T, 9, label+" around")-4)
}

func draw32(c *h.C, label string) uint64 {
	switch gen.Index(c.T, 4, label) {
	case 0:
		return uint64(gen.Index(c.T, 300, "small"))
	case 1:
		return 1<<32 - 4 + uint64(gen.Index(c.T, 8, "edge"))
	case 2:
		return gen.Seed(c.T, "any")
	}
	return gen.Seed(c.T, "any") >> 32
}
