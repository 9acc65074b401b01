package c09

import (
	"bytes"
	"io"
	"testing"
	"testing/iotest"

	"zverif/blocks"
	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/z"
)

func TestMain(m *testing.M) { h.Main(m) }

// an operation that reads: its result on a reader, comparable
type outcome struct {
	ok bool
	n  uint64
	v  *ref.Val
}

type op struct {
	name string
	run  func(c *h.C, typ *z.Typ, r io.Reader, n uint64) outcome
}

func value(c *h.C, typ *z.Typ, dst interface{}, what string, get func() (*ref.Val, error)) *ref.Val {
	v, err := get()
	if err != nil {
		z.Violated(c, "%s of %s made an invalid value: %v", what, typ, err)
	}
	return v
}

var ops = []op{
	{"Decode", func(c *h.C, typ *z.Typ, r io.Reader, n uint64) (o outcome) {
		dst := bridge.New(typ.D, ref.Zero(typ.D), nil)
		o.ok = z.Decode(c, typ, r, n, dst.Interface()) == nil
		if o.ok {
			o.v = value(c, typ, nil, "Decode", func() (*ref.Val, error) { return bridge.Get(typ.D, dst.Elem()) })
		}
		return
	}},
	{"DryCheck", func(c *h.C, typ *z.Typ, r io.Reader, n uint64) (o outcome) {
		o.ok = z.DryCheck(c, typ, r, n) == nil
		return
	}},
	{"DecodeFuzzBytes", func(c *h.C, typ *z.Typ, r io.Reader, n uint64) (o outcome) {
		dst := bridge.New(typ.D, ref.Zero(typ.D), nil)
		got, err := z.Fuzz(c, typ, r, n, dst.Interface())
		o.ok = err == nil
		if o.ok {
			o.n = got
			o.v = value(c, typ, nil, "DecodeFuzzBytes", func() (*ref.Val, error) { return bridge.Get(typ.D, dst.Elem()) })
		}
		return
	}},
}

func same(a, b outcome) bool {
	if a.ok != b.ok || a.n != b.n || (a.v == nil) != (b.v == nil) {
		return false
	}
	return a.v == nil || ref.Equal(a.v, b.v)
}

func input(c *h.C, o *op, typ *z.Typ) ([]byte, string) {
	if o.name == "DecodeFuzzBytes" {
		b := make([]byte, int(min(typ.D.FuzzMin, 5000))+gen.Index(c.T, 200, "more"))
		(&bridge.Rng{S: gen.Seed(c.T, "seed")}).Fill(b)
		return b, "fuzz"
	}
	if gen.Index(c.T, 3, "valid") != 0 {
		return ref.Encode(typ.D, gen.Value(c.T, typ.D, gen.Budget(c.T))), "valid"
	}
	return gen.Bytes(c.T, typ.D)
}

// TestDelivery: any way of delivering the bytes gives the same result, and never takes more than the given length.
func TestDelivery(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		o := &ops[gen.Index(c.T, len(ops), "op")]
		typ := gen.Type(c.T)
		b, kind := input(c, o, typ)
		n := uint64(len(b))
		plain := &gen.Reader{Data: b, Err: gen.ErrInjected}
		base := o.run(c, typ, plain, n)
		c.Label("%s %s ok=%v", o.name, kind, base.ok)
		used := plain.Pos

		for round := 0; round < 2; round++ {
			r := &gen.Reader{Data: b}
			var chunk, end string
			r.Sizes, chunk = gen.Chunking(c.T)
			r.Err, r.With, end = gen.End(c.T)
			tail := 0
			if gen.Index(c.T, 3, "tail") == 0 {
				tail = 1 + gen.Index(c.T, 40, "tail")
				r.Data = append(b[:len(b):len(b)], bytes.Repeat([]byte{0x5a}, tail)...)
			}
			rd, able := gen.Abilities(c.T, r)
			chunk += ", " + able
			got := o.run(c, typ, rd, n)
			if !same(base, got) {
				z.Violated(c, "%s of %s depends on the delivery (%s, %s, %d bytes follow): ok=%v vs ok=%v\nbytes %s", o.name, typ, chunk, end, tail, base.ok, got.ok, ref.Short(b))
			}
			if r.Pos > len(b) {
				z.Violated(c, "%s of %s took %d bytes, was given %d (%s)\nbytes %s", o.name, typ, r.Pos, n, chunk, ref.Short(b))
			}
			if got.ok && o.name != "DecodeFuzzBytes" && r.Pos != len(b) {
				z.Violated(c, "%s of %s succeeded with %d of %d bytes taken (%s)\nbytes %s", o.name, typ, r.Pos, n, chunk, ref.Short(b))
			}
			if got.ok && o.name == "DecodeFuzzBytes" && uint64(r.Pos) != got.n {
				z.Violated(c, "%s of %s took %d bytes, returned %d (%s)\nbytes %s", o.name, typ, r.Pos, got.n, chunk, ref.Short(b))
			}
			if used > 1 && base.ok {
				c.NonTrivial(gen.BytesSample(typ, b, o.name+", "+kind+", "+chunk+", "+end, "same"), o.name, typ.T, b, chunk, end, tail)
			}
		}
	})
}

// TestCut: a reader that fails or ends before the bytes that are needed makes the operation fail, at every position.
func TestCut(t *testing.T) {
	h.Check(t, 0.4, func(c *h.C) {
		o := &ops[gen.Index(c.T, len(ops), "op")]
		typ := gen.Type(c.T)
		b, _ := input(c, o, typ)
		plain := &gen.Reader{Data: b, Err: gen.ErrInjected}
		base := o.run(c, typ, plain, uint64(len(b)))
		if !base.ok {
			c.Label("%s rejected anyway", o.name)
			return
		}
		need := plain.Pos
		cuts := []int{}
		if need <= 24 {
			for k := 0; k <= need; k++ {
				cuts = append(cuts, k)
			}
		} else {
			cuts = append(cuts, 0, 1, need-1, need)
			for i := 0; i < 12; i++ {
				cuts = append(cuts, gen.Index(c.T, need+1, "cut"))
			}
		}
		for _, k := range cuts {
			r := &gen.Reader{Data: b[:k]}
			var chunk, end string
			r.Sizes, chunk = gen.Chunking(c.T)
			r.Err, r.With, end = gen.End(c.T)
			if !r.With && gen.Index(c.T, 4, "recovers") == 0 {
				// asked again, it would go on: but it has failed
				r.More = b[k:]
				end += ", recovers"
			}
			rd, able := gen.Abilities(c.T, r)
			chunk += ", " + able
			got := o.run(c, typ, rd, uint64(len(b)))
			if k < need && got.ok {
				z.Violated(c, "%s of %s succeeded although the reader ended after %d of %d needed bytes (%s, %s)\nbytes %s", o.name, typ, k, need, chunk, end, ref.Short(b))
			}
			if k == need && !same(base, got) {
				z.Violated(c, "%s of %s depends on what follows the %d needed bytes (%s, %s): ok=%v\nbytes %s", o.name, typ, need, chunk, end, got.ok, ref.Short(b))
			}
		}
		c.Label("%s cut", o.name)
		if need > 1 {
			c.NonTrivial(gen.BytesSample(typ, b, o.name, "cut everywhere"), o.name, typ.T, b)
		}
	})
}

// TestFraming reads consecutive messages of different types from one stream.
func TestFraming(t *testing.T) {
	h.Check(t, 0.4, func(c *h.C) {
		n := 2 + gen.Index(c.T, 4, "messages")
		var ks []*gen.Case
		var all []byte
		for i := 0; i < n; i++ {
			k := gen.NewCase(c.T)
			ks = append(ks, k)
			all = append(all, k.Enc...)
		}
		r := &gen.Reader{Data: all}
		r.Sizes, _ = gen.Chunking(c.T)
		r.Err, r.With, _ = gen.End(c.T)
		rd, _ := gen.Abilities(c.T, r)
		pos := 0
		for i, k := range ks {
			l := uint64(len(k.Enc))
			if gen.Index(c.T, 3, "dry") == 0 {
				if err := z.DryCheck(c, k.Typ, rd, l); err != nil {
					z.Violated(c, "message %d of a stream, %s, fails the dry check: %v\nbytes %s", i, k.Typ, err, ref.Short(k.Enc))
				}
			} else {
				dst, _ := gen.Dst(c.T, k.D())
				if err := z.Decode(c, k.Typ, rd, l, dst.Interface()); err != nil {
					z.Violated(c, "message %d of a stream, %s, not decoded: %v\nbytes %s", i, k.Typ, err, ref.Short(k.Enc))
				}
				got, err := bridge.Get(k.D(), dst.Elem())
				if err != nil || !ref.Equal(got, k.V) {
					z.Violated(c, "message %d of a stream, %s, decoded to another value (%v)\nbytes %s", i, k.Typ, err, ref.Short(k.Enc))
				}
			}
			pos += len(k.Enc)
			if r.Pos != pos {
				z.Violated(c, "after message %d of a stream, %s, %d bytes are taken, want %d", i, k.Typ, r.Pos, pos)
			}
		}
		if pos > n {
			c.NonTrivial(nil, all)
		}
	})
}

// TestStd: readers of the standard library, which may have been read from before and hold more than is needed.
func TestStd(t *testing.T) {
	h.Check(t, 0.3, func(c *h.C) {
		o := &ops[gen.Index(c.T, len(ops), "op")]
		typ := gen.Type(c.T)
		b, kind := input(c, o, typ)
		n := uint64(len(b))
		plain := &gen.Reader{Data: b, Err: gen.ErrInjected}
		base := o.run(c, typ, plain, n)
		used := plain.Pos
		have := b
		if base.ok && used > 0 && gen.Index(c.T, 4, "cut") == 0 {
			have = b[:gen.Index(c.T, used, "cut")]
		} else {
			have = append(b[:len(b):len(b)], bytes.Repeat([]byte{0x5a}, gen.Index(c.T, 2, "tail")*gen.Index(c.T, 60, "tail"))...)
		}
		r := gen.Std(c.T, have)
		closed := false
		defer func() {
			if !closed {
				r.Close()
			}
		}()
		got := o.run(c, typ, r.Reader, n)
		if len(have) < used {
			if got.ok {
				z.Violated(c, "%s of %s succeeded although a %s ended after %d of %d needed bytes\nbytes %s", o.name, typ, r.Name, len(have), used, ref.Short(b))
			}
		} else {
			if !same(base, got) {
				z.Violated(c, "%s of %s gives another result with a %s: ok=%v vs ok=%v\nbytes %s", o.name, typ, r.Name, base.ok, got.ok, ref.Short(b))
			}
			rest, err := io.ReadAll(iotest.OneByteReader(r.Reader))
			if len(rest) > len(have) || !bytes.Equal(rest, have[len(have)-len(rest):]) {
				z.Violated(c, "%s of %s leaves a %s that does not deliver the remaining bytes: %v\nbytes %s\nrest %s", o.name, typ, r.Name, err, ref.Short(have), ref.Short(rest))
			}
			if took := len(have) - len(rest); took > len(b) || got.ok && took != used {
				z.Violated(c, "%s of %s took %d bytes from a %s, was given %d and needs %d\nbytes %s", o.name, typ, took, r.Name, n, used, ref.Short(b))
			}
		}
		closed = true
		r.Close()
		c.Label("%s %s cut=%v ok=%v", r.Name, o.name, len(have) < used, base.ok)
		if used > 1 && base.ok {
			c.NonTrivial(gen.BytesSample(typ, b, o.name+", "+kind+", "+r.Name, "same"), o.name, typ.T, have, r.Name)
		}
	})
}

// TestBlocks: large inputs in large pieces, readers that end near multiples of powers of two.
func TestBlocks(t *testing.T) {
	h.Check(t, 0.01, func(c *h.C) {
		k := blocks.Case(c)
		n := len(k.Enc)
		for _, o := range ops[:2] {
			for i := 0; i < 5; i++ {
				cut := n
				if i > 1 {
					cut = blocks.Position(c, n)
				}
				r := &gen.Reader{Data: k.Enc[:cut]}
				var chunk, end string
				r.Sizes, chunk = blocks.Pieces(c)
				r.Err, r.With, end = gen.End(c.T)
				rd, able := gen.Abilities(c.T, r)
				got := o.run(c, k.Typ, rd, uint64(n))
				if got.ok != (cut == n) {
					z.Violated(c, "%s of %s: the reader delivers %d of %d bytes (%s, %s, %s): ok=%v", o.name, k.Typ, cut, n, chunk, able, end, got.ok)
				}
				if got.v != nil && !ref.Equal(got.v, k.V) {
					z.Violated(c, "%s of %s depends on the delivery (%s, %s, %s): %s", o.name, k.Typ, chunk, able, end, ref.Diff(k.D(), got.v, k.V))
				}
				if r.Pos > n || got.ok && r.Pos != n {
					z.Violated(c, "%s of %s took %d of %d bytes (%s, %s, %s)", o.name, k.Typ, r.Pos, n, chunk, able, end)
				}
				c.Label("blocks: whole=%v", cut == n)
				c.NonTrivial(gen.BytesSample(k.Typ, k.Enc[:cut], o.name+", "+chunk+", "+end, "as expected"), o.name, k.Typ.T, k.Enc, cut, chunk, end)
			}
		}
	})
}
