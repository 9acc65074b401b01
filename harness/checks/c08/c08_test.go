package c08

import (
	"bytes"
	"encoding/binary"
	"reflect"
	"testing"

	"zverif/blocks"
	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/z"
)

func TestMain(m *testing.M) { h.Main(m) }

type counting struct {
	r *bytes.Reader
	n int
}

func (c *counting) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	c.n += n
	return n, err
}

// input draws bytes for fuzz mode: plain random, with small or boundary length words in between.
func input(c *h.C, min uint64) ([]byte, string) {
	n := int(min)
	switch gen.Index(c.T, 4, "extra") {
	case 0:
	case 1:
		n += gen.Index(c.T, 24, "n")
	case 2:
		n += gen.Index(c.T, 400, "n")
	case 3:
		n += gen.Index(c.T, 6000, "n")
	}
	b := make([]byte, n)
	r := &bridge.Rng{S: gen.Seed(c.T, "seed")}
	kind := gen.Index(c.T, 5, "kind")
	switch kind {
	case 0: // zeros
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		r.Fill(b)
	case 3: // words of small numbers
		for i := 0; i+8 <= len(b); i += 8 {
			binary.LittleEndian.PutUint64(b[i:], r.U()%64)
		}
	case 4: // mixed, unaligned
		r.Fill(b)
		for i := 0; i < len(b); {
			if r.N(3) == 0 && i+8 <= len(b) {
				binary.LittleEndian.PutUint64(b[i:], r.U()%uint64(1+r.N(2000)))
				i += 8
			} else {
				i += 1 + r.N(9)
			}
		}
	}
	return b, []string{"zeros", "ones", "random", "small words", "mixed"}[kind]
}

// valid decodes the bytes twice in fuzz mode, and checks what comes out of it.
func valid(c z.TB, typ *z.Typ, b []byte, lo, hi uint64, mk func() (reflect.Value, string)) *ref.Val {
	var first *ref.Val
	var taken uint64
	for round := 0; round < 2; round++ {
		dst, dk := mk()
		r := &counting{r: bytes.NewReader(b)}
		n, err := z.Fuzz(c, typ, r, uint64(len(b)), dst.Interface())
		if err != nil {
			z.Violated(c, "fuzz decoding of %s failed: %v\nbytes %s (%d)", typ, err, ref.Short(b), len(b))
		}
		if n != uint64(r.n) {
			z.Violated(c, "fuzz decoding of %s returned %d, took %d bytes\nbytes %s", typ, n, r.n, ref.Short(b))
		}
		if n > uint64(len(b)) || n < lo || n > hi {
			z.Violated(c, "fuzz decoding of %s took %d bytes of %d, FuzzMinLen %d, FuzzMaxLen %d\nbytes %s", typ, n, len(b), lo, hi, ref.Short(b))
		}
		v, err := bridge.Get(typ.D, dst.Elem())
		if err == nil {
			err = ref.Valid(typ.D, v)
		}
		if err != nil {
			z.Violated(c, "fuzz decoding of %s into a %s destination made an invalid value: %v\nbytes %s", typ, dk, err, ref.Short(b))
		}
		if round == 0 {
			first, taken = v, n
			continue
		}
		if !ref.Equal(first, v) || n != taken {
			z.Violated(c, "fuzz decoding of %s is not deterministic (%s destination): %s, %d vs %d bytes\nbytes %s", typ, dk, ref.Diff(typ.D, first, v), taken, n, ref.Short(b))
		}
		// encodes, hashes and comes back
		enc := z.Encode(c, typ, dst.Interface())
		if want := ref.Encode(typ.D, v); !bytes.Equal(enc, want) {
			z.Violated(c, "fuzz-decoded value of %s encodes to %s, want %s", typ, ref.Short(enc), ref.Short(want))
		}
		back := bridge.New(typ.D, ref.Zero(typ.D), nil)
		if err := z.Decode(c, typ, bytes.NewReader(enc), uint64(len(enc)), back.Interface()); err != nil {
			z.Violated(c, "fuzz-decoded value of %s does not round-trip: %v\nbytes %s", typ, err, ref.Short(b))
		}
		if got, err := bridge.Get(typ.D, back.Elem()); err != nil || !ref.Equal(got, v) {
			z.Violated(c, "fuzz-decoded value of %s changes in a round-trip: %v\nbytes %s", typ, err, ref.Short(b))
		}
		if got, want := z.Root(c, typ, dst.Interface(), z.Hash), ref.DefaultHasher.Root(typ.D, v); got != want {
			z.Violated(c, "fuzz-decoded value of %s hashes to %x, want %x\nbytes %s", typ, got, want, ref.Short(b))
		}
	}
	return first
}

func TestFuzzMode(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		typ := gen.Type(c.T)
		var lo, hi uint64
		z.Try(c, "FuzzMinLen", func() { lo, hi = typ.S.FuzzMinLen(), typ.S.FuzzMaxLen() })
		if lo > hi {
			z.Violated(c, "FuzzMinLen %d above FuzzMaxLen %d for %s", lo, hi, typ)
		}
		if lo > 1<<20 {
			return
		}
		b, kind := input(c, lo)
		first := valid(c, typ, b, lo, hi, func() (reflect.Value, string) { return gen.Dst(c.T, typ.D) })
		size := len(ref.Encode(typ.D, first))
		c.Label("%s: beyond the minimum=%v", kind, uint64(size) > typ.D.Min)
		if uint64(size) > typ.D.Min && typ.D.VarCount > 0 {
			c.NonTrivial(gen.BytesSample(typ, b, kind, ref.Render(typ.D, first)), typ.T, b)
		}
	})
}

// TestBlocks: large inputs, lengths near multiples of powers of two.
func TestBlocks(t *testing.T) {
	h.Check(t, 0.004, func(c *h.C) {
		typ := blocks.Type(c)
		lo, hi := typ.S.FuzzMinLen(), typ.S.FuzzMaxLen()
		b := make([]byte, int(lo)+blocks.Boundary(c, 1<<18))
		(&bridge.Rng{S: gen.Seed(c.T, "seed")}).Fill(b)
		// words in the beginning: lengths of about the size of the input
		for i := 0; i < 3; i++ {
			if at := gen.Index(c.T, 24, "at"); at+8 <= len(b) {
				binary.LittleEndian.PutUint64(b[at:], uint64(blocks.Boundary(c, len(b))))
			}
		}
		valid(c, typ, b, lo, hi, func() (reflect.Value, string) { return reflect.New(typ.T), "fresh" })
		c.NonTrivial(gen.BytesSample(typ, b, "blocks", "valid"), typ.T, b)
	})
}

func FuzzBytes(f *testing.F) {
	gen.Corpus(f)
	h.Fuzz(f, func(t *testing.T, sel uint16, seed uint64, b []byte) bool {
		typ := gen.Select(t, sel)
		lo, hi := typ.S.FuzzMinLen(), typ.S.FuzzMaxLen()
		if uint64(len(b)) < lo {
			return false
		}
		v := valid(t, typ, b, lo, hi, func() (reflect.Value, string) { return gen.SeedDst(typ.D, seed), "seeded" })
		return typ.D.VarCount > 0 && uint64(len(ref.Encode(typ.D, v))) > typ.D.Min
	})
}

// TestTooShort: inputs shorter than FuzzMinLen are rejected with an error.
func TestTooShort(t *testing.T) {
	h.Check(t, 0.3, func(c *h.C) {
		typ := gen.Type(c.T)
		lo := typ.S.FuzzMinLen()
		if lo == 0 || lo > 1<<20 {
			return
		}
		b := make([]byte, gen.Index(c.T, int(lo), "n"))
		(&bridge.Rng{S: gen.Seed(c.T, "seed")}).Fill(b)
		dst, _ := gen.Dst(c.T, typ.D)
		if n, err := z.Fuzz(c, typ, bytes.NewReader(b), uint64(len(b)), dst.Interface()); err == nil {
			z.Violated(c, "fuzz decoding of %s accepted %d bytes (took %d), FuzzMinLen is %d", typ, len(b), n, lo)
		}
		c.NonTrivial(nil, typ.T, b)
	})
}
