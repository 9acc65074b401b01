package c02

import (
	"bytes"
	"testing"

	"zverif/blocks"
	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/z"
)

func TestMain(m *testing.M) { h.Main(m) }

func TestRoundTrip(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		k := gen.NewCase(c.T)
		enc := z.Encode(c, k.Typ, k.Ptr())
		dst, kind := gen.Dst(c.T, k.D())
		c.Label("destination %s", kind)
		for round := 0; round < 2; round++ { // the second time over the result of the first
			if err := z.Decode(c, k.Typ, bytes.NewReader(enc), uint64(len(enc)), dst.Interface()); err != nil {
				z.Violated(c, "own encoding of %s not decoded (round %d, %s destination): %v\nvalue %s\nencoding %s", k.Typ, round, kind, err,
					ref.Render(k.D(), k.V), ref.Short(enc))
			}
			got, err := bridge.Get(k.D(), dst.Elem())
			if err != nil {
				z.Violated(c, "decoded object of %s is no valid value (round %d, %s destination): %v\nencoding %s", k.Typ, round, kind, err, ref.Short(enc))
			}
			if !ref.Equal(got, k.V) {
				z.Violated(c, "decoded value of %s differs (round %d, %s destination): %s\nencoding %s", k.Typ, round, kind, ref.Diff(k.D(), got, k.V), ref.Short(enc))
			}
		}
		if len(enc) > 0 && (kind == "stale" || k.D().VarCount > 0) {
			c.NonTrivial(k.Sample, k.Typ.T, k.Enc, kind)
		}
	})
}

// TestHistory decodes a sequence of encodings of different values into one destination.
func TestHistory(t *testing.T) {
	h.Check(t, 0.3, func(c *h.C) {
		typ := gen.Type(c.T)
		dst, _ := gen.Dst(c.T, typ.D)
		n := 2 + gen.Index(c.T, 3, "steps")
		sum := []byte{}
		for i := 0; i < n; i++ {
			v := gen.Value(c.T, typ.D, gen.Budget(c.T)/2)
			enc := z.Encode(c, typ, bridge.New(typ.D, v, nil).Interface())
			if err := z.Decode(c, typ, bytes.NewReader(enc), uint64(len(enc)), dst.Interface()); err != nil {
				z.Violated(c, "own encoding of %s not decoded in step %d: %v\nencoding %s", typ, i, err, ref.Short(enc))
			}
			got, err := bridge.Get(typ.D, dst.Elem())
			if err != nil || !ref.Equal(got, v) {
				if err == nil {
					z.Violated(c, "decoded value of %s differs in step %d: %s\nencoding %s", typ, i, ref.Diff(typ.D, got, v), ref.Short(enc))
				}
				z.Violated(c, "decoded object of %s invalid in step %d: %v\nencoding %s", typ, i, err, ref.Short(enc))
			}
			sum = append(sum, enc...)
		}
		if len(sum) > 0 && typ.D.VarCount > 0 {
			c.NonTrivial(nil, typ.T, sum)
		}
	})
}

// TestBlocks decodes encodings whose parts end near multiples of powers of two, one after the other into one destination.
func TestBlocks(t *testing.T) {
	h.Check(t, 0.006, func(c *h.C) {
		k := blocks.Case(c)
		dst, kind := gen.Dst(c.T, k.D())
		for round := 0; round < 3; round++ {
			if round > 0 {
				v := blocks.Value(c, k.D())
				k = &gen.Case{Typ: k.Typ, V: v, Obj: bridge.New(k.D(), v, nil)}
			}
			enc := z.Encode(c, k.Typ, k.Ptr())
			if err := z.Decode(c, k.Typ, bytes.NewReader(enc), uint64(len(enc)), dst.Interface()); err != nil {
				z.Violated(c, "own encoding of %s not decoded (round %d, %s destination): %v\nencoding %s", k.Typ, round, kind, err, ref.Short(enc))
			}
			got, err := bridge.Get(k.D(), dst.Elem())
			if err != nil {
				z.Violated(c, "decoded object of %s is no valid value (round %d, %s destination): %v\nencoding %s", k.Typ, round, kind, err, ref.Short(enc))
			}
			if !ref.Equal(got, k.V) {
				z.Violated(c, "decoded value of %s differs (round %d, %s destination): %s\nencoding %s", k.Typ, round, kind, ref.Diff(k.D(), got, k.V), ref.Short(enc))
			}
			c.NonTrivial(nil, k.Typ.T, enc, kind)
		}
	})
}
