package c01

import (
	"bytes"
	"testing"

	"zverif/blocks"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/z"
)

func TestMain(m *testing.M) { h.Main(m) }

func TestEncode(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		k := gen.NewCase(c.T)
		c.Label("kind %v fixed=%v", k.D().Kind, k.D().Fixed)
		got := z.Encode(c, k.Typ, k.Ptr())
		if !bytes.Equal(got, k.Enc) {
			z.Violated(c, "encoding of %s\nvalue %s\ngot  %s\nwant %s", k.Typ, ref.Render(k.D(), k.V), ref.Short(got), ref.Short(k.Enc))
		}
		if k.D().VarCount >= 2 && len(k.Enc) > 8 {
			c.Label("nested variable parts")
		}
		if k.D().Depth > 0 && len(k.Enc) > 0 {
			c.NonTrivial(k.Sample, k.Typ.T, k.Enc)
		}
	})
}

// TestBlocks: parts whose size or number of elements is near a multiple of a power of two.
func TestBlocks(t *testing.T) {
	h.Check(t, 0.01, func(c *h.C) {
		k := blocks.Case(c)
		if got := z.Encode(c, k.Typ, k.Ptr()); !bytes.Equal(got, k.Enc) {
			z.Violated(c, "encoding of %s\nvalue %s\ngot  %s\nwant %s", k.Typ, ref.Render(k.D(), k.V), ref.Short(got), ref.Short(k.Enc))
		}
		c.NonTrivial(k.Sample, k.Typ.T, k.Enc)
	})
}
