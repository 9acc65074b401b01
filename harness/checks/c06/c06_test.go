package c06

import (
	"testing"

	"github.com/protolambda/zssz/types"

	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/z"
)

func TestMain(m *testing.M) { h.Main(m) }

func TestSigningRoot(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		k := gen.CaseOf(c.T, gen.StructType(c.T))
		want := ref.DefaultHasher.SigningRoot(k.D(), k.V)
		if got := z.Signing(c, k.Typ, k.Ptr(), z.Hash); got != want {
			z.Violated(c, "signing root of %s\nvalue %s\ngot  %x\nwant %x", k.Typ, ref.Render(k.D(), k.V), got, want)
		}
		n := len(k.D().Fields)
		c.Label("%d fields", min(n, 10))
		if n == 0 {
			return
		}
		// another last field
		v2 := &ref.Val{E: append([]*ref.Val(nil), k.V.E...)}
		v2.E[n-1] = gen.Value(c.T, k.D().Fields[n-1].D, 100)
		if got := z.Signing(c, k.Typ, bridge.New(k.D(), v2, gen.Noise(c.T)).Interface(), z.Hash); got != want {
			z.Violated(c, "signing root of %s depends on the last field\nvalue %s\nand   %s\ngot  %x\nwant %x", k.Typ, ref.Render(k.D(), k.V), ref.Render(k.D(), v2), got, want)
		}
		if n >= 2 {
			c.NonTrivial(k.Sample, k.Typ.T, k.Enc)
		}
	})
}

// TestOffered: signing roots for structs and only for structs.
func TestOffered(t *testing.T) {
	h.Check(t, 0.5, func(c *h.C) {
		typ := gen.Type(c.T)
		_, ok := typ.S.(types.SignedSSZ)
		isStruct := typ.D.Kind == ref.Container && typ.T.Kind().String() == "struct"
		if ok != isStruct {
			z.Violated(c, "type %s (%v) offers a signing root: %v", typ, typ.T.Kind(), ok)
		}
	})
}
