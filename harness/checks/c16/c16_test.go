package c16

import (
	"crypto/sha256"
	"fmt"
	"reflect"
	"testing"

	"github.com/protolambda/zssz/htr"

	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/merk"
	"zverif/ref"
	"zverif/z"
)

func TestMain(m *testing.M) { h.Main(m) }

func check(c *h.C, k *gen.Case, fn htr.MerkleFn, r *ref.Hasher, what string) {
	if got, want := z.Root(c, k.Typ, k.Ptr(), fn), r.Root(k.D(), k.V); got != want {
		z.Violated(c, "root of %s under %s is %x, want %x\nvalue %s", k.Typ, what, got, want, ref.Render(k.D(), k.V))
	}
	if k.Typ.T.Kind() == reflect.Struct {
		if got, want := z.Signing(c, k.Typ, k.Ptr(), fn), r.SigningRoot(k.D(), k.V); got != want {
			z.Violated(c, "signing root of %s under %s is %x, want %x\nvalue %s", k.Typ, what, got, want, ref.Render(k.D(), k.V))
		}
	}
}

// deep prefers types with big limits: they need zero hashes of many depths.
func draw(c *h.C) *gen.Case {
	if gen.Index(c.T, 2, "kind") == 0 {
		return gen.NewCase(c.T)
	}
	return gen.CaseOf(c.T, gen.TypeWhere(c.T, "padded", padded))
}

func padded(d *ref.Desc) bool {
	switch d.Kind {
	case ref.Bytes, ref.Bitlist, ref.List:
		if d.Limit > 64 {
			return true
		}
	}
	for _, f := range d.Fields {
		if padded(f.D) {
			return true
		}
	}
	return d.Elem != nil && padded(d.Elem)
}

// TestADefault runs first: nothing has called InitZeroHashes in this process.
func TestADefault(t *testing.T) {
	h.Check(t, 0.3, func(c *h.C) {
		k := draw(c)
		check(c, k, htr.HashFn(sha256.Sum256), ref.NewHasher(sha256.Sum256), "the default")
		c.Label("default")
		c.NonTrivial(nil, k.Typ.T, k.Enc)
	})
}

// TestHistory switches between hash functions, and hashes under each of them.
func TestHistory(t *testing.T) {
	h.Check(t, 0.5, func(c *h.C) {
		defer htr.InitZeroHashes(sha256.Sum256)
		n := 1 + gen.Index(c.T, 4, "switches")
		var ks []*gen.Case
		for i := 0; i < 2; i++ {
			ks = append(ks, draw(c))
		}
		trail := ""
		for i := 0; i < n; i++ {
			kind := gen.From(c.T, merk.Kinds, "hash")
			key := gen.Seed(c.T, "key")
			f := merk.HashFn(kind, key)
			r := ref.NewHasher(f)
			z.Try(c, "InitZeroHashes", func() { htr.InitZeroHashes(f) })
			trail += kind + " "
			if gen.Index(c.T, 4, "new") == 0 {
				ks[gen.Index(c.T, 2, "which")] = draw(c)
			}
			for j, k := range ks {
				object := gen.Index(c.T, 2, "object") == 0
				check(c, k, merk.Fn(f, object), r, fmt.Sprintf("%s (object %v), value %d, after %s", kind, object, j, trail))
			}
			c.Label("%s as switch %d", kind, i)
		}
		c.NonTrivial(func() any {
			return map[string]any{"hashes": trail, "type": ks[0].Typ.String(), "value": ref.Render(ks[0].D(), ks[0].V)}
		},
			trail, ks[0].Enc, ks[1].Enc)
	})
}

// TestPairs: pairs and length mixing of HashFn.
func TestPairs(t *testing.T) {
	h.Check(t, 0.1, func(c *h.C) {
		kind := gen.From(c.T, merk.Kinds, "hash")
		f := merk.HashFn(kind, gen.Seed(c.T, "key"))
		var a, b [32]byte
		rng := &bridge.Rng{S: gen.Seed(c.T, "seed")}
		// the zero hashes are those of SHA-256 here: they must not be mistaken for those of f
		special := func(x *[32]byte, key string) {
			switch gen.Index(c.T, 4, key) {
			case 0:
				rng.Fill(x[:])
			case 1:
				*x = htr.ZeroHashes[gen.Index(c.T, len(htr.ZeroHashes), "zero hash")]
			case 2:
				x[rng.N(32)] = byte(rng.N(256))
			}
		}
		special(&a, "a")
		if gen.Index(c.T, 3, "equal") == 0 {
			b = a
		} else {
			special(&b, "b")
		}
		n := merk.Any(c, "n")
		if gen.Index(c.T, 4, "small") == 0 {
			n = uint64(gen.Index(c.T, 300, "length"))
		}
		var in [64]byte
		copy(in[:], a[:])
		copy(in[32:], b[:])
		hf := htr.HashFn(f)
		if got, want := hf.Combi(a, b), f(in[:]); got != want {
			z.Violated(c, "Combi under %s: %x, want %x", kind, got, want)
		}
		in = [64]byte{}
		copy(in[:], a[:])
		for i := 0; i < 8; i++ {
			in[32+i] = byte(n >> (8 * i))
		}
		if got, want := hf.MixIn(a, n), f(in[:]); got != want {
			z.Violated(c, "MixIn of %d under %s: %x, want %x", n, kind, got, want)
		}
		c.Label("equal %v, zeros %v", a == b, a == [32]byte{})
		c.NonTrivial(nil, kind, a[:], b[:], n)
	})
}
