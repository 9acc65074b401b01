package c12

import (
	"crypto/sha256"
	"testing"

	"zverif/gen"
	"zverif/h"
	"zverif/merk"
	"zverif/z"

	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/merkle"
)

func TestMain(m *testing.M) { h.Main(m) }

func verify(c z.TB, k *merk.Case, index uint64) {
	var branch [][32]byte
	z.Try(c, "ConstructProof of "+k.String(), func() { branch = merkle.ConstructProof(k.Fn, k.Count, k.Limit, k.Leaf, index) })
	if len(branch) != k.Depth {
		z.Violated(c, "proof of index %d of %v has %d siblings, want %d", index, k, len(branch), k.Depth)
	}
	var root, node [32]byte
	z.Try(c, "Merkleize of "+k.String(), func() { root = merkle.Merkleize(k.Fn, k.Count, k.Limit, k.Leaf) })
	if want := k.Ref.Tree(k.Leaves, k.Depth); root != want {
		z.Violated(c, "Merkleize of %v: got %x, want %x", k, root, want)
	}
	if index < k.Count {
		node = k.Leaves[index]
	}
	for j, s := range branch {
		if index>>uint(j)&1 == 0 {
			node = k.Pair(node, s)
		} else {
			node = k.Pair(s, node)
		}
	}
	if node != root {
		z.Violated(c, "proof of index %d of %v leads to %x, the root is %x", index, k, node, root)
	}
	want := k.Ref.Branch(k.Leaves, k.Depth, index)
	for j := range want {
		if branch[j] != want[j] {
			z.Violated(c, "proof of index %d of %v: sibling %d is %x, want %x", index, k, j, branch[j], want[j])
		}
	}
	if k.Count <= 4096 {
		own(c, k, index, branch, want, root)
	}
}

// own: the branch belongs to the caller, who may write into it and append to it.
func own(c z.TB, k *merk.Case, index uint64, branch, want [][32]byte, root [32]byte) {
	keep := append([][32]byte(nil), htr.ZeroHashes...)
	defer copy(htr.ZeroHashes, keep)
	all := branch[:cap(branch)]
	for j := range all {
		for i := range all[j] {
			all[j][i] ^= 0xa5
		}
	}
	var again [][32]byte
	var r [32]byte
	z.Try(c, "ConstructProof of "+k.String(), func() { again = merkle.ConstructProof(k.Fn, k.Count, k.Limit, k.Leaf, index) })
	z.Try(c, "Merkleize of "+k.String(), func() { r = merkle.Merkleize(k.Fn, k.Count, k.Limit, k.Leaf) })
	if r != root {
		z.Violated(c, "after writing into a proof of index %d of %v, its root is %x, was %x", index, k, r, root)
	}
	if len(again) != len(want) {
		z.Violated(c, "after writing into a proof of index %d of %v, the next one has %d siblings, want %d", index, k, len(again), len(want))
	}
	for j := range want {
		if again[j] != want[j] {
			z.Violated(c, "after writing into a proof of index %d of %v, sibling %d of the next one is %x, want %x", index, k, j, again[j], want[j])
		}
	}
}

func TestProof(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		k := merk.Draw(c)
		defer k.Restore()
		if k.Limit == 0 {
			return
		}
		index := merk.Index(c, k.Count, k.Limit)
		verify(c, k, index)
		k.CheckAccess(c)
		where := "leaf"
		if index >= k.Count {
			where = "padding"
		}
		if merk.Log(index+1) > merk.Log(k.Count) {
			where = "far padding"
		}
		c.Label("%s, hash %s", where, k.HashName)
		if k.Depth >= 1 {
			c.NonTrivial(func() any { return map[string]any{"case": k.String(), "index": index} }, k.Count, k.Limit, index, k.Seed, k.HashName)
		}
	})
}

// TestSmall enumerates every count, limit and index up to 20.
func TestSmall(t *testing.T) {
	n := 0
	for limit := uint64(1); limit <= 20; limit++ {
		for count := uint64(0); count <= limit; count++ {
			if !h.Mine(int(limit + count)) {
				continue
			}
			k := merk.Make(count, limit, count*1000+limit)
			for index := uint64(0); index < limit; index++ {
				verify(t, k, index)
				n++
			}
		}
	}
	h.Count(t.Name(), n)
}

// TestMany takes counts around bigger powers of two, with a cheap hash.
func TestMany(t *testing.T) {
	defer htr.InitZeroHashes(sha256.Sum256)
	own, n := 0, 0
	for log := uint(16); log <= 20; log++ {
		for d := uint64(0); d < 3; d++ {
			n++
			if !h.Mine(n) {
				continue
			}
			count := uint64(1)<<log + d - 1
			k := merk.MakeCheap(count, count<<(n%4), count)
			for _, index := range []uint64{0, count / 3, count - 1, k.Limit - 1} {
				verify(t, k, index)
				own++
			}
			k.CheckAccess(t)
		}
	}
	h.Count(t.Name(), own)
}

// TestRefused: an index at or above the limit, or more leaves than the limit, are refused with a panic.
func TestRefused(t *testing.T) {
	h.Check(t, 0.3, func(c *h.C) {
		var k *merk.Case
		var index uint64
		if gen.Index(c.T, 2, "kind") == 0 {
			k = merk.DrawOver(c)
			if k.Limit > 0 && gen.Index(c.T, 2, "below") == 0 {
				index = merk.Index(c, k.Count, k.Limit)
			} else {
				index = merk.Any(c, "index")
			}
			c.Label("too many leaves")
		} else {
			k = merk.Draw(c)
			index = k.Limit
			if gen.Index(c.T, 2, "just") == 0 {
				if x := merk.Any(c, "above"); x > k.Limit {
					index = x
				}
			}
			c.Label("index over limit")
		}
		defer k.Restore()
		p, _ := z.Panics(func() { merkle.ConstructProof(k.Fn, k.Count, k.Limit, k.Leaf, index) })
		if p == nil {
			z.Violated(c, "ConstructProof accepted index %d of %v", index, k)
		}
		c.NonTrivial(nil, k.Count, k.Limit, index)
	})
}
