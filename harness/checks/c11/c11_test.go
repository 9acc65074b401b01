package c11

import (
	"crypto/sha256"
	"testing"

	"zverif/h"
	"zverif/merk"
	"zverif/z"

	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/merkle"
)

func TestMain(m *testing.M) { h.Main(m) }

func TestMerkleize(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		k := merk.Draw(c)
		defer k.Restore()
		want := k.Ref.Tree(k.Leaves, k.Depth)
		var got [32]byte
		z.Try(c, "Merkleize of "+k.String(), func() { got = merkle.Merkleize(k.Fn, k.Count, k.Limit, k.Leaf) })
		if got != want {
			z.Violated(c, "Merkleize of %v: got %x, want %x", k, got, want)
		}
		k.CheckAccess(c)
		c.Label("hash %s, depth %d of %d", k.HashName, merk.Log(k.Count), k.Depth/8*8)
		if k.Count >= 2 || k.Depth >= 1 {
			c.NonTrivial(k.Sample, k.Count, k.Limit, k.Seed, k.HashName)
		}
	})
}

// TestSmall enumerates every count and limit up to 40.
func TestSmall(t *testing.T) {
	n, own := 0, 0
	for limit := uint64(0); limit <= 40; limit++ {
		for count := uint64(0); count <= limit; count++ {
			if !h.Mine(n) {
				n++
				continue
			}
			own++
			k := merk.Make(count, limit, count*1000+limit)
			got := [32]byte{}
			z.Try(t, "Merkleize of "+k.String(), func() { got = merkle.Merkleize(k.Fn, k.Count, k.Limit, k.Leaf) })
			if want := k.Ref.Tree(k.Leaves, k.Depth); got != want {
				z.Violated(t, "Merkleize of %v: got %x, want %x", k, got, want)
			}
			n++
		}
	}
	h.Count(t.Name(), own)
}

// TestEvery enumerates every count up to 4100 (the limit being that, or some more), and those around powers of two up to 2^17.
func TestEvery(t *testing.T) {
	own := 0
	one := func(n int, count uint64) {
		if !h.Mine(n) {
			return
		}
		limit := count
		switch n % 3 {
		case 1:
			limit += count % 7
		case 2:
			limit += count * (count % 50)
		}
		k := merk.Make(count, limit, count)
		got := [32]byte{}
		z.Try(t, "Merkleize of "+k.String(), func() { got = merkle.Merkleize(k.Fn, k.Count, k.Limit, k.Leaf) })
		if want := k.Ref.Tree(k.Leaves, k.Depth); got != want {
			z.Violated(t, "Merkleize of %v: got %x, want %x", k, got, want)
		}
		k.CheckAccess(t)
		own++
	}
	n := 0
	for count := uint64(41); count <= 4100; count++ {
		one(n, count)
		n++
	}
	for log := uint(13); log <= 17; log++ {
		for d := uint64(0); d < 3; d++ {
			one(n, 1<<log+d-1)
			n++
		}
	}
	h.Count(t.Name(), own)
}

// TestMany takes counts around bigger powers of two, with a cheap hash.
func TestMany(t *testing.T) {
	defer htr.InitZeroHashes(sha256.Sum256)
	own, n := 0, 0
	for log := uint(16); log <= 21; log++ {
		for d := uint64(0); d < 3; d++ {
			n++
			if !h.Mine(n) {
				continue
			}
			count := uint64(1)<<log + d - 1
			k := merk.MakeCheap(count, count<<(n%4), count)
			got := [32]byte{}
			z.Try(t, "Merkleize of "+k.String(), func() { got = merkle.Merkleize(k.Fn, k.Count, k.Limit, k.Leaf) })
			if want := k.Ref.Tree(k.Leaves, k.Depth); got != want {
				z.Violated(t, "Merkleize of %v: got %x, want %x", k, got, want)
			}
			k.CheckAccess(t)
			own++
		}
	}
	h.Count(t.Name(), own)
}

// TestOverLimit: more leaves than the limit are refused with a panic.
func TestOverLimit(t *testing.T) {
	h.Check(t, 0.3, func(c *h.C) {
		k := merk.DrawOver(c)
		defer k.Restore()
		var got [32]byte
		p, _ := z.Panics(func() { got = merkle.Merkleize(k.Fn, k.Count, k.Limit, k.Leaf) })
		if p == nil {
			z.Violated(c, "Merkleize accepted %v: %x", k, got)
		}
		c.NonTrivial(k.Sample, k.Count, k.Limit)
	})
}
