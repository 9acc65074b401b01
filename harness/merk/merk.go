// Package merk draws merkleization cases: leaf counts, limits, leaves, pair hashes.
package merk

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/bits"

	"pgregory.net/rapid"

	"github.com/protolambda/zssz/htr"

	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/z"
)

// HashFn is a family of hash functions from byte strings to 32 bytes.
func HashFn(kind string, key uint64) func([]byte) [32]byte {
	switch kind {
	case "sha256":
		return sha256.Sum256
	case "keyed":
		return func(b []byte) [32]byte {
			var k [8]byte
			binary.BigEndian.PutUint64(k[:], key)
			return sha256.Sum256(append(k[:], b...))
		}
	case "mix": // cheap, not commutative
		return func(b []byte) (out [32]byte) {
			x := key ^ uint64(len(b))
			for i := 0; i < len(b); i += 8 {
				var w uint64
				for j := i; j < i+8 && j < len(b); j++ {
					w = w<<8 | uint64(b[j])
				}
				x = (bits.RotateLeft64(x, 23) ^ w) * 0x9e3779b97f4a7c15
				x ^= x >> 29
			}
			r := bridge.Rng{S: x}
			r.Fill(out[:])
			return
		}
	case "constant": // not injective at all
		return func([]byte) (out [32]byte) {
			binary.LittleEndian.PutUint64(out[7:], key)
			return
		}
	case "window": // all hashes look alike, but for a few bytes somewhere
		return func(b []byte) (out [32]byte) {
			var k [8]byte
			binary.BigEndian.PutUint64(k[:], key)
			sum := sha256.Sum256(append(k[:], b...))
			at, n := int(key%32), 3+int(key>>8)%4
			for i := range out {
				out[i] = byte(key >> 16)
			}
			for i := 0; i < n; i++ {
				out[(at+i)%32] = sum[i]
			}
			return
		}
	case "first": // takes the left half: degenerate, but a function from byte strings to 32 bytes
		return func(b []byte) (out [32]byte) {
			copy(out[:], b)
			out[31] ^= byte(key)
			return
		}
	}
	panic(kind)
}

// Kinds of hash functions.
var Kinds = []string{"sha256", "keyed", "mix", "window", "constant", "first"}

// obj is a MerkleFn that is not a HashFn, with a scratchpad like real ones have.
type obj struct {
	f       func([]byte) [32]byte
	scratch [64]byte
}

func (o *obj) Combi(a, b [32]byte) [32]byte {
	copy(o.scratch[:32], a[:])
	copy(o.scratch[32:], b[:])
	return o.f(o.scratch[:])
}

func (o *obj) MixIn(a [32]byte, i uint64) [32]byte {
	o.scratch = [64]byte{}
	copy(o.scratch[:32], a[:])
	binary.LittleEndian.PutUint64(o.scratch[32:], i)
	return o.f(o.scratch[:])
}

// Fn wraps a hash function as one of the implementations of MerkleFn.
func Fn(f func([]byte) [32]byte, object bool) htr.MerkleFn {
	if object {
		return &obj{f: f}
	}
	return htr.HashFn(f)
}

type Case struct {
	Count, Limit uint64
	Depth        int
	Leaves       [][32]byte
	Seed         uint64
	HashName     string
	Fn           htr.MerkleFn
	Ref          *ref.Hasher
	raw          []byte
	sum          [32]byte
	wrong        []uint64
	swapped      bool
	reuse        bool // the callback returns the same memory every time
	buf          [32]byte
}

func (k *Case) String() string {
	return fmt.Sprintf("%d leaves, limit %d, hash %s, seed %#x", k.Count, k.Limit, k.HashName, k.Seed)
}

func (k *Case) Sample() any { return k.String() }

// Leaf is the leaf callback.
func (k *Case) Leaf(i uint64) []byte {
	if i >= uint64(len(k.Leaves)) {
		k.wrong = append(k.wrong, i)
		return make([]byte, 32)
	}
	if k.reuse {
		copy(k.buf[:], k.raw[i*32:])
		return k.buf[:]
	}
	return k.raw[i*32 : i*32+32 : i*32+32]
}

func (k *Case) CheckAccess(c z.TB) {
	if len(k.wrong) > 0 {
		z.Violated(c, "asked for leaf %d, which does not exist: %v", k.wrong[0], k)
	}
	if sha256.Sum256(k.raw) != k.sum {
		z.Violated(c, "leaves were modified: %v", k)
	}
}

func (k *Case) Pair(a, b [32]byte) [32]byte {
	var x [64]byte
	copy(x[:32], a[:])
	copy(x[32:], b[:])
	return k.Ref.H(x[:])
}

// Restore installs the default zero hashes again.
func (k *Case) Restore() {
	if k.swapped {
		htr.InitZeroHashes(sha256.Sum256)
	}
}

func (k *Case) fill(n uint64, seed uint64) {
	k.Seed = seed
	k.reuse = seed%3 == 1
	k.raw = make([]byte, n*32)
	r := &bridge.Rng{S: seed}
	r.Fill(k.raw)
	k.Leaves = make([][32]byte, n)
	for i := range k.Leaves {
		if seed%5 == 0 && r.N(3) == 0 {
			copy(k.raw[i*32:], make([]byte, 32)) // zero leaves among the others
		}
		copy(k.Leaves[i][:], k.raw[i*32:])
	}
	k.sum = sha256.Sum256(k.raw)
	k.Depth = ref.Depth(k.Limit)
}

// Make builds a case with SHA-256.
func Make(count, limit, seed uint64) *Case {
	k := &Case{Count: count, Limit: limit, HashName: "sha256", Fn: htr.HashFn(sha256.Sum256), Ref: ref.DefaultHasher}
	k.fill(count, seed)
	return k
}

// MakeCheap builds a case with a cheap hash, and installs its zero hashes.
func MakeCheap(count, limit, seed uint64) *Case {
	f := HashFn("mix", seed)
	htr.InitZeroHashes(f)
	k := &Case{Count: count, Limit: limit, HashName: "mix", Fn: htr.HashFn(f), Ref: ref.NewHasher(f), swapped: true}
	k.fill(count, seed)
	return k
}

// Any draws a 64-bit number near interesting places.
func Any(c *h.C, label string) uint64 {
	switch gen.Index(c.T, 4, label) {
	case 0:
		return gen.Seed(c.T, label)
	case 1:
		return uint64(gen.Index(c.T, 40, label))
	case 2:
		return uint64(1)<<uint(gen.Index(c.T, 64, label)) + uint64(gen.Index(c.T, 3, label)) - 1
	}
	return ^uint64(0) - uint64(gen.Index(c.T, 4, label))
}

func count(c *h.C) uint64 {
	switch gen.Index(c.T, 6, "count") {
	case 0:
		return uint64(gen.Index(c.T, 5, "n"))
	case 1, 2:
		return uint64(gen.Index(c.T, 40, "n"))
	case 3:
		return uint64(1)<<uint(gen.Index(c.T, 9, "log")) + uint64(gen.Index(c.T, 3, "d")) - 1
	case 4:
		return uint64(gen.Index(c.T, 300, "n"))
	}
	if gen.Index(c.T, 12, "many") == 0 {
		return uint64(1)<<uint(10+gen.Index(c.T, 7, "log")) + uint64(gen.Index(c.T, 3, "d")) - 1
	}
	return uint64(rapid.IntRange(0, 2100).Draw(c.T, "n"))
}

func (k *Case) hash(c *h.C) {
	kind := gen.From(c.T, Kinds, "hash")
	key := uint64(0)
	object := gen.Index(c.T, 3, "object") == 0
	if kind != "sha256" {
		key = gen.Seed(c.T, "key")
	}
	f := HashFn(kind, key)
	k.HashName = kind
	if object {
		k.HashName += " object"
	}
	k.Fn = Fn(f, object)
	k.Ref = ref.NewHasher(f)
	if kind != "sha256" {
		k.swapped = true
		htr.InitZeroHashes(f)
	}
}

// Draw draws a case with count <= limit.
func Draw(c *h.C) *Case {
	k := &Case{}
	k.Count = count(c)
	switch gen.Index(c.T, 6, "limit") {
	case 0:
		k.Limit = k.Count
	case 1:
		k.Limit = k.Count + uint64(gen.Index(c.T, 9, "more"))
	case 2:
		k.Limit = uint64(1)<<uint(gen.Index(c.T, 64, "log")) + uint64(gen.Index(c.T, 3, "d")) - 1
	case 3:
		k.Limit = k.Count + gen.Seed(c.T, "far")>>uint(gen.Index(c.T, 63, "shift"))
	case 4:
		k.Limit = ^uint64(0) - uint64(gen.Index(c.T, 3, "below"))
	case 5:
		k.Limit = k.Count * uint64(1+gen.Index(c.T, 5, "times"))
	}
	if k.Limit < k.Count {
		k.Limit = k.Count
	}
	k.hash(c)
	k.fill(k.Count, gen.Seed(c.T, "leaves"))
	return k
}

// DrawOver draws a case with count > limit.
func DrawOver(c *h.C) *Case {
	k := &Case{}
	k.Limit = count(c)
	switch gen.Index(c.T, 3, "over") {
	case 0:
		k.Count = k.Limit + 1
	case 1:
		k.Count = k.Limit + 1 + uint64(gen.Index(c.T, 40, "by"))
	case 2:
		k.Count = k.Limit + 1 + gen.Seed(c.T, "by")%(^uint64(0)-k.Limit)
	}
	k.hash(c)
	n := k.Count
	if n > 5000 {
		n = 0 // nobody should ask
	}
	k.fill(n, gen.Seed(c.T, "leaves"))
	return k
}

// Index draws an index below the limit.
func Index(c *h.C, count, limit uint64) uint64 {
	i := uint64(0)
	switch gen.Index(c.T, 5, "index") {
	case 0:
		if count > 0 {
			i = uint64(gen.Index(c.T, int(min(count, 1<<20)), "leaf"))
		}
	case 1:
		i = count + uint64(gen.Index(c.T, 5, "after"))
	case 2:
		i = limit - 1
	case 3:
		i = uint64(1)<<uint(gen.Index(c.T, 64, "log")) + uint64(gen.Index(c.T, 3, "d")) - 1
	case 4:
		i = gen.Seed(c.T, "any")
	}
	return i % limit
}

// Log is the depth of a tree of n leaves.
func Log(n uint64) int { return ref.Depth(n) }
