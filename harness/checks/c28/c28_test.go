// Package c28 checks that work and memory follow the value and not the limits of its type.
package c28

import (
	"crypto/sha256"
	"io"
	"runtime"
	"testing"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/merkle"
	"github.com/protolambda/zssz/types"

	"zverif/blocks"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/z"
)

func TestMain(m *testing.M) { h.Main(m) }

func up(a, b uint64) uint64 {
	q := a / b
	if a%b != 0 {
		q++
	}
	return q
}

// tree is what the tree over n chunks under a limit may cost: a node for each pair up to the next power of two, and the way up.
func tree(n, limit uint64) uint64 { return 2*max(n, 1) + uint64(ref.Depth(limit)) + 2 }

// cost is the bound on the hash calls for a value, and the number of its parts.
func cost(d *ref.Desc, v *ref.Val) (calls, parts uint64) {
	switch d.Kind {
	case ref.Bool, ref.Uint:
		return 0, 1
	case ref.BytesN:
		return tree(up(d.N, 32), up(d.N, 32)), 1
	case ref.Bytes:
		return tree(up(uint64(len(v.B)), 32), up(d.Limit, 32)), 1
	case ref.Bitvector:
		return tree(up(d.N, 256), up(d.N, 256)), 1
	case ref.Bitlist:
		return tree(up(uint64(len(v.B)), 256), up(d.Limit, 256)), 1
	}
	n := uint64(len(v.E))
	limit := n
	if d.Kind == ref.List {
		limit = d.Limit
	}
	if d.Kind != ref.Container && d.Elem.BasicSSZ() {
		per := 32 / d.Elem.Size
		parts = 1
		if d.PackedElems() {
			n = d.Len(v)
		} else {
			parts += n
		}
		if d.Kind == ref.Vector {
			n, limit = d.N, d.N
		}
		return tree(up(n, per), up(limit, per)), parts
	}
	calls, parts = tree(n, limit), 1
	for i, e := range v.E {
		c, p := cost(d.Child(i), e)
		calls += c
		parts += p
	}
	return
}

// generous: some have a list whose limit is far above what the value holds
func generous(d *ref.Desc) bool {
	switch d.Kind {
	case ref.Bytes, ref.Bitlist:
		return d.Limit > 2000
	case ref.List:
		return d.Limit > 100 || generous(d.Elem)
	case ref.Vector:
		return d.Elem != nil && !d.PackedElems() && generous(d.Elem)
	case ref.Container:
		for _, f := range d.Fields {
			if generous(f.D) {
				return true
			}
		}
	}
	return false
}

type counter struct{ calls uint64 }

func (k *counter) hash(b []byte) [32]byte {
	k.calls++
	return sha256.Sum256(b)
}

type sink struct{ n uint64 }

func (s *sink) Write(p []byte) (int, error) {
	s.n += uint64(len(p))
	return len(p), nil
}

var before, after runtime.MemStats

// meter tells how many bytes an operation allocates.
func meter(fn func()) uint64 {
	runtime.ReadMemStats(&before)
	fn()
	runtime.ReadMemStats(&after)
	return after.TotalAlloc - before.TotalAlloc
}

func check(c *h.C, k *gen.Case) {
	calls, parts := cost(k.D(), k.V)
	size := uint64(len(k.Enc))
	val := k.Ptr()
	var used uint64
	judge := func(what string, bound uint64) {
		if used > bound {
			z.Violated(c, "%s of %s allocated %d bytes for a value of %d encoded bytes in %d parts, bound %d\nvalue %s", what, k.Typ, used, size, parts, bound, ref.Render(k.D(), k.V))
		}
	}
	what := "" // the first operation on a definition may set something up
	switch gen.Index(c.T, 5, "op") {
	case 0, 1:
		what = "HashTreeRoot"
		n := counter{}
		z.Try(c, what, func() { used = meter(func() { zssz.HashTreeRoot(htr.HashFn(n.hash), val, k.Typ.S) }) })
		if n.calls > calls {
			z.Violated(c, "HashTreeRoot of %s called the hash function %d times, bound %d\nvalue %s", k.Typ, n.calls, calls, ref.Render(k.D(), k.V))
		}
		judge(what, 64<<10+16*size+1024*(calls+parts))
		if _, signed := k.Typ.S.(types.SignedSSZ); signed {
			n = counter{}
			z.Try(c, "SigningRoot", func() { used = meter(func() { zssz.SigningRoot(htr.HashFn(n.hash), val, k.Typ.S.(types.SignedSSZ)) }) })
			if n.calls > calls {
				z.Violated(c, "SigningRoot of %s called the hash function %d times, bound %d\nvalue %s", k.Typ, n.calls, calls, ref.Render(k.D(), k.V))
			}
			judge("SigningRoot", 64<<10+16*size+1024*(calls+parts))
		}
	case 2:
		what = "Encode"
		w := sink{}
		z.Try(c, what, func() { used = meter(func() { _, _ = zssz.Encode(&w, val, k.Typ.S) }) })
		judge(what, 64<<10+16*size+1024*parts)
	case 3:
		what = "SizeOf"
		z.Try(c, what, func() { used = meter(func() { zssz.SizeOf(val, k.Typ.S) }) })
		judge(what, 64<<10+16*size+1024*parts)
	case 4:
		what = "Pretty"
		w := sink{}
		z.Try(c, what, func() { used = meter(func() { zssz.Pretty(io.Writer(&w), "  ", val, k.Typ.S) }) })
		judge(what, 64<<10+64*size+64*w.n+1024*parts)
	}
	c.Label("%s: generous=%v", what, generous(k.D()))
	if parts > 1 || generous(k.D()) {
		c.NonTrivial(k.Sample, k.Typ.T, k.Enc, what)
	}
}

func TestWork(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		var k *gen.Case
		if gen.Index(c.T, 3, "generous") > 0 {
			k = gen.CaseOf(c.T, gen.TypeWhere(c.T, "generous", generous))
		} else {
			k = gen.NewCase(c.T)
		}
		check(c, k)
	})
}

func TestBlocks(t *testing.T) {
	h.Check(t, 0.01, func(c *h.C) { check(c, blocks.Case(c)) })
}

// TestMerkle: hash and leaf calls of Merkleize and ConstructProof.
func TestMerkle(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		count := uint64(gen.Index(c.T, 70, "count"))
		if gen.Index(c.T, 8, "more") == 0 {
			count = uint64(gen.Index(c.T, 5000, "count"))
		}
		limit := count
		if gen.Index(c.T, 4, "limit") > 0 {
			limit += uint64(1)<<uint(gen.Index(c.T, 64, "log")) - uint64(gen.Index(c.T, 2, "d"))
			if limit < count {
				limit = ^uint64(0)
			}
		}
		one := [32]byte{1}
		leafCalls := uint64(0)
		leaf := func(uint64) []byte {
			leafCalls++
			return one[:]
		}
		n := counter{}
		bound := tree(count, limit)
		name := "Merkleize"
		var used uint64
		if limit == 0 || gen.Index(c.T, 2, "proof") == 0 {
			z.Try(c, name, func() { used = meter(func() { merkle.Merkleize(htr.HashFn(n.hash), count, limit, leaf) }) })
		} else {
			name = "ConstructProof"
			i := uint64(gen.Index(c.T, int(min(limit, 6000)), "index"))
			if gen.Index(c.T, 3, "far") == 0 {
				i = limit - 1 - i
			}
			z.Try(c, name, func() { used = meter(func() { merkle.ConstructProof(htr.HashFn(n.hash), count, limit, leaf, i) }) })
		}
		if n.calls > bound {
			z.Violated(c, "%s of %d leaves, limit %d, called the hash function %d times, bound %d", name, count, limit, n.calls, bound)
		}
		if leafCalls > 2*count+2 {
			z.Violated(c, "%s of %d leaves, limit %d, asked for leaves %d times", name, count, limit, leafCalls)
		}
		if b := 64<<10 + 1024*bound; used > b {
			z.Violated(c, "%s of %d leaves, limit %d, allocated %d bytes, bound %d", name, count, limit, used, b)
		}
		c.Label("%s", name)
		if count > 0 && limit > 1 {
			c.NonTrivial(func() any {
				return map[string]any{"what": name, "leaves": count, "limit": limit, "hash calls": n.calls, "bound": bound}
			}, name, count, limit)
		}
	})
}
