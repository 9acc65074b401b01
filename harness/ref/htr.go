package ref

import (
	"crypto/sha256"
	"math/bits"
)

// Hash is any function from byte strings to 32 bytes.
type Hash func([]byte) [32]byte

var Sha Hash = sha256.Sum256

type Hasher struct {
	H     Hash
	zeros [][32]byte
}

func NewHasher(h Hash) *Hasher { return &Hasher{H: h, zeros: make([][32]byte, 1)} }

var DefaultHasher = NewHasher(Sha)

func (h *Hasher) pair(a, b [32]byte) [32]byte {
	var x [64]byte
	copy(x[:32], a[:])
	copy(x[32:], b[:])
	return h.H(x[:])
}

// ZeroRoot is the root of an all-zero tree of the given depth.
func (h *Hasher) ZeroRoot(depth int) [32]byte {
	for len(h.zeros) <= depth {
		z := h.zeros[len(h.zeros)-1]
		h.zeros = append(h.zeros, h.pair(z, z))
	}
	return h.zeros[depth]
}

// Depth of the smallest power-of-two tree with room for limit leaves.
func Depth(limit uint64) int {
	if limit <= 1 {
		return 0
	}
	return bits.Len64(limit - 1)
}

// Tree is the root of a tree of the given depth with these leftmost leaves, the rest zero. Top-down recursion.
func (h *Hasher) Tree(leaves [][32]byte, depth int) [32]byte {
	if len(leaves) == 0 {
		return h.ZeroRoot(depth)
	}
	if depth == 0 {
		return leaves[0]
	}
	split := len(leaves)
	if depth-1 < 62 {
		if half := uint64(1) << uint(depth-1); half < uint64(split) {
			split = int(half)
		}
	}
	return h.pair(h.Tree(leaves[:split], depth-1), h.Tree(leaves[split:], depth-1))
}

// Branch is the Merkle branch for index, bottom first.
func (h *Hasher) Branch(leaves [][32]byte, depth int, index uint64) [][32]byte {
	if depth == 0 {
		return nil
	}
	split := len(leaves)
	half := uint64(1) << uint(depth-1)
	if half < uint64(split) {
		split = int(half)
	}
	if index < half {
		return append(h.Branch(leaves[:split], depth-1, index), h.Tree(leaves[split:], depth-1))
	}
	return append(h.Branch(leaves[split:], depth-1, index-half), h.Tree(leaves[:split], depth-1))
}

func chunks(b []byte) [][32]byte {
	out := make([][32]byte, (len(b)+31)/32)
	for i := range out {
		copy(out[i][:], b[i*32:])
	}
	return out
}

func (h *Hasher) mix(root [32]byte, n uint64) [32]byte {
	var l [32]byte
	copy(l[:], le(n, 8))
	return h.pair(root, l)
}

func ceilDiv(a, b uint64) uint64 {
	q := a / b
	if a%b != 0 {
		q++
	}
	return q
}

// Root is the hash-tree-root.
func (h *Hasher) Root(d *Desc, v *Val) [32]byte {
	if d.Custom != nil {
		return d.Custom.Root(v)
	}
	switch d.Kind {
	case Bool, Uint:
		var c [32]byte
		copy(c[:], le(v.U, d.Size))
		return c
	case BytesN:
		return h.Tree(chunks(v.B), Depth(ceilDiv(d.N, 32)))
	case Bytes:
		return h.mix(h.Tree(chunks(v.B), Depth(ceilDiv(d.Limit, 32))), uint64(len(v.B)))
	case Bitvector:
		return h.Tree(chunks(packBits(v.B, false)), Depth(ceilDiv(d.N, 256)))
	case Bitlist:
		return h.mix(h.Tree(chunks(packBits(v.B, false)), Depth(ceilDiv(d.Limit, 256))), uint64(len(v.B)))
	}
	if d.PackedElems() {
		per := 32 / d.Elem.Size
		if d.Kind == Vector {
			return h.Tree(chunks(v.B), Depth(ceilDiv(d.N, per)))
		}
		return h.mix(h.Tree(chunks(v.B), Depth(ceilDiv(d.Limit, per))), d.Len(v))
	}
	if d.Kind != Container && d.Elem.BasicSSZ() {
		// pointers to basics: the same SSZ type as the basics themselves
		var b []byte
		for _, e := range v.E {
			b = append(b, le(e.U, d.Elem.Size)...)
		}
		per := 32 / d.Elem.Size
		if d.Kind == Vector {
			return h.Tree(chunks(b), Depth(ceilDiv(d.N, per)))
		}
		return h.mix(h.Tree(chunks(b), Depth(ceilDiv(d.Limit, per))), uint64(len(v.E)))
	}
	leaves := make([][32]byte, len(v.E))
	for i, e := range v.E {
		leaves[i] = h.Root(d.Child(i), e)
	}
	switch d.Kind {
	case List:
		return h.mix(h.Tree(leaves, Depth(d.Limit)), uint64(len(leaves)))
	default:
		return h.Tree(leaves, Depth(uint64(len(leaves))))
	}
}

// SigningRoot leaves out the last serialized field of a container.
func (h *Hasher) SigningRoot(d *Desc, v *Val) [32]byte {
	n := len(v.E)
	if n > 0 {
		n--
	}
	leaves := make([][32]byte, n)
	for i := range leaves {
		leaves[i] = h.Root(d.Fields[i].D, v.E[i])
	}
	return h.Tree(leaves, Depth(uint64(n)))
}
