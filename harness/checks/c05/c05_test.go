package c05

import (
	"crypto/sha256"
	"encoding/binary"
	"flag"
	"math/bits"
	"reflect"
	"strconv"
	"testing"
	"unsafe"

	"zverif/blocks"
	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/huge"
	"zverif/ref"
	"zverif/z"

	"github.com/protolambda/zssz/htr"
)

func TestMain(m *testing.M) { h.Main(m) }

func check(c *h.C, k *gen.Case) {
	want := ref.DefaultHasher.Root(k.D(), k.V)
	if got := z.Root(c, k.Typ, k.Ptr(), z.Hash); got != want {
		z.Violated(c, "root of %s\nvalue %s\ngot  %x\nwant %x", k.Typ, ref.Render(k.D(), k.V), got, want)
	}
}

func nodes(d *ref.Desc, v *ref.Val) int {
	if d.Custom != nil || d.Kind < ref.Vector || d.PackedElems() {
		return 1 + len(v.B)/32
	}
	n := 1
	for i, e := range v.E {
		n += nodes(d.Child(i), e)
	}
	return n
}

func TestRoot(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		k := gen.NewCase(c.T)
		c.Label("kind %v", k.D().Kind)
		check(c, k)
		if nodes(k.D(), k.V) >= 2 {
			c.NonTrivial(k.Sample, k.Typ.T, k.Enc)
		}
	})
}

// TestSeries concentrates on list-like types, with lengths around the chunk and limit boundaries.
func TestSeries(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		typ := gen.TypeWhere(c.T, "series", func(d *ref.Desc) bool {
			return d.Kind == ref.Bytes || d.Kind == ref.Bitlist || d.Kind == ref.List && d.Depth <= 2
		})
		k := gen.CaseOf(c.T, typ)
		n := k.D().Len(k.V)
		c.Label("kind %v len%%256=0:%v at limit:%v", k.D().Kind, n%256 == 0, n == k.D().Limit)
		check(c, k)
		if n > 0 {
			c.NonTrivial(k.Sample, k.Typ.T, k.Enc)
		}
	})
}

// TestBitlistLengths takes every bit length up to the limit, or to 1300.
func TestBitlistLengths(t *testing.T) {
	h.Check(t, 0.5, func(c *h.C) {
		typ := gen.TypeWhere(c.T, "bitlists", func(d *ref.Desc) bool { return d.Kind == ref.Bitlist })
		n := gen.Index(c.T, int(min(typ.D.Limit, 1300))+1, "bits")
		v := &ref.Val{}
		if n > 0 {
			v.B = make([]byte, n)
			r := &bridge.Rng{S: gen.Seed(c.T, "seed")}
			r.Fill(v.B)
			for i := range v.B {
				v.B[i] &= 1
			}
			v.B[n-1] = byte(gen.Index(c.T, 2, "last"))
		}
		k := &gen.Case{Typ: typ, V: v, Obj: bridge.New(typ.D, v, gen.Noise(c.T)), Enc: ref.Encode(typ.D, v)}
		check(c, k)
		c.NonTrivial(k.Sample, k.Typ.T, k.Enc)
	})
}

// TestHuge: contents of more than 2^32 bytes, with a cheap hash. All but some marks is zero.
func TestHuge(t *testing.T) {
	huge.Ready(t)
	f := func(b []byte) (out [32]byte) {
		if len(b) == 64 {
			x := binary.LittleEndian.Uint64(b) ^ binary.LittleEndian.Uint64(b[8:])*3 ^ binary.LittleEndian.Uint64(b[16:])*5 ^ binary.LittleEndian.Uint64(b[24:])*7
			y := binary.LittleEndian.Uint64(b[32:]) ^ binary.LittleEndian.Uint64(b[40:])*3 ^ binary.LittleEndian.Uint64(b[48:])*5 ^ binary.LittleEndian.Uint64(b[56:])*7
			x = (x ^ bits.RotateLeft64(y, 29)) * 0x9e3779b97f4a7c15
			y = (y + x>>32) * 0xd6e8feb86659fd93
			binary.LittleEndian.PutUint64(out[:], x)
			binary.LittleEndian.PutUint64(out[16:], y^x>>17)
		}
		return
	}
	htr.InitZeroHashes(f)
	defer htr.InitZeroHashes(sha256.Sum256)
	r := ref.NewHasher(f)
	seed, _ := strconv.ParseUint(flag.Lookup("rapid.seed").Value.String(), 10, 64)
	own := 0
	for i, g := range []reflect.Type{huge.Ty[huge.By](), huge.Ty[huge.U64](), huge.Ty[huge.U16](), huge.Ty[huge.Bt]()} {
		if !h.Mine(i) {
			continue
		}
		typ := huge.Get(t, g)
		n := uint64(1)<<32 + 16 + seed%400
		unit := uint64(1)
		if typ.D.Kind == ref.List {
			unit = typ.D.Elem.Size
		}
		n -= n % unit
		length, bytes, limit := n/unit, n, (typ.D.Limit*unit+31)/32
		if typ.D.Kind == ref.Bitlist {
			huge.Region[n-1] = 1 << (n % 8)
			length, bytes, limit = (n-1)*8+n%8, n, (typ.D.Limit+255)/256
			if n%8 == 0 {
				bytes--
			}
		}
		obj := reflect.New(g)
		*(*huge.SliceHeader)(obj.UnsafePointer()) = huge.SliceHeader{Data: unsafe.Pointer(&huge.Region[0]), Len: int(n / unit), Cap: int(n / unit)}
		got := z.Root(t, typ, obj.Interface(), htr.HashFn(f))
		if typ.D.Kind == ref.Bitlist {
			huge.Region[n-1] = 0 // without the delimiter
		}
		var tree func(at uint64, depth int) [32]byte
		tree = func(at uint64, depth int) (out [32]byte) {
			lo, hi := at<<5, min(bytes, at<<5+32<<depth)
			if depth > 40 {
				hi = bytes
			}
			if m := lo >> 26 << 26; lo >= hi || lo >= m+8 && hi <= m+1<<26 {
				return r.ZeroRoot(depth)
			}
			if depth == 0 {
				copy(out[:], huge.Region[lo:hi])
				return
			}
			a, b := tree(at, depth-1), tree(at+1<<(depth-1), depth-1)
			var p [64]byte
			copy(p[:], a[:])
			copy(p[32:], b[:])
			return f(p[:])
		}
		root := tree(0, ref.Depth(limit))
		var p [64]byte
		copy(p[:], root[:])
		binary.LittleEndian.PutUint64(p[32:], length)
		if want := f(p[:]); got != want {
			z.Violated(t, "root of %s with %d elements and marks every 2^26 bytes: %x, want %x", typ, length, got, want)
		}
		own++
	}
	h.Count(t.Name(), own)
}

// TestBlocks: parts whose size or number of elements is near a multiple of a power of two.
func TestBlocks(t *testing.T) {
	h.Check(t, 0.003, func(c *h.C) {
		k := blocks.Case(c)
		check(c, k)
		c.NonTrivial(k.Sample, k.Typ.T, k.Enc)
	})
}
