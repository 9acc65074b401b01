// Package do does with zssz what requests say; the guest program does so on simulated machines, the check natively.
package do

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"hash/fnv"
	"reflect"
	"unsafe"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/bitfields"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/merkle"
	"github.com/protolambda/zssz/types"

	"zverif/bridge"
	"zverif/ref"
	"zverif/reg"
	"zverif/wire"
)

var hash = htr.HashFn(sha256.Sum256)
var defs = map[int]types.SSZ{}

func def(i int) types.SSZ {
	s, ok := defs[i]
	if !ok {
		var err error
		if s, err = types.SSZFactory(reg.All()[i].T); err != nil {
			panic(err)
		}
		defs[i] = s
	}
	return s
}

func rng(seed uint64) *bridge.Rng {
	if seed == 0 {
		return nil
	}
	return &bridge.Rng{S: seed}
}

// value reads the encoding of a valid value.
func value(d *ref.Desc, b []byte) *ref.Val {
	v, err := ref.Decode(d, b)
	if err != nil {
		panic(fmt.Sprint("HARNESS: ", err))
	}
	return v
}

func dst(d *ref.Desc, r *wire.Request) reflect.Value {
	if r.Stale == nil {
		return reflect.New(d.T)
	}
	return bridge.New(d, value(d, r.Stale), rng(r.Noise))
}

func answer(r *wire.Request, out *wire.Buf) {
	switch r.Op {
	case wire.OpTypes:
		for _, e := range reg.All() {
			h := fnv.New64a()
			h.Write([]byte(e.D.String()))
			out.U(h.Sum64())
		}
		return
	case wire.OpMachine:
		x := uint16(1)
		out.U(uint64(unsafe.Sizeof(uintptr(0))))
		out.Bool(*(*byte)(unsafe.Pointer(&x)) == 1)
		return
	case wire.OpMerkle:
		n, limit, index, seed := r.Args[0], r.Args[1], r.Args[2], r.Args[3]
		leaf := func(i uint64) []byte { l := wire.Leaf(seed, i); return l[:] }
		root := merkle.Merkleize(hash, n, limit, leaf)
		out.Bytes(root[:])
		if index < limit {
			for _, s := range merkle.ConstructProof(hash, n, limit, leaf, index) {
				out.Bytes(s[:])
			}
		}
		return
	case wire.OpBits:
		limit, index := r.Args[0], r.Args[1]
		b := append([]byte(nil), r.In...)
		out.Bool(bitfields.BitlistCheck(b, limit) == nil)
		out.Bool(bitfields.BitvectorCheck(b, limit) == nil)
		out.U(bitfields.BitlistLen(b))
		out.Bool(bitfields.IsZeroBitlist(b))
		if index < uint64(len(b))*8 {
			out.Bool(bitfields.GetBit(b, index))
			bitfields.SetBit(b, index, !bitfields.GetBit(b, index))
			out.Bytes(b)
		}
		return
	}
	d, s := reg.All()[r.Type].D, def(r.Type)
	switch r.Op {
	case wire.OpValue:
		obj := bridge.New(d, value(d, r.Enc), rng(r.Noise)).Interface()
		var buf bytes.Buffer
		n, err := zssz.Encode(&buf, obj, s)
		if err != nil {
			panic(err)
		}
		out.Bytes(buf.Bytes())
		out.U(uint64(n))
		out.U(zssz.SizeOf(obj, s))
		root := zssz.HashTreeRoot(hash, obj, s)
		out.Bytes(root[:])
		out.U(s.FixedLen())
		out.U(s.MinLen())
		out.U(s.MaxLen())
		out.Bool(s.IsFixed())
		var pr bytes.Buffer
		zssz.Pretty(&pr, "  ", obj, s)
		out.Bytes(pr.Bytes())
		if x, ok := s.(types.SignedSSZ); ok {
			root := zssz.SigningRoot(hash, obj, x)
			out.Bytes(root[:])
		}
	case wire.OpDecode:
		obj := dst(d, r)
		rd := bytes.NewReader(r.In)
		err := zssz.Decode(rd, r.N, obj.Interface(), s)
		dry := zssz.DryCheck(bytes.NewReader(r.In), r.N, s)
		out.Bool(err == nil)
		out.Bool(dry == nil)
		if err == nil {
			value2(out, d, obj)
		}
	case wire.OpFuzz:
		obj := dst(d, r)
		n, err := zssz.DecodeFuzzBytes(bytes.NewReader(r.In), r.N, obj.Interface(), s)
		out.U(n)
		out.Bool(err == nil)
		if err == nil {
			value2(out, d, obj)
		}
	default:
		panic("HARNESS: unknown request")
	}
}

// value2 writes the encoding of the decoded value.
func value2(out *wire.Buf, d *ref.Desc, obj reflect.Value) {
	v, err := bridge.Get(d, obj.Elem())
	if err != nil {
		out.Bytes([]byte("invalid value: " + err.Error()))
		out.Bytes(nil)
		return
	}
	out.Bytes(nil)
	out.Bytes(ref.Encode(d, v))
}

// Answer answers the request; a panic becomes the answer.
func Answer(r *wire.Request) (out []byte) {
	defer func() {
		if p := recover(); p != nil {
			var b wire.Buf
			b.Bool(false)
			b.Bytes([]byte(fmt.Sprint(p)))
			out = b.B
		}
	}()
	var b wire.Buf
	b.Bool(true)
	answer(r, &b)
	return b.B
}
