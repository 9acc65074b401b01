// Package wire is the language in which checks talk to the guest program.
package wire

import "encoding/binary"

// Buf is a sequence of fields.
type Buf struct{ B []byte }

func (b *Buf) Bytes(x []byte) {
	b.B = binary.BigEndian.AppendUint32(b.B, uint32(len(x)))
	b.B = append(b.B, x...)
}

func (b *Buf) U(x uint64) { b.B = binary.BigEndian.AppendUint64(b.B, x) }

func (b *Buf) Bool(x bool) {
	if x {
		b.U(1)
	} else {
		b.U(0)
	}
}

// GetBytes takes a field.
func (b *Buf) GetBytes() []byte {
	n := binary.BigEndian.Uint32(b.B)
	x := b.B[4 : 4+n : 4+n]
	b.B = b.B[4+n:]
	return x
}

func (b *Buf) GetU() uint64 {
	x := binary.BigEndian.Uint64(b.B)
	b.B = b.B[8:]
	return x
}

func (b *Buf) GetBool() bool { return b.GetU() != 0 }

// Request is one case.
type Request struct {
	Op    byte
	Type  int
	Noise uint64 // 0: none
	Enc   []byte // the encoding of the value
	Stale []byte // the encoding of the value in the destination, nil: a new object
	In    []byte // to be decoded
	N     uint64 // its declared length
	Args  [4]uint64
}

const (
	OpTypes   = 'T' // hashes of all descriptions
	OpMachine = 'A' // word size, little-endian
	OpValue   = 'V' // encode, size, roots, printing of the value
	OpDecode  = 'D' // decoding and checking of the bytes
	OpFuzz    = 'F' // fuzz-mode decoding of the bytes
	OpMerkle  = 'M' // Args: leaves, limit, index, seed
	OpBits    = 'B' // Args: limit, index
)

func (r *Request) Marshal() []byte {
	var b Buf
	b.U(uint64(r.Op))
	b.U(uint64(r.Type))
	b.U(r.Noise)
	b.Bytes(r.Enc)
	b.Bool(r.Stale != nil)
	b.Bytes(r.Stale)
	b.Bytes(r.In)
	b.U(r.N)
	for _, a := range r.Args {
		b.U(a)
	}
	var out Buf
	out.Bytes(b.B)
	return out.B
}

func (r *Request) Unmarshal(x []byte) {
	b := Buf{x}
	r.Op = byte(b.GetU())
	r.Type = int(b.GetU())
	r.Noise = b.GetU()
	r.Enc = b.GetBytes()
	stale := b.GetBool()
	r.Stale = b.GetBytes()
	if !stale {
		r.Stale = nil
	}
	r.In = b.GetBytes()
	r.N = b.GetU()
	for i := range r.Args {
		r.Args[i] = b.GetU()
	}
}

// Leaf is the leaf of OpMerkle.
func Leaf(seed, i uint64) (l [32]byte) {
	binary.BigEndian.PutUint64(l[:], seed)
	binary.BigEndian.PutUint64(l[20:], i*0x9e3779b97f4a7c15+seed)
	return
}
