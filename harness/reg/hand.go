package reg

import (
	"reflect"
	"strconv"
)

func ty[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

type n0 struct{}
type n1 struct{}
type n2 struct{}
type n3 struct{}
type n4 struct{}
type n5 struct{}
type n7 struct{}
type n8 struct{}
type n9 struct{}
type n15 struct{}
type n16 struct{}
type n17 struct{}
type n31 struct{}
type n32 struct{}
type n33 struct{}
type n64 struct{}
type n255 struct{}
type n256 struct{}
type n257 struct{}
type n300 struct{}
type n512 struct{}
type n1024 struct{}
type n2048 struct{}
type n64k struct{}
type n1M struct{}
type n2G struct{}
type n4G struct{}
type n1T struct{}
type n44 struct{} // 2 to the power of
type n56 struct{}
type n61 struct{}
type n63 struct{}
type nMax struct{}

func (n0) N() uint64    { return 0 }
func (n1) N() uint64    { return 1 }
func (n2) N() uint64    { return 2 }
func (n3) N() uint64    { return 3 }
func (n4) N() uint64    { return 4 }
func (n5) N() uint64    { return 5 }
func (n7) N() uint64    { return 7 }
func (n8) N() uint64    { return 8 }
func (n9) N() uint64    { return 9 }
func (n15) N() uint64   { return 15 }
func (n16) N() uint64   { return 16 }
func (n17) N() uint64   { return 17 }
func (n31) N() uint64   { return 31 }
func (n32) N() uint64   { return 32 }
func (n33) N() uint64   { return 33 }
func (n64) N() uint64   { return 64 }
func (n255) N() uint64  { return 255 }
func (n256) N() uint64  { return 256 }
func (n257) N() uint64  { return 257 }
func (n300) N() uint64  { return 300 }
func (n512) N() uint64  { return 512 }
func (n1024) N() uint64 { return 1024 }
func (n2048) N() uint64 { return 2048 }
func (n64k) N() uint64  { return 1 << 16 }
func (n1M) N() uint64   { return 1 << 20 }
func (n2G) N() uint64   { return 1 << 31 }
func (n4G) N() uint64   { return 1 << 32 }
func (n1T) N() uint64   { return 1 << 40 }

func (n44) N() uint64  { return 1<<44 + 1 }
func (n56) N() uint64  { return 1 << 56 }
func (n61) N() uint64  { return 1 << 61 }
func (n63) N() uint64  { return 1 << 63 }
func (nMax) N() uint64 { return ^uint64(0) }

// Types of the same name
func local1() reflect.Type {
	type T struct{ A uint8 }
	return ty[T]()
}
func local2() reflect.Type {
	type T struct{ A uint64 }
	return ty[T]()
}
func local3() reflect.Type {
	type T struct {
		A By[n9]
		B bool
	}
	return ty[T]()
}
func local4() reflect.Type {
	type T [3]uint16
	return ty[T]()
}
func local5() reflect.Type {
	type T [3]uint32
	return ty[T]()
}
func local6() reflect.Type {
	type T struct{ A Bl[n9] }
	return ty[[2]T]()
}
func local7() reflect.Type {
	type T struct{ A By[n9] }
	return ty[[2]T]()
}

// Bitvectors
type Bv1 [1]byte
type Bv4 [1]byte
type Bv8 [1]byte
type Bv9 [2]byte
type Bv255 [32]byte
type Bv256 [32]byte
type Bv257 [33]byte
type Bv511 [64]byte
type Bv512 [64]byte
type Bv513 [65]byte
type Bv1281 [161]byte

func (*Bv1) BitLen() uint64    { return 1 }
func (*Bv4) BitLen() uint64    { return 4 }
func (*Bv8) BitLen() uint64    { return 8 }
func (*Bv9) BitLen() uint64    { return 9 }
func (*Bv255) BitLen() uint64  { return 255 }
func (*Bv256) BitLen() uint64  { return 256 }
func (*Bv257) BitLen() uint64  { return 257 }
func (*Bv511) BitLen() uint64  { return 511 }
func (*Bv512) BitLen() uint64  { return 512 }
func (*Bv513) BitLen() uint64  { return 513 }
func (*Bv1281) BitLen() uint64 { return 1281 }

// BlVal has a value receiver BitLen, as in the README.
type BlVal []byte

func (*BlVal) Limit() uint64   { return 16 }
func (b BlVal) BitLen() uint64 { return bitLen(b) }

// Eth2-like structures
type Root [32]byte

type Checkpoint struct {
	Epoch uint64
	Root  Root
}

type Crosslink struct {
	Shard      uint64
	ParentRoot Root
	StartEpoch uint64
	EndEpoch   uint64
	DataRoot   [32]byte
}

type AttestationData struct {
	BeaconBlockRoot Root
	Source, Target  Checkpoint
	Crosslink       Crosslink
}

type Attestation struct {
	AggregationBits Bl[n4096]
	Data            AttestationData
	CustodyBits     Bl[n4096]
	Signature       [96]byte
}

type n4096 struct{}

func (n4096) N() uint64 { return 4096 }

type IndexedAttestation struct {
	Bit0Indices Li[uint64, n4096]
	Bit1Indices Li[uint64, n4096]
	Data        AttestationData
	Signature   [96]byte
}

type Validator struct {
	Pubkey                [48]byte
	WithdrawalCredentials Root
	EffectiveBalance      uint64
	Slashed               bool
	Activation, Exit      uint64
}

type BlockBody struct {
	RandaoReveal [96]byte
	Graffiti     [32]byte
	Proposer     Li[struct{ A, B Checkpoint }, n16]
	Slashings    Li[struct{ A, B IndexedAttestation }, n1]
	Attestations Li[Attestation, n128]
	Exits        Li[*Checkpoint, n16]
}

type n128 struct{}

func (n128) N() uint64 { return 128 }

type Block struct {
	Slot       uint64
	ParentRoot Root
	StateRoot  Root
	Body       BlockBody
	Signature  [96]byte
}

type State struct {
	GenesisTime uint64
	Slot        uint64
	BlockRoots  [64]Root
	Historical  Li[Root, n16M]
	Eth1Votes   Li[Checkpoint, n1024]
	Validators  Li[*Validator, n1T]
	Balances    Li[uint64, n1T]
	Slashings   [64]uint64
	PrevAtt     Li[*struct {
		Bits      Bl[n4096]
		Data      AttestationData
		Delay, Ix uint64
	}, n4096]
	Justification Bv4
	Prev, Cur     Checkpoint
}

type n16M struct{}

func (n16M) N() uint64 { return 1 << 24 }

// Structs with tags
type SmallT struct {
	A uint16
	B uint16
}
type VarT struct {
	A uint16
	B Li[uint16, n1024]
	C uint8
}
type FixedT struct {
	A uint8
	B uint64
	C uint32
}
type ComplexT struct {
	A uint16
	B Li[uint16, n128]
	C uint8
	D By[n256]
	E VarT
	F [4]FixedT
	G [2]VarT
}
type Empty struct{}
type OnlyOmit struct {
	X map[string]int `ssz:"omit"`
	F func()         `ssz:"omit"`
}
type EmbT struct {
	First Checkpoint
	SmallT
	VarT `ssz:"squash"`
	Last Bl[n9] `json:"last" ssz:"foo,squish"`
}
type EmbPtrT struct {
	*SmallT
	Root
	DU16
	X *VarT
	*VarT
}
type OmitT struct {
	Cache  map[string][]int `ssz:"omit"`
	A      uint8
	Note   string        `ssz:"omit"`
	hidden chan int      `ssz:"omit"`
	B      Li[uint8, n5] `json:"b,omitempty"`
	Any    interface{}   `json:"x" ssz:"omit"`
	In     struct {
		I int `ssz:"omit"`
		J uint32
		K float64 `ssz:"omit,squash"`
		L By[n7]
	} `ssz:"squash"`
	Tail *int `ssz:"squash,omit"`
}
type SquashDeep struct {
	A struct {
		B struct {
			C struct {
				X uint8
				Y By[n3]
			} `ssz:"squash"`
			D Bv9
		} `ssz:"squash"`
		OmitT
		E uint64
	} `ssz:"squash"`
	F    bool
	EmbT `json:"no"`
}
type PtrT struct {
	A *uint8
	B *Li[*uint32, n4]
	C **By[n33]
	D *[3]*VarT
	E *Bv9
	F ***bool
	G *struct{}
	H *struct{ Z *Bl[n17] }
}
type Wide33 struct {
	F0, F1, F2, F3, F4, F5, F6, F7, F8, F9                uint8
	G0, G1, G2, G3, G4, G5, G6, G7, G8, G9                By[n3]
	H0, H1, H2, H3, H4, H5, H6, H7, H8, H9, H10, H11, H12 uint64
}
type Align struct {
	A bool
	B uint64
	C bool
	D uint32
	E [3]byte
	F uint16
	G struct {
		H uint8
		I Li[uint64, n3]
		J uint8
	}
	K [5]bool
	L uint64
}

// Names of all kinds
type Übung struct {
	Äpfel   uint16
	A_b, X1 bool
	Ωmega   By[n3]
}
type Names struct {
	É     uint8
	Übung `ssz:"squash"`
	Δ_1   Li[Übung, n3]
	Şe    struct {
		In  uint8
		Ǆ_x Bl[n9]
	} `ssz:"squash"`
	A, B, AB uint8
}

// Huge: parts beyond 64 KiB, in memory and encoded
type Huge struct {
	A uint16
	X [70001]byte `ssz:"omit"`
	B By[n9]
	C [66001]byte
	D Li[Root, n1M]
	E By[n1M]
	F uint8
}

// wide makes a struct with n fields, of which many have variable length.
func wide(n int) reflect.Type {
	ts := []reflect.Type{ty[uint8](), ty[By[n5]](), ty[uint64](), ty[Bl[n17]](), ty[bool](), ty[*uint16](), ty[Li[uint16, n4]](), ty[SmallT]()}
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		fs = append(fs, reflect.StructField{Name: "F" + strconv.Itoa(i), Type: ts[(i+i/9)%len(ts)]})
	}
	return reflect.StructOf(fs)
}

// deep nests structs, arrays, pointers and lists.
func deep(n int) reflect.Type {
	t := ty[By[n9]]()
	for i := 0; i < n; i++ {
		switch i % 4 {
		case 0, 2:
			t = reflect.StructOf([]reflect.StructField{{Name: "A", Type: ty[uint8]()}, {Name: "B", Type: t}})
		case 1:
			t = reflect.PtrTo(t)
		case 3:
			t = reflect.ArrayOf(1, t)
		}
	}
	return t
}

func init() {
	handTypes = []reflect.Type{
		ty[bool](), ty[uint8](), ty[uint16](), ty[uint32](), ty[uint64](),
		ty[DByte](), ty[DBool](), ty[DU16](), ty[DU32](), ty[DU64](),
		ty[[1]byte](), ty[[4]byte](), ty[[16]byte](), ty[[31]byte](), ty[[32]byte](), ty[[33]byte](), ty[[48]byte](),
		ty[[64]byte](), ty[[96]byte](), ty[[257]byte](), ty[[5]DByte](), ty[Root](),
		ty[Bv1](), ty[Bv4](), ty[Bv8](), ty[Bv9](), ty[Bv255](), ty[Bv256](), ty[Bv257](), ty[Bv511](), ty[Bv512](),
		ty[Bv513](), ty[Bv1281](),
		ty[Bl[n0]](), ty[Bl[n1]](), ty[Bl[n7]](), ty[Bl[n8]](), ty[Bl[n9]](), ty[Bl[n255]](), ty[Bl[n256]](),
		ty[Bl[n257]](), ty[Bl[n512]](), ty[Bl[n2048]](), ty[Bl[n1M]](), ty[Bl[n1T]](), ty[BlVal](),
		ty[By[n0]](), ty[By[n1]](), ty[By[n31]](), ty[By[n32]](), ty[By[n33]](), ty[By[n256]](), ty[By[n1024]](),
		ty[By[n64k]](), ty[By[n4G]](), ty[By[n1T]](),
		ty[[1]bool](), ty[[33]bool](), ty[[17]uint16](), ty[[8]uint32](), ty[[9]uint32](), ty[[4]uint64](),
		ty[[5]uint64](), ty[[64]uint64](), ty[[3]DU64](), ty[[16]DU16](), ty[[300]uint16](),
		ty[Li[bool, n0]](), ty[Li[bool, n32]](), ty[Li[bool, n33]](), ty[Li[uint16, n16]](), ty[Li[uint16, n17]](),
		ty[Li[uint16, n1024]](), ty[Li[uint32, n8]](), ty[Li[uint32, n9]](), ty[Li[uint64, n1]](), ty[Li[uint64, n4]](),
		ty[Li[uint64, n5]](), ty[Li[uint64, n1T]](), ty[Li[DU32, n7]](), ty[Li[DByte, n64]](), ty[Li[DBool, n5]](),
		ty[Li[uint64, n300]](), ty[Li[uint16, n64k]](),
		ty[Li[Root, n0]](), ty[Li[Root, n1]](), ty[Li[Root, n2]](), ty[Li[Root, n5]](), ty[Li[Root, n1024]](), ty[Li[Root, n1T]](),
		ty[Li[SmallT, n4]](), ty[Li[VarT, n8]](), ty[Li[*VarT, n9]](), ty[Li[ComplexT, n2]](),
		ty[Li[By[n33], n0]](), ty[Li[By[n33], n3]](), ty[Li[By[n2G], n16]](), ty[Li[Li[By[n3], n4], n5]](), ty[Li[Bl[n9], n7]](),
		ty[Li[Li[uint16, n4], n64k]](), ty[Li[Li[Li[Li[uint8, n3], n3], n3], n3]](), ty[Li[[2]By[n7], n4]](), ty[Li[[3]Root, n4]](),
		ty[Li[[4]bool, n9]](), ty[Li[Bv9, n5]](), ty[Li[[33]byte, n33]](), ty[Li[*Root, n3]](),
		ty[[2]By[n8]](), ty[[3]Li[uint64, n2]](), ty[[1]Bl[n8]](), ty[[5]VarT](), ty[[4]*VarT](), ty[[2][3][4]uint16](),
		ty[[2][2]By[n1]](), ty[[3]Bl[n257]](), ty[[7]SmallT](), ty[[3][5]bool](), ty[[6]Bv9](), ty[[4][33]byte](), ty[[0]uint64](), ty[[3]struct{}](),
		ty[Checkpoint](), ty[Crosslink](), ty[AttestationData](), ty[Attestation](), ty[IndexedAttestation](), ty[Validator](),
		ty[BlockBody](), ty[Block](), ty[State](),
		ty[SmallT](), ty[VarT](), ty[FixedT](), ty[ComplexT](), ty[Empty](), ty[OnlyOmit](), ty[EmbT](), ty[EmbPtrT](), ty[OmitT](),
		ty[SquashDeep](), ty[PtrT](), ty[Wide33](), ty[Align](), ty[Names](), ty[Übung](), ty[[2]Names](),
		ty[*uint8](), ty[*VarT](), ty[**By[n5]](), ty[*Li[uint16, n3]](), ty[*[3]bool](), ty[**SquashDeep](), ty[*Bl[n31]](),
		ty[struct {
			A    By[n2]
			B, C Bl[n15]
		}](), ty[struct {
			A uint8
			B *struct{ C *Li[*VarT, n2] }
		}](),
		ty[struct {
			X Empty
			Y uint8
			Z OnlyOmit
		}](), ty[By[n44]](), ty[By[n61]](), ty[Li[uint64, n56]](), ty[Li[Root, n56]](), ty[Li[uint16, n56]](), ty[Li[By[n3], n56]](), ty[Bl[n63]](), ty[Bl[nMax]](),
		ty[Li[SmallT, n44]](), ty[Li[*uint64, n56]](),
		local1(), local2(), local3(), local4(), local5(), local6(), local7(),
		ty[struct{ L Li[OmitT, n3] }](), ty[struct{ V [2]SquashDeep }](),
		wide(70), wide(140), wide(300), deep(20), deep(75), ty[Huge](), ty[[300]By[n3]](), ty[[257]Bl[n9]](), ty[[513]SmallT](),
		ty[[70000]byte](), ty[[66000]bool](), ty[[33000]uint16](), ty[[9000]uint64](), ty[struct {
			A [17000]uint32
			B By[n64k]
			C Li[VarT, n64k]
		}](), ty[Li[By[n3], n1M]](), ty[Li[SmallT, n1M]](), ty[Li[bool, n1M]](), ty[By[n1M]](), ty[Li[Li[uint64, n1M], n5]](),
		ty[Li[Bv9, n1M]](), ty[Li[*Root, n1M]](), ty[Li[Bl[n257], n64k]](),
	}
	handPairs = [][2]reflect.Type{
		{ty[uint8](), ty[DByte]()}, {ty[bool](), ty[DBool]()}, {ty[uint64](), ty[*DU64]()}, {ty[uint16](), ty[**uint16]()},
		{ty[[32]byte](), ty[Root]()}, {ty[[5]byte](), ty[[5]DByte]()}, {ty[[33]byte](), ty[[33]*byte]()}, {ty[[33]bool](), ty[[33]*DBool]()},
		{ty[[9]uint32](), ty[[9]DU32]()}, {ty[[9]uint32](), ty[[9]**uint32]()}, {ty[[5]uint64](), ty[[5]*DU64]()}, {ty[[17]uint16](), ty[*[17]*uint16]()},
		{ty[By[n33]](), ty[Bv[n33]]()}, {ty[By[n33]](), ty[Lv[uint8, n33]]()}, {ty[By[n33]](), ty[Li[*uint8, n33]]()}, {ty[By[n1T]](), ty[Lv[DByte, n1T]]()},
		{ty[Bl[n257]](), ty[Bm[n257]]()}, {ty[Bl[n16]](), ty[BlVal]()}, {ty[Bl[n8]](), ty[*Bm[n8]]()},
		{ty[Li[uint64, n300]](), ty[Lv[DU64, n300]]()}, {ty[Li[uint64, n300]](), ty[Li[*uint64, n300]]()}, {ty[Li[uint16, n17]](), ty[*Lv[**DU16, n17]]()},
		{ty[Li[bool, n33]](), ty[Lv[*bool, n33]]()}, {ty[Li[uint32, n1T]](), ty[Lv[*DU32, n1T]]()},
		{ty[Li[Root, n1024]](), ty[Lv[*[32]DByte, n1024]]()}, {ty[Li[VarT, n8]](), ty[Lv[*struct {
			A DU16
			B *Lv[*uint16, n1024]
			C *uint8
		}, n8]]()},
		{ty[SmallT](), ty[struct {
			A *DU16
			X map[string]int `ssz:"omit"`
			B *uint16
		}]()}, {ty[Checkpoint](), ty[struct {
			Epoch **uint64
			Root  *[32]*byte
		}]()}, {ty[[7]SmallT](), ty[[7]*struct{ A, B *uint16 }]()}, {ty[[2]By[n8]](), ty[*[2]*Bv[n8]]()},
		{ty[Li[By[n33], n3]](), ty[Lv[*Bv[n33], n3]]()}, {ty[Li[Li[By[n3], n4], n5]](), ty[Lv[*Lv[Li[*DByte, n3], n4], n5]]()},
		{ty[Empty](), ty[OnlyOmit]()}, {ty[struct{ A *SmallT }](), ty[*struct{ A struct{ A, B DU16 } }]()},
	}
}
