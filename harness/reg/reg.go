// Package reg holds the Go types that the checks run on: hand-written ones, and the ones that tools/typegen.py
// generates for the run's seed (zz_gen.go, laid over gen_stub.go at build time).
package reg

import (
	"fmt"
	"math/bits"
	"os"
	"reflect"
	"sync"

	"zverif/ref"
)

// Lim is a type-level number.
type Lim interface{ N() uint64 }

// Li is a list with a limit.
type Li[E any, L Lim] []E

func (*Li[E, L]) Limit() uint64 { var l L; return l.N() }

// By is a byte list with a limit.
type By[L Lim] []byte

func (*By[L]) Limit() uint64 { var l L; return l.N() }

// Bl is a bitlist with a limit.
type Bl[L Lim] []byte

func (*Bl[L]) Limit() uint64   { var l L; return l.N() }
func (b Bl[L]) BitLen() uint64 { return bitLen(b) }

func bitLen(b []byte) uint64 {
	if len(b) == 0 {
		return 0
	}
	return uint64(len(b)-1)*8 + uint64(bits.Len8(b[len(b)-1])) - 1
}

// Lv, Bv and Bm are the same with value receivers and defined element types.
type Lv[E any, L Lim] []E

func (Lv[E, L]) Limit() uint64 { var l L; return l.N() }

type Bv[L Lim] []DByte

func (Bv[L]) Limit() uint64 { var l L; return l.N() }

type Bm[L Lim] []DByte

func (Bm[L]) Limit() uint64 { var l L; return l.N() }
func (b *Bm[L]) BitLen() uint64 {
	c := make([]byte, len(*b))
	for i, x := range *b {
		c[i] = byte(x)
	}
	return bitLen(c)
}

// DByte and friends are defined types with basic kinds.
type DByte uint8
type DBool bool
type DU16 uint16
type DU32 uint32
type DU64 uint64

type Entry struct {
	T reflect.Type
	D *ref.Desc
}

var handTypes, genTypes []reflect.Type

// pairs of types that represent the same SSZ type
var handPairs, genPairs [][2]reflect.Type

var (
	once    sync.Once
	entries []*Entry
	leaves  []*Entry
	structs []*Entry
	embeds  []*Entry
	pairs   [][2]reflect.Type
)

// Usable: inside the domain of the checks (see DESIGN.md).
func Usable(d *ref.Desc) bool {
	return !d.Overflow && !d.ZeroElem && nodes(d) <= 6000 && d.FixedLen <= 1<<17
}

// nodes counts the values that exist in every value of the type.
func nodes(d *ref.Desc) uint64 {
	switch d.Kind {
	case ref.Vector:
		if d.PackedElems() {
			return 1 + d.N*d.Elem.Size/64
		}
		n := 1 + d.N*nodes(d.Elem)
		if n > 1<<40 {
			return 1 << 40
		}
		return n
	case ref.Container:
		n := uint64(1)
		for _, f := range d.Fields {
			n += nodes(f.D)
		}
		return n
	}
	return 1
}

func load() {
	seen := map[reflect.Type]bool{}
	all := append(append([]reflect.Type(nil), handTypes...), genTypes...)
	for _, p := range append(append([][2]reflect.Type(nil), handPairs...), genPairs...) {
		all = append(all, p[0], p[1])
		pairs = append(pairs, p)
	}
	for _, t := range all {
		if seen[t] {
			continue
		}
		seen[t] = true
		d, err := ref.FromType(t)
		if err != nil {
			fmt.Fprintf(os.Stderr, "HARNESS: type %v: %v\n", t, err)
			os.Exit(3)
		}
		if !Usable(d) {
			continue
		}
		e := &Entry{t, d}
		entries = append(entries, e)
		if t.Kind() == reflect.Struct {
			structs = append(structs, e)
		}
		if n := t.Name(); n != "" && t.PkgPath() != "" && n[0] >= 'A' && n[0] <= 'Z' && reflect.PtrTo(t).NumMethod() == 0 {
			embeds = append(embeds, e)
		}
		if d.Depth <= 1 {
			leaves = append(leaves, e)
		}
	}
	if len(entries) < 40 || len(leaves) < 10 || len(structs) < 10 {
		fmt.Fprintf(os.Stderr, "HARNESS: only %d/%d/%d usable types\n", len(entries), len(leaves), len(structs))
		os.Exit(3)
	}
}

func All() []*Entry     { once.Do(load); return entries }
func Leaves() []*Entry  { once.Do(load); return leaves }
func Structs() []*Entry { once.Do(load); return structs }

// Embeddable are the defined types without methods.
func Embeddable() []*Entry { once.Do(load); return embeds }

// Pairs are Go types that represent the same SSZ type.
func Pairs() [][2]reflect.Type { once.Do(load); return pairs }
