// Package gen generates types, values, Go objects and byte strings.
package gen

import (
	"encoding/binary"
	"reflect"
	"strings"

	"pgregory.net/rapid"

	"zverif/bridge"
	"zverif/ref"
	"zverif/reg"
	"zverif/z"
)

// --- types ---

var omitTypes = []reflect.Type{
	reflect.TypeOf(map[string]int{}), reflect.TypeOf(""), reflect.TypeOf(make(chan int)), reflect.TypeOf(func() {}),
	reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf(1.5), reflect.TypeOf(1), reflect.TypeOf([]int{}),
	reflect.TypeOf(new(int)), reflect.TypeOf([3]string{}), reflect.TypeOf(uint64(0)), reflect.TypeOf([]uint16{}),
	reflect.TypeOf([7]int8{}),
}

// Type draws a supported type: from the registry, or composed at run time.
func Type(t *rapid.T) *z.Typ { return typeFrom(t, reg.All(), 1) }

// StructType draws a supported struct type.
func StructType(t *rapid.T) *z.Typ {
	if Index(t, 4, "compose") == 3 {
		e := composeStruct(t, 1)
		if e != nil {
			return z.Get(t, e.T, e.D)
		}
	}
	e := From(t, reg.Structs(), "type")
	return z.Get(t, e.T, e.D)
}

// TypeWhere draws from the registry entries that satisfy ok.
func TypeWhere(t *rapid.T, key string, ok func(d *ref.Desc) bool) *z.Typ {
	es, found := whereCache[key]
	if !found {
		for _, e := range reg.All() {
			if ok(e.D) {
				es = append(es, e)
			}
		}
		whereCache[key] = es
	}
	e := From(t, es, "type")
	return z.Get(t, e.T, e.D)
}

var whereCache = map[string][]*reg.Entry{}

func typeFrom(t *rapid.T, es []*reg.Entry, depth int) *z.Typ {
	e := drawEntry(t, es, depth)
	return z.Get(t, e.T, e.D)
}

// Entry draws a type without building its definition.
func Entry(t *rapid.T, depth int) *reg.Entry { return drawEntry(t, reg.All(), depth) }

func drawEntry(t *rapid.T, es []*reg.Entry, depth int) *reg.Entry {
	if depth > 0 && Index(t, 6, "compose") == 5 {
		var e *reg.Entry
		switch rapid.IntRange(0, 4).Draw(t, "how") {
		case 0:
			in := drawEntry(t, es, depth-1)
			e = mk(reflect.PtrTo(in.T))
		case 1:
			in := drawEntry(t, es, depth-1)
			e = mk(reflect.ArrayOf(rapid.IntRange(1, 9).Draw(t, "len"), in.T))
		default:
			e = composeStruct(t, depth)
		}
		if e != nil {
			return e
		}
	}
	return From(t, es, "type")
}

func mk(t reflect.Type) *reg.Entry {
	d, err := ref.FromType(t)
	if err != nil || !reg.Usable(d) {
		return nil
	}
	return &reg.Entry{T: t, D: d}
}

var tagsSquash = []reflect.StructTag{`ssz:"squash"`, `json:"a" ssz:"squash,x"`, `ssz:"a,b,squash"`, `ssz:",squash,"`, `ssz:"a,b,c,d,squash,e"`, `json:"a"ssz:"squash"`, `ssz:"squ\x61sh"`, `ssz:"squash" ssz:"x"`}
var tagsOmit = []reflect.StructTag{`ssz:"omit"`, `ssz:"x,omit"`, `json:"omit" ssz:"omit,squash"`, `ssz:"x,y,omit"`, `ssz:",omit"`, `ssz:"a,b,c,d,e,omit,f"`, `json:"ssz:\"x\""ssz:"omit"`, `ssz:"\u006fmit"`, `ssz:"omit" ssz:"x"`}
var tagsNone = []reflect.StructTag{"", "", `ssz:""`, `ssz:"omitted"`, `json:"omit"`, `ssz:"squashed,omit2"`, `ssz:"Omit"`, `ssz:",,"`, `ssz:" omit"`, `ssz:"omi,t"`, `ssz:"x" ssz:"omit"`, `json:"ssz:\"omit\""`, `ssz:omit`, `ssz: "omit"`, `ssz:"omit`, `json:omit ssz:"omit"`}

func composeStruct(t *rapid.T, depth int) *reg.Entry {
	n := rapid.IntRange(0, 6).Draw(t, "fields")
	var fs []reflect.StructField
	names := []string{"Alpha", "B", "Gamma", "D2", "Eps", "AFieldWithQuiteALongNameIndeed", "G", "H"}
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: names[i]}
		switch k := Index(t, 13, "field"); {
		case k >= 11:
			// embedded: a defined type without methods (reflect cannot make up promoted methods)
			f.Type = From(t, reg.Embeddable(), "embed").T
			if k == 12 {
				f.Type = From(t, reg.Structs(), "embed").T
			}
			f.Name = f.Type.Name()
			if f.Name == "" || used[f.Name] || reflect.PtrTo(f.Type).NumMethod() != 0 || strings.ContainsAny(f.Name, "[.·") {
				f.Name = names[i]
				f.Tag = rapid.SampledFrom(tagsNone).Draw(t, "tag")
				break
			}
			used[f.Name] = true
			f.Anonymous = true
			if r := f.Name[0]; r < 'A' || r > 'Z' {
				f.Anonymous, f.Name = false, names[i]
			}
			switch Index(t, 4, "embedtag") {
			case 0:
				f.Tag = rapid.SampledFrom(tagsOmit).Draw(t, "tag")
			case 1:
				if f.Type.Kind() == reflect.Struct {
					f.Tag = rapid.SampledFrom(tagsSquash).Draw(t, "tag")
				}
			case 2:
				f.Tag = rapid.SampledFrom(tagsNone).Draw(t, "tag")
			}
		case k == 10:
			// odd and large sizes, so that what follows has all kinds of memory offsets
			f.Type = reflect.ArrayOf(From(t, []int{1, 3, 5, 7, 127, 129, 251, 253, 255, 257, 259, 301, 511, 1025, 4097}, "bytes"), reflect.TypeOf(byte(0)))
			if Index(t, 2, "omitted") == 0 {
				f.Tag = rapid.SampledFrom(tagsOmit).Draw(t, "tag")
			}
		case k == 9:
			f.Type = rapid.SampledFrom(omitTypes).Draw(t, "omit")
			f.Tag = rapid.SampledFrom(tagsOmit).Draw(t, "tag")
		case k == 8:
			f.Type = From(t, reg.Structs(), "squash").T
			f.Tag = rapid.SampledFrom(tagsSquash).Draw(t, "tag")
		case k >= 6:
			f.Type = drawEntry(t, reg.All(), depth-1).T
			f.Tag = rapid.SampledFrom(tagsNone).Draw(t, "tag")
		default:
			f.Type = drawEntry(t, reg.Leaves(), depth-1).T
			f.Tag = rapid.SampledFrom(tagsNone).Draw(t, "tag")
		}
		fs = append(fs, f)
	}
	return mk(structOf(fs))
}

// structOf is reflect.StructOf, but embeds no pointer-shaped types: reflect cannot in general.
func structOf(fs []reflect.StructField) reflect.Type {
	for i := range fs {
		if fs[i].Anonymous && PointerShaped(fs[i].Type) {
			fs[i].Anonymous = false
		}
	}
	return reflect.StructOf(fs)
}

// PointerShaped tells whether values of the type are kept in interfaces directly: pointers, and what consists of just one.
func PointerShaped(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return true
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if f := t.Field(i).Type; f.Size() != 0 {
				return f.Size() == t.Size() && PointerShaped(f)
			}
		}
		return false
	case reflect.Array:
		return t.Len() == 1 && PointerShaped(t.Elem())
	}
	return false
}

// --- values ---

// Budget draws a rough size budget in bytes.
func Budget(t *rapid.T) int {
	switch k := rapid.IntRange(0, 19).Draw(t, "budget"); {
	case k < 8:
		return 48
	case k < 15:
		return 400
	case k < 19:
		return 3000
	}
	return 40000
}

// BigBudget is a Budget that is, seldom, large enough for more than 2^16 elements or bytes.
func BigBudget(t *rapid.T) int {
	if Index(t, 100, "big") == 99 {
		return 300000
	}
	return Budget(t)
}

// Value draws a valid value of about the budgeted size.
func Value(t *rapid.T, d *ref.Desc, budget int) *ref.Val {
	g := &vg{t: t, left: 1500}
	return g.val(d, budget)
}

type vg struct {
	t    *rapid.T
	left int // node budget of individually drawn values
	seed uint64
}

// once few draws are left, the rest comes from a seed that is itself drawn
func (g *vg) word(label string) uint64 {
	if g.left > 0 {
		g.left--
		if g.left == 0 {
			g.seed = Seed(g.t, "seed")
		}
		return word.Draw(g.t, label)
	}
	r := bridge.Rng{S: g.seed}
	x := r.U()
	g.seed = r.S
	return x
}

func (g *vg) rng(n uint64, label string) uint64 { // 0..n
	if g.left > 0 {
		g.left--
		if g.left == 0 {
			g.seed = Seed(g.t, "seed")
		}
		return rapid.Uint64Range(0, n).Draw(g.t, label)
	}
	x := g.word(label)
	if n == ^uint64(0) {
		return x
	}
	return x % (n + 1)
}

var word = rapid.Custom(func(t *rapid.T) uint64 {
	switch rapid.IntRange(0, 4).Draw(t, "w") {
	case 4:
		// each byte (or larger part) all zeros, all ones, or neither
		x, w := rapid.Uint64().Draw(t, "u"), rapid.SampledFrom([]uint{8, 16, 32, 4}).Draw(t, "part")
		for i := uint(0); i < 64; i += w {
			m := uint64(1<<w-1) << i
			switch rapid.IntRange(0, 2).Draw(t, "how") {
			case 0:
				x &^= m
			case 1:
				x |= m
			}
		}
		return x
	case 0:
		return rapid.SampledFrom([]uint64{0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x1234, 0x7fff, 0x8000, 0xffff, 0x10000, 0x12345678,
			0x7fffffff, 0x80000000, 0xffffffff, 1 << 32, 0x0102030405060708, 1 << 63, ^uint64(0)}).Draw(t, "c")
	case 1:
		return rapid.Uint64Range(0, 300).Draw(t, "s")
	}
	return rapid.Uint64().Draw(t, "u")
})

func (g *vg) fill(n int, bits bool) []byte {
	if n == 0 {
		return nil
	}
	b := make([]byte, n)
	mode := g.rng(7, "fill")
	if n > 24 && mode == 6 {
		mode = 2
	}
	switch mode {
	case 0:
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2, 3:
		(&bridge.Rng{S: g.bigSeed()}).Fill(b)
	case 7:
		// parts of zeros, of ones, of something else
		(&bridge.Rng{S: g.bigSeed()}).Fill(b)
		r, w := &bridge.Rng{S: g.bigSeed()}, []int{1, 2, 4, 8, 32}[g.rng(4, "part")]
		for i := 0; i < n; i += w {
			if k := r.U() % 3; k < 2 {
				for j := i; j < i+w && j < n; j++ {
					b[j] = byte(0 - k)
				}
			}
		}
	case 4:
		b[g.rng(uint64(n-1), "at")] = byte(1 << g.rng(7, "bit"))
	case 5:
		for i := range b {
			b[i] = byte(i + 1)
		}
		if bits {
			b[n-1] = 1
		}
	case 6:
		for i := range b {
			b[i] = byte(g.word("byte"))
		}
	}
	if bits {
		for i := range b {
			b[i] &= 1
		}
	}
	return b
}

// Len draws a length up to limit and max, near the interesting boundaries: the limit, chunk sizes, powers of two.
func (g *vg) length(limit uint64, per uint64, max uint64) uint64 {
	top := limit
	if max < top {
		top = max
	}
	switch g.rng(9, "lenkind") {
	case 0:
		return 0
	case 1, 2:
		m := top
		if m > 9 {
			m = 9
		}
		return g.rng(m, "len")
	case 3:
		return top
	case 4:
		k := g.rng(2, "below")
		if k > top {
			return top
		}
		return top - k
	case 5, 6:
		// around a multiple of the chunk
		m := top/per + 1
		if m > 9 {
			m = 9
		}
		x := per*g.rng(m, "chunks") + g.rng(2, "d")
		if x > 0 {
			x--
		}
		if x > top {
			return top
		}
		return x
	case 7:
		x := uint64(1)<<g.rng(17, "log") + g.rng(2, "d") - 1
		if x > top {
			return top
		}
		return x
	case 8:
		// a multiple of the chunk near a power of two
		x := per << g.rng(10, "log")
		x += g.rng(2*per, "d")
		if x > per {
			x -= per
		}
		if x > top {
			return top
		}
		return x
	}
	return g.rng(top, "len")
}

func (g *vg) val(d *ref.Desc, budget int) *ref.Val {
	if budget < 0 {
		budget = 0
	}
	if d.Custom != nil {
		return d.Custom.Gen(func() uint64 { return g.word("custom") })
	}
	v := &ref.Val{}
	switch d.Kind {
	case ref.Bool:
		v.U = g.rng(1, "bool")
	case ref.Uint:
		v.U = g.word("uint")
		if d.Size < 8 {
			v.U &= 1<<(8*d.Size) - 1
		}
	case ref.BytesN:
		v.B = g.fill(int(d.N), false)
	case ref.Bitvector:
		v.B = g.fill(int(d.N), true)
	case ref.Bytes:
		v.B = g.fill(int(g.length(d.Limit, 32, uint64(budget))), false)
	case ref.Bitlist:
		v.B = g.fill(int(g.length(d.Limit, 256, uint64(budget)*8)), true)
	case ref.Vector, ref.List:
		n := d.N
		if d.PackedElems() {
			if d.Kind == ref.List {
				n = g.length(d.Limit, 32/d.Elem.Size, uint64(budget)/d.Elem.Size)
			}
			v.B = g.fill(int(n*d.Elem.Size), d.Elem.Kind == ref.Bool)
			return v
		}
		if d.Kind == ref.List {
			cost := d.Elem.Min
			if cost < 4 {
				cost = 4
			}
			n = g.length(d.Limit, 2, uint64(budget)/cost)
		}
		if n == 0 {
			return v
		}
		v.E = make([]*ref.Val, n)
		own := n // individually drawn elements, the others repeat those
		if own > 24 {
			own = 24
		}
		each := budget / int(own)
		if n > own {
			each = int(2 * uint64(budget) / n)
		}
		for i := range v.E {
			if i == 0 && n > own {
				v.E[i] = g.val(d.Elem, budget/4) // not repeated
			} else if uint64(i) < own {
				v.E[i] = g.val(d.Elem, each)
			} else {
				v.E[i] = v.E[1+(uint64(i)*7+uint64(i)/own)%(own-1)]
			}
		}
	case ref.Container:
		if len(d.Fields) == 0 {
			return v
		}
		vars := 1
		for _, f := range d.Fields {
			if !f.D.Fixed {
				vars++
			}
		}
		v.E = make([]*ref.Val, len(d.Fields))
		for i, f := range d.Fields {
			v.E[i] = g.val(f.D, budget/vars+budget%vars)
		}
	}
	return v
}

// Noise draws representation noise: nil (plain representation) or a seeded generator.
func Noise(t *rapid.T) *bridge.Rng {
	if Index(t, 3, "noisy") == 0 {
		return nil
	}
	return &bridge.Rng{S: Seed(t, "noise")}
}

// Dst makes a decoding destination: fresh, or filled with another value (stale), returning a pointer to it.
// Stale destinations have pointers and slices of their own; junk is in omitted fields.
func Dst(t *rapid.T, d *ref.Desc) (dst reflect.Value, kind string) {
	switch Index(t, 3, "dst") {
	case 0:
		return reflect.New(d.T), "fresh"
	case 1:
		return bridge.New(d, ref.Zero(d), &bridge.Rng{S: Seed(t, "dstnoise")}), "zero"
	}
	v := Value(t, d, Budget(t)/4)
	return bridge.New(d, v, &bridge.Rng{S: Seed(t, "dstnoise")}), "stale"
}

func le64(x uint64) []byte {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], x)
	return b[:]
}

func (g *vg) bigSeed() uint64 {
	if g.left > 0 {
		return Seed(g.t, "content")
	}
	return g.word("content")
}
