// Package bridge converts between reference values and Go objects of the described types.
package bridge

import (
	"errors"
	"fmt"
	"reflect"
	"unsafe"

	"zverif/ref"
)

// Rng is a splitmix64 generator for representation noise (capacities, junk, stale contents).
type Rng struct {
	S      uint64
	Guards *Guards // when set, slices get guarded memory around them
}

// Guards watches memory next to the slices of an object.
type Guards struct {
	mem  [][]byte
	want [][]byte
	keep []reflect.Value
}

func (g *Guards) add(b []byte, rng *Rng, fill bool) {
	if len(b) == 0 {
		return
	}
	if fill {
		rng.Fill(b)
	}
	g.mem = append(g.mem, b)
	g.want = append(g.want, clone(b))
}

// Check tells which guard was written, -1 if none.
func (g *Guards) Check() int {
	for i, b := range g.mem {
		if string(b) != string(g.want[i]) {
			return i
		}
	}
	return -1
}

// Len is the number of guarded blocks.
func (g *Guards) Len() int { return len(g.mem) }

func (r *Rng) U() uint64 {
	r.S += 0x9e3779b97f4a7c15
	z := r.S
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) N(n int) int { return int(r.U() % uint64(n)) }

func (r *Rng) Fill(b []byte) {
	for i := 0; i < len(b); i += 8 {
		x := r.U()
		for j := i; j < i+8 && j < len(b); j++ {
			b[j] = byte(x)
			x >>= 8
		}
	}
}

// Bytes is the raw memory of an addressable value.
func Bytes(rv reflect.Value) []byte {
	n := int(rv.Type().Size())
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(rv.UnsafeAddr())), n)
}

func sliceBytes(rv reflect.Value) []byte {
	n := rv.Len() * int(rv.Type().Elem().Size())
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(rv.Pointer())), n)
}

// open makes an unexported field accessible.
func open(rv reflect.Value) reflect.Value {
	return reflect.NewAt(rv.Type(), unsafe.Pointer(rv.UnsafeAddr())).Elem()
}

// FieldByPath follows a field path through nested structs.
func FieldByPath(rv reflect.Value, path []int) reflect.Value {
	for _, i := range path {
		rv = open(rv.Field(i))
	}
	return rv
}

// New makes a Go object holding v and returns the pointer to it (reflect.Value of kind Ptr to d.T).
// With rng nil the representation is plain; otherwise it has noise that is not part of the logical value.
func New(d *ref.Desc, v *ref.Val, rng *Rng) reflect.Value {
	p := reflect.New(d.T)
	Set(d, v, p.Elem(), rng)
	return p
}

func pickCap(n int, rng *Rng) int {
	if rng == nil {
		return n
	}
	switch rng.N(4) {
	case 0:
		return n + 1 + rng.N(4)
	case 1:
		return 2*n + 3
	}
	return n
}

// mkSlice makes a slice of length n, possibly with spare capacity and in the middle of a larger array.
func mkSlice(t reflect.Type, n int, rng *Rng) reflect.Value {
	if rng == nil {
		if n == 0 {
			return reflect.Zero(t)
		}
		return reflect.MakeSlice(t, n, n)
	}
	c := pickCap(n, rng)
	pre := 0
	if rng.N(3) == 0 {
		pre = rng.N(5)
	}
	if c+pre == 0 && rng.N(2) == 0 {
		return reflect.Zero(t)
	}
	post := 0
	if rng.Guards != nil {
		pre, post = pre+1, 1+rng.N(40)
	}
	s := reflect.MakeSlice(t, pre+c+post, pre+c+post)
	if g := rng.Guards; g != nil {
		es, flat := int(t.Elem().Size()), !hasRefs(t.Elem())
		switch t.Elem().Kind() {
		case reflect.Bool, reflect.Struct, reflect.Array:
			flat = false // leave zeros: arbitrary bytes need not be a valid object
		}
		if es > 0 {
			all := sliceBytes(s)
			g.keep = append(g.keep, s)
			g.add(all[:pre*es], rng, flat)
			g.add(all[(pre+c)*es:], rng, flat)
		}
		s = s.Slice3(0, pre+c, pre+c)
	}
	switch t.Elem().Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		rng.Fill(sliceBytes(s.Slice(pre, pre+c)))
	}
	return s.Slice3(pre, pre+n, pre+c)
}

// Set writes v into rv (addressable, of type d.T), replacing everything; slices and pointers are new.
func Set(d *ref.Desc, v *ref.Val, rv reflect.Value, rng *Rng) {
	if v.Nil {
		rv.Set(reflect.Zero(rv.Type()))
		return
	}
	for rv.Kind() == reflect.Ptr {
		rv.Set(reflect.New(rv.Type().Elem()))
		rv = rv.Elem()
	}
	if d.Custom != nil {
		d.Custom.ToGo(v, rv)
		return
	}
	switch d.Kind {
	case ref.Bool:
		rv.SetBool(v.U != 0)
	case ref.Uint:
		rv.SetUint(v.U)
	case ref.BytesN:
		copy(Bytes(rv), v.B)
	case ref.Bitvector:
		copy(Bytes(rv), ref.Encode(d, v))
	case ref.Bytes:
		s := mkSlice(rv.Type(), len(v.B), rng)
		copy(sliceBytes(s), v.B)
		rv.Set(s)
	case ref.Bitlist:
		b := ref.Encode(d, v)
		s := mkSlice(rv.Type(), len(b), rng)
		copy(sliceBytes(s), b)
		rv.Set(s)
	case ref.Vector:
		if d.PackedElems() {
			copy(Bytes(rv), packed(d, v.B))
			return
		}
		for i, e := range v.E {
			Set(d.Elem, e, rv.Index(i), rng)
		}
	case ref.List:
		n := int(d.Len(v))
		s := mkSlice(rv.Type(), n, rng)
		if d.PackedElems() {
			copy(sliceBytes(s), packed(d, v.B))
		} else {
			for i, e := range v.E {
				Set(d.Elem, e, s.Index(i), rng)
			}
		}
		rv.Set(s)
	case ref.Container:
		for i, f := range d.Fields {
			Set(f.D, v.E[i], FieldByPath(rv, f.Path), rng)
		}
		if rng != nil {
			EachOmitted(rv, func(f reflect.Value) { Junk(f, rng, 3) })
		}
	}
}

// Get reads the logical value of a Go object; an error means that the object is not a valid value.
func Get(d *ref.Desc, rv reflect.Value) (*ref.Val, error) { return get(d, rv, false) }

// GetNil is Get that allows nil pointers.
func GetNil(d *ref.Desc, rv reflect.Value) (*ref.Val, error) { return get(d, rv, true) }

func get(d *ref.Desc, rv reflect.Value, nils bool) (*ref.Val, error) {
	for rv.Kind() == reflect.Ptr {
		if rv.IsNil() {
			if nils {
				return &ref.Val{Nil: true}, nil
			}
			return nil, errors.New("nil pointer")
		}
		rv = rv.Elem()
	}
	if d.Custom != nil {
		return d.Custom.FromGo(rv)
	}
	v := &ref.Val{}
	switch d.Kind {
	case ref.Bool:
		v.U = uint64(Bytes(rv)[0])
		if v.U > 1 {
			return nil, fmt.Errorf("bool holds %#x", v.U)
		}
	case ref.Uint:
		v.U = rv.Uint()
	case ref.BytesN:
		v.B = clone(Bytes(rv))
	case ref.Bitvector:
		return ref.Decode(&ref.Desc{Kind: ref.Bitvector, N: d.N}, Bytes(rv))
	case ref.Bytes:
		v.B = clone(sliceBytes(rv))
	case ref.Bitlist:
		return ref.Decode(&ref.Desc{Kind: ref.Bitlist, Limit: d.Limit}, sliceBytes(rv))
	case ref.Vector, ref.List:
		if d.PackedElems() {
			if d.Kind == ref.Vector {
				v.B = clone(Bytes(rv))
			} else {
				v.B = clone(sliceBytes(rv))
			}
			v.B = packed(d, v.B)
			if d.Elem.Kind == ref.Bool {
				for i, b := range v.B {
					if b > 1 {
						return nil, fmt.Errorf("bool %d holds %#x", i, b)
					}
				}
			}
			return v, nil
		}
		n := rv.Len()
		if n > 0 {
			v.E = make([]*ref.Val, n)
		}
		for i := range v.E {
			e, err := get(d.Elem, rv.Index(i), nils)
			if err != nil {
				return nil, fmt.Errorf("[%d]: %w", i, err)
			}
			v.E[i] = e
		}
	case ref.Container:
		if len(d.Fields) > 0 {
			v.E = make([]*ref.Val, len(d.Fields))
		}
		for i, f := range d.Fields {
			e, err := get(f.D, FieldByPath(rv, f.Path), nils)
			if err != nil {
				return nil, fmt.Errorf("%s: %w", f.Name, err)
			}
			v.E[i] = e
		}
	}
	return v, nil
}

func clone(b []byte) []byte { return append([]byte(nil), b...) }

// EachOmitted visits the omitted fields of a struct, also inside squashed and embedded structs.
func EachOmitted(rv reflect.Value, fn func(reflect.Value)) {
	t := rv.Type()
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		if ref.HasFlag(sf.Tag, "omit") {
			fn(open(rv.Field(i)))
		} else if sf.Type.Kind() == reflect.Struct && (sf.Anonymous || ref.HasFlag(sf.Tag, "squash")) {
			EachOmitted(open(rv.Field(i)), fn)
		}
	}
}

// EachOmittedDeep visits the omitted fields of all structs reachable without passing a slice.
func EachOmittedDeep(rv reflect.Value, fn func(reflect.Value)) {
	switch rv.Kind() {
	case reflect.Ptr:
		if !rv.IsNil() {
			EachOmittedDeep(rv.Elem(), fn)
		}
	case reflect.Array:
		switch rv.Type().Elem().Kind() {
		case reflect.Ptr, reflect.Array, reflect.Struct:
			for i := 0; i < rv.Len(); i++ {
				EachOmittedDeep(rv.Index(i), fn)
			}
		}
	case reflect.Struct:
		t := rv.Type()
		for i := 0; i < t.NumField(); i++ {
			if f := open(rv.Field(i)); ref.HasFlag(t.Field(i).Tag, "omit") {
				fn(f)
			} else {
				EachOmittedDeep(f, fn)
			}
		}
	}
}

// Junk fills any Go value with deterministic arbitrary content.
func Junk(rv reflect.Value, rng *Rng, depth int) {
	switch rv.Kind() {
	case reflect.Bool:
		rv.SetBool(rng.N(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		rv.SetInt(int64(rng.U()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		rv.SetUint(rng.U())
	case reflect.Float32, reflect.Float64:
		rv.SetFloat(float64(rng.U()%1000) / 8)
	case reflect.Complex64, reflect.Complex128:
		rv.SetComplex(complex(float64(rng.N(9)), 1))
	case reflect.String:
		rv.SetString(fmt.Sprintf("junk%d", rng.N(1000)))
	case reflect.Slice:
		if depth > 0 {
			n := rng.N(4)
			s := reflect.MakeSlice(rv.Type(), n, n+rng.N(3))
			for i := 0; i < n; i++ {
				Junk(s.Index(i), rng, depth-1)
			}
			rv.Set(s)
		}
	case reflect.Array:
		for i := 0; i < rv.Len() && i < 64; i++ {
			Junk(rv.Index(i), rng, depth-1)
		}
	case reflect.Ptr:
		if depth > 0 && rng.N(4) != 0 {
			p := reflect.New(rv.Type().Elem())
			Junk(p.Elem(), rng, depth-1)
			rv.Set(p)
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			Junk(open(rv.Field(i)), rng, depth-1)
		}
	case reflect.Map:
		if depth > 0 {
			rv.Set(reflect.MakeMap(rv.Type()))
		}
	case reflect.Chan:
		rv.Set(reflect.MakeChan(rv.Type(), 1))
	case reflect.Interface:
		if rv.NumMethod() == 0 {
			rv.Set(reflect.ValueOf(rng.U()))
		}
	case reflect.Func:
		if rv.Type() == reflect.TypeOf(func() {}) {
			rv.Set(reflect.ValueOf(func() {}))
		}
	}
}

// Snapshot records the raw memory of an object and of everything reachable from it through slices (up to
// their capacity), pointers and structs, to detect any write. Maps, channels, funcs and interfaces are shallow.
func Snapshot(rv reflect.Value) []byte {
	s := &snap{seen: map[unsafe.Pointer]bool{}}
	s.walk(rv)
	return s.out
}

type snap struct {
	out  []byte
	seen map[unsafe.Pointer]bool
}

func (s *snap) walk(rv reflect.Value) {
	s.out = append(s.out, Bytes(rv)...)
	s.deep(rv)
}

func hasRefs(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice:
		return true
	case reflect.Array:
		return t.Len() > 0 && hasRefs(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasRefs(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

func (s *snap) deep(rv reflect.Value) {
	if !hasRefs(rv.Type()) {
		return
	}
	switch rv.Kind() {
	case reflect.Ptr:
		if !rv.IsNil() {
			p := rv.UnsafePointer()
			if s.seen[p] {
				return
			}
			s.seen[p] = true
			s.walk(rv.Elem())
		}
	case reflect.Slice:
		if rv.Cap() > 0 {
			full := rv.Slice(0, rv.Cap())
			s.out = append(s.out, sliceBytes(full)...)
			if hasRefs(rv.Type().Elem()) {
				for i := 0; i < full.Len(); i++ {
					s.deep(full.Index(i))
				}
			}
		}
	case reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			s.deep(rv.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			s.deep(open(rv.Field(i)))
		}
	}
}

// Ranges visits the memory blocks owned by an object: start address and size.
func Ranges(rv reflect.Value, fn func(start, size uintptr)) {
	if rv.Type().Size() > 0 {
		fn(rv.UnsafeAddr(), rv.Type().Size())
	}
	ranges(rv, fn)
}

func ranges(rv reflect.Value, fn func(start, size uintptr)) {
	if !hasRefs(rv.Type()) {
		return
	}
	switch rv.Kind() {
	case reflect.Ptr:
		if !rv.IsNil() {
			Ranges(rv.Elem(), fn)
		}
	case reflect.Slice:
		if rv.Cap() > 0 && rv.Type().Elem().Size() > 0 {
			full := rv.Slice(0, rv.Cap())
			fn(full.Pointer(), uintptr(full.Len())*rv.Type().Elem().Size())
			if hasRefs(rv.Type().Elem()) {
				for i := 0; i < full.Len(); i++ {
					ranges(full.Index(i), fn)
				}
			}
		}
	case reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			ranges(rv.Index(i), fn)
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			ranges(open(rv.Field(i)), fn)
		}
	}
}

var big = func() bool { x := uint16(1); return *(*byte)(unsafe.Pointer(&x)) == 0 }()

// packed converts packed elements between the encoding and the memory of this machine.
func packed(d *ref.Desc, b []byte) []byte {
	if big && d.Elem.Size > 1 {
		b = clone(b)
		swap(b, int(d.Elem.Size))
	}
	return b
}

func swap(b []byte, n int) {
	for ; len(b) >= n && n > 1; b = b[n:] {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
	}
}
