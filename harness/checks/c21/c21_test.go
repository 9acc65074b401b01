package c21

import (
	"encoding/hex"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/z"
)

func TestMain(m *testing.M) { h.Main(m) }

// prune makes some of the pointers in an object nil.
func prune(d *ref.Desc, rv reflect.Value, rng *bridge.Rng, odds int) (n int) {
	for rv.Kind() == reflect.Ptr {
		if rv.IsNil() {
			return
		}
		if rng.N(odds) == 0 {
			rv.Set(reflect.Zero(rv.Type()))
			return 1
		}
		rv = rv.Elem()
	}
	switch {
	case d.PackedElems():
	case d.Kind == ref.Vector || d.Kind == ref.List:
		for i := 0; i < rv.Len(); i++ {
			n += prune(d.Elem, rv.Index(i), rng, odds)
		}
	case d.Kind == ref.Container:
		for _, f := range d.Fields {
			n += prune(f.D, bridge.FieldByPath(rv, f.Path), rng, odds)
		}
	}
	return
}

// lexer splits the text into brackets, commas, colons and words.
type lexer struct {
	s   string
	pos int
}

func (l *lexer) next() string {
	for l.pos < len(l.s) && strings.IndexByte(" \n\t\r", l.s[l.pos]) >= 0 {
		l.pos++
	}
	if l.pos == len(l.s) {
		return ""
	}
	if strings.IndexByte("[]{},:", l.s[l.pos]) >= 0 {
		l.pos++
		return l.s[l.pos-1 : l.pos]
	}
	start := l.pos
	for l.pos < len(l.s) && strings.IndexByte("[]{},: \n\t\r", l.s[l.pos]) < 0 {
		l.pos++
	}
	return l.s[start:l.pos]
}

type mismatch struct{ msg string }

func (l *lexer) want(w, where string) {
	if got := l.next(); got != w {
		panic(mismatch{fmt.Sprintf("%s: %q instead of %q (offset %d)", where, got, w, l.pos)})
	}
}

func (l *lexer) number(want uint64, where string) {
	w := l.next()
	got, err := strconv.ParseUint(w, 0, 64)
	if strings.HasPrefix(w, "0") && !strings.HasPrefix(w, "0x") && w != "0" {
		err = fmt.Errorf("leading zero")
	}
	if err != nil || got != want {
		panic(mismatch{fmt.Sprintf("%s: %q instead of %d", where, w, want)})
	}
}

func (l *lexer) boolean(want bool, where string) {
	w := l.next()
	if got := strings.ToLower(w); got != "true" && got != "false" || (got == "true") != want {
		panic(mismatch{fmt.Sprintf("%s: %q instead of %v", where, w, want)})
	}
}

// match reads the printed form of v.
func (l *lexer) match(d *ref.Desc, v *ref.Val, where string) {
	if v.Nil {
		l.want("null", where)
		return
	}
	switch d.Kind {
	case ref.Bool:
		l.boolean(v.U != 0, where)
	case ref.Uint:
		l.number(v.U, where)
	case ref.BytesN, ref.Bytes:
		w := l.next()
		if !strings.HasPrefix(w, "0x") {
			panic(mismatch{fmt.Sprintf("%s: %.40q is no byte string", where, w)})
		}
		if b, err := hex.DecodeString(w[2:]); err != nil || string(b) != string(v.B) {
			panic(mismatch{fmt.Sprintf("%s: %.80q instead of %s", where, w, ref.Short(v.B))})
		}
	case ref.Bitvector, ref.Bitlist:
		l.want("[", where)
		for i, b := range ref.Encode(d, v) {
			w := l.next()
			if x, err := strconv.ParseUint(w, 2, 8); err != nil || len(w) != 8 || byte(x) != b {
				panic(mismatch{fmt.Sprintf("%s: byte %d of the bits: %q instead of %08b", where, i, w, b)})
			}
		}
		l.want("]", where)
	case ref.Vector, ref.List:
		l.want("[", where)
		n := d.Len(v)
		for i := uint64(0); i < n; i++ {
			if i > 0 {
				l.want(",", where)
			}
			at := fmt.Sprintf("%s[%d]", where, i)
			switch {
			case d.PackedElems() && d.Elem.Kind == ref.Bool:
				l.boolean(v.B[i] == 1, at)
			case d.PackedElems():
				x := uint64(0)
				for j := d.Elem.Size; j > 0; j-- {
					x = x<<8 | uint64(v.B[i*d.Elem.Size+j-1])
				}
				l.number(x, at)
			default:
				l.match(d.Elem, v.E[i], at)
			}
		}
		l.want("]", where)
	case ref.Container:
		l.want("{", where)
		for i, f := range d.Fields {
			if i > 0 {
				l.want(",", where)
			}
			at := where + "." + f.Name
			// squashed and embedded fields carry the path to them: Outer>Inner>Name
			if w := l.next(); w != f.Name && !strings.HasSuffix(w, ">"+f.Name) {
				panic(mismatch{fmt.Sprintf("%s: %q instead of the field name %q (offset %d)", at, w, f.Name, l.pos)})
			}
			l.want(":", at)
			l.match(f.D, v.E[i], at)
		}
		l.want("}", where)
	}
}

func parse(text string, d *ref.Desc, v *ref.Val) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			m, ok := p.(mismatch)
			if !ok {
				panic(p)
			}
			msg = m.msg
		}
	}()
	l := &lexer{s: text}
	l.match(d, v, "")
	if w := l.next(); w != "" {
		return fmt.Sprintf("%q after the end", w)
	}
	return ""
}

var indents = []string{"", " ", "  ", "\t", "    ", "<->", "|", "{", "[,", "0x", "\n", "é", "null", "%", "%d%s", "\\t", "\x00", " \x00 ", "0123456789012345678901234567890123456789"}

func TestPretty(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		var typ *z.Typ
		if gen.Index(c.T, 3, "pointers") == 0 {
			typ = gen.TypeWhere(c.T, "pointers", func(d *ref.Desc) bool { return d.HasPtr })
		} else {
			typ = gen.Type(c.T)
		}
		budget := gen.Budget(c.T) / 2
		if gen.Index(c.T, 1000, "large") == 999 {
			typ = gen.TypeWhere(c.T, "large", func(d *ref.Desc) bool { return d.Max > 1<<16 })
			budget = 200000
		}
		d := typ.D
		v := gen.Value(c.T, d, budget)
		obj := bridge.New(d, v, gen.Noise(c.T))
		nils := 0
		if odds := gen.From(c.T, []int{0, 0, 2, 5, 20}, "nil"); d.HasPtr && odds > 0 {
			nils = prune(d, obj.Elem(), &bridge.Rng{S: gen.Seed(c.T, "prune")}, odds)
			w, err := bridge.GetNil(d, obj.Elem())
			if err != nil {
				z.Broken(c, "pruned object of %s: %v", typ, err)
			}
			v = w
		}
		plain := z.Pretty(c, typ, obj.Interface(), "")
		if msg := parse(plain, d, v); msg != "" {
			z.Violated(c, "printed form of %s does not show the value: %s\nvalue %s\nprinted %s", typ, msg, ref.Render(d, v), cut(plain))
		}
		for i := 0; i < len(plain); i++ {
			if b := plain[i]; b < ' ' && b != '\n' || b == ' ' && (i == 0 || plain[i-1] == '\n' || plain[i-1] == ' ' || i+1 < len(plain) && plain[i+1] == '\n') {
				z.Violated(c, "printed form of %s without indentation has whitespace %q at offset %d\nprinted %s", typ, b, i, cut(plain))
			}
		}
		// a mark that cannot occur elsewhere: it is at line starts only, and without it the text is the same
		mark := gen.From(c.T, []string{"\x01", "\x02\x03", "~~~~"}, "mark")
		marked := z.Pretty(c, typ, obj.Interface(), mark)
		lines, flat := strings.Split(marked, "\n"), strings.Split(plain, "\n")
		if len(lines) != len(flat) {
			z.Violated(c, "printed form of %s has %d lines with an indent string, %d without", typ, len(lines), len(flat))
		}
		depths := make([]int, len(lines))
		for i, l := range lines {
			for strings.HasPrefix(l, mark) {
				l = l[len(mark):]
				depths[i]++
			}
			if l != flat[i] {
				z.Violated(c, "line %d of the printed form of %s is %.200q with indent string %q, %.200q without", i, typ, lines[i], mark, flat[i])
			}
		}
		// what is between brackets is deeper than the brackets, which are as deep as each other (unless nothing is between them)
		var open []int
		for i, l := range flat {
			if strings.HasPrefix(l, "}") || strings.HasPrefix(l, "]") {
				if k := len(open); k == 0 || depths[i] != depths[open[k-1]] && open[k-1] != i-1 {
					z.Violated(c, "line %d of the printed form of %s closes a bracket, but is not indented like the line that opens it\nprinted %s", i, typ, cut(z.Pretty(c, typ, obj.Interface(), "  ")))
				}
				open = open[:len(open)-1]
			}
			if k := len(open); k > 0 && l != "" && depths[i] <= depths[open[k-1]] {
				z.Violated(c, "line %d of the printed form of %s is not indented more than the bracket around it\nprinted %s", i, typ, cut(z.Pretty(c, typ, obj.Interface(), "  ")))
			}
			if strings.HasSuffix(l, "{") || strings.HasSuffix(l, "[") {
				open = append(open, i)
			}
		}
		// any other indent string takes the place of the mark
		indent := gen.From(c.T, indents, "indent")
		var sb strings.Builder
		for i, l := range flat {
			if i > 0 {
				sb.WriteByte('\n')
			}
			sb.WriteString(strings.Repeat(indent, depths[i]))
			sb.WriteString(l)
		}
		if got := z.Pretty(c, typ, obj.Interface(), indent); got != sb.String() {
			z.Violated(c, "printed form of %s with indent string %q is not the unindented text with the indents inserted\ngot %s\nwant %s", typ, indent, cut(got), cut(sb.String()))
		}
		c.Label("kind %v nil pointers=%v large=%v", d.Kind, nils > 0, len(plain) > 1<<16)
		if d.Depth > 0 && len(plain) > 8 {
			c.NonTrivial(func() any {
				return map[string]any{"type": typ.String(), "value": ref.Render(d, v), "printed": cut(plain)}
			}, typ.T, plain)
		}
	})
}

// TestZero prints zero objects: nil pointers, slices and bitlists without delimiter bit.
func TestZero(t *testing.T) {
	h.Check(t, 0.2, func(c *h.C) {
		typ := gen.Type(c.T)
		s := z.Pretty(c, typ, reflect.New(typ.T).Interface(), gen.From(c.T, indents[:5], "indent"))
		v := zero(typ.D, reflect.New(typ.T).Elem())
		if v != nil {
			if msg := parse(s, typ.D, v); msg != "" {
				z.Violated(c, "printed form of a zero %s does not show the value: %s\nprinted %s", typ, msg, cut(s))
			}
		}
		c.Label("comparable=%v", v != nil)
		c.NonTrivial(nil, typ.T, s)
	})
}

// zero is the logical value of a zero object, nil if it is not a valid one (bitlists).
func zero(d *ref.Desc, rv reflect.Value) *ref.Val {
	v, err := bridge.GetNil(d, rv)
	if err != nil {
		return nil
	}
	return v
}

func cut(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}
