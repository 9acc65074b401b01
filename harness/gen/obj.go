package gen

import (
	"reflect"

	"pgregory.net/rapid"

	"zverif/bridge"
	"zverif/ref"
	"zverif/z"
)

// Case is a type, a valid value of it, and an object holding the value.
type Case struct {
	Typ *z.Typ
	V   *ref.Val
	Obj reflect.Value // pointer to Typ.T
	Enc []byte        // reference encoding
}

func (c *Case) D() *ref.Desc { return c.Typ.D }
func (c *Case) Ptr() any     { return c.Obj.Interface() }

// NewCase draws a case.
func NewCase(t *rapid.T) *Case { return CaseOf(t, Type(t)) }

// CaseOf draws a case of the type.
func CaseOf(t *rapid.T, typ *z.Typ) *Case {
	v := Value(t, typ.D, BigBudget(t))
	return &Case{Typ: typ, V: v, Obj: bridge.New(typ.D, v, Noise(t)), Enc: ref.Encode(typ.D, v)}
}

// Sample describes the case for the evidence.
func (c *Case) Sample() any {
	return map[string]any{"type": c.Typ.String(), "value": ref.Render(c.Typ.D, c.V), "encoding": ref.Short(c.Enc)}
}

// BytesSample describes a byte-string case for the evidence.
func BytesSample(typ *z.Typ, b []byte, kind string, extra string) func() any {
	return func() any {
		return map[string]any{"type": typ.String(), "kind": kind, "bytes": ref.Short(b), "result": extra}
	}
}
