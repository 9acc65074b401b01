// Package z wraps the zssz calls that the checks make: type definitions, panics as violations.
package z

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"reflect"
	"runtime/debug"
	"strings"
	"sync"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/types"

	"zverif/ref"
)

// TB is what rapid.T and testing.T share.
type TB interface {
	Helper()
	Fatalf(format string, args ...any)
	Logf(format string, args ...any)
}

// Typ is a Go type with its reference description and its zssz definition.
type Typ struct {
	T reflect.Type
	D *ref.Desc
	S types.SSZ
}

func (t *Typ) String() string {
	s := t.D.String()
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

// Violated reports that the property does not hold.
func Violated(t TB, format string, args ...any) {
	t.Helper()
	t.Fatalf("VIOLATED: "+format, args...)
}

// Broken reports a fault of the harness.
func Broken(t TB, format string, args ...any) {
	t.Helper()
	t.Fatalf("HARNESS: "+format, args...)
}

var cache sync.Map

// Get builds (or reuses) the zssz definition.
func Get(t TB, typ reflect.Type, d *ref.Desc) *Typ {
	if c, ok := cache.Load(typ); ok {
		return c.(*Typ)
	}
	x := Build(t, typ, d)
	cache.Store(typ, x)
	return x
}

// Build builds a new zssz definition.
func Build(t TB, typ reflect.Type, d *ref.Desc) *Typ {
	var s types.SSZ
	var err error
	Try(t, fmt.Sprintf("SSZFactory(%v)", d), func() { s, err = types.SSZFactory(typ) })
	if err != nil || s == nil {
		Violated(t, "no definition for supported type %v (%v): %v", typ, d, err)
	}
	return &Typ{T: typ, D: d, S: s}
}

// Panics runs fn and returns what it panicked with, nil if it did not.
func Panics(fn func()) (p any, stack string) {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	done := false
	defer func() {
		if !done {
			p = recover()
			if p == nil {
				p = "panic(nil) or Goexit"
			}
			stack = trimStack(string(debug.Stack()))
		}
	}()
	fn()
	done = true
	return nil, ""
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "protolambda/zssz") || strings.HasPrefix(l, "\t/repo") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n")
}

// Try runs fn, which consists of calls into zssz only; a panic is a violation.
func Try(t TB, what string, fn func()) {
	t.Helper()
	if p, st := Panics(fn); p != nil {
		Violated(t, "%s panicked: %v\n%s", what, p, st)
	}
}

// Hash is the hash function used where any would do.
var Hash = htr.HashFn(sha256.Sum256)

func Encode(t TB, typ *Typ, val any) []byte {
	t.Helper()
	var buf bytes.Buffer
	n, err := EncodeTo(t, typ, val, &buf)
	if err != nil {
		Violated(t, "Encode of %v failed: %v", typ, err)
	}
	if n != buf.Len() {
		Violated(t, "Encode of %v returned %d, wrote %d bytes", typ, n, buf.Len())
	}
	return buf.Bytes()
}

func EncodeTo(t TB, typ *Typ, val any, w io.Writer) (n int, err error) {
	t.Helper()
	Try(t, "Encode of "+typ.String(), func() { n, err = zssz.Encode(w, val, typ.S) })
	return
}

func Decode(t TB, typ *Typ, r io.Reader, n uint64, dst any) (err error) {
	t.Helper()
	Try(t, "Decode of "+typ.String(), func() { err = zssz.Decode(r, n, dst, typ.S) })
	return
}

func DryCheck(t TB, typ *Typ, r io.Reader, n uint64) (err error) {
	t.Helper()
	Try(t, "DryCheck of "+typ.String(), func() { err = zssz.DryCheck(r, n, typ.S) })
	return
}

func Fuzz(t TB, typ *Typ, r io.Reader, n uint64, dst any) (c uint64, err error) {
	t.Helper()
	Try(t, "DecodeFuzzBytes of "+typ.String(), func() { c, err = zssz.DecodeFuzzBytes(r, n, dst, typ.S) })
	return
}

func Size(t TB, typ *Typ, val any) (n uint64) {
	t.Helper()
	Try(t, "SizeOf of "+typ.String(), func() { n = zssz.SizeOf(val, typ.S) })
	return
}

func Root(t TB, typ *Typ, val any, h htr.MerkleFn) (r [32]byte) {
	t.Helper()
	Try(t, "HashTreeRoot of "+typ.String(), func() { r = zssz.HashTreeRoot(h, val, typ.S) })
	return
}

func Signing(t TB, typ *Typ, val any, h htr.MerkleFn) (r [32]byte) {
	t.Helper()
	s, ok := typ.S.(types.SignedSSZ)
	if !ok {
		Violated(t, "no signing root for struct type %v", typ)
	}
	Try(t, "SigningRoot of "+typ.String(), func() { r = zssz.SigningRoot(h, val, s) })
	return
}

func Pretty(t TB, typ *Typ, val any, indent string) string {
	t.Helper()
	var buf bytes.Buffer
	Try(t, "Pretty of "+typ.String(), func() { zssz.Pretty(&buf, indent, val, typ.S) })
	return buf.String()
}
