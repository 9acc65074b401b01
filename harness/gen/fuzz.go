package gen

import (
	"os"
	"reflect"
	"testing"

	"pgregory.net/rapid"

	"zverif/bridge"
	"zverif/ref"
	"zverif/reg"
	"zverif/z"
)

// Select is the type for a fuzzer's selector.
func Select(t z.TB, sel uint16) *z.Typ {
	es := reg.All()
	e := es[int(sel)%len(es)]
	return z.Get(t, e.T, e.D)
}

// SeedDst is a decoding destination made from a seed: fresh, or with leftovers.
func SeedDst(d *ref.Desc, seed uint64) reflect.Value {
	if seed%3 == 0 {
		return reflect.New(d.T)
	}
	return bridge.New(d, ref.Zero(d), &bridge.Rng{S: seed})
}

// Corpus adds byte strings for every type.
func Corpus(f *testing.F) {
	if os.Getenv("ZV_FUZZ") == "" {
		f.Skip("only with the fuzzer")
	}
	for i, e := range reg.All() {
		d := e.D
		if d.Min > 4000 {
			continue
		}
		for k := 0; k < 3; k++ {
			b := rapid.Custom(func(t *rapid.T) []byte {
				rapid.Bool().Draw(t, "any") // (an empty type draws nothing)
				if k == 2 {
					b, _ := Bytes(t, d)
					return b
				}
				return ref.Encode(d, Value(t, d, []int{40, 300}[k]))
			}).Example(i)
			if len(b) < 4000 {
				f.Add(uint16(i), uint64(k), b)
			}
		}
	}
}
