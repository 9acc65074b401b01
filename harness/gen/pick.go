package gen

import "pgregory.net/rapid"

var bit = rapid.Bool()

// Index draws an index below n evenly (rapid's integer generators prefer small numbers).
func Index(t *rapid.T, n int, label string) int {
	if n <= 1 {
		return 0
	}
	x, span := 0, 1
	for span < 4*n {
		x *= 2
		if bit.Draw(t, label) {
			x++
		}
		span *= 2
	}
	return x % n
}

// From draws one of the elements evenly.
func From[E any](t *rapid.T, s []E, label string) E { return s[Index(t, len(s), label)] }

var half = rapid.Uint32()

// Seed draws 64 bits with little repetition.
func Seed(t *rapid.T, label string) uint64 {
	a, b, c := half.Draw(t, label), half.Draw(t, label), half.Draw(t, label)
	return uint64(a)*0x9e3779b97f4a7c15 ^ uint64(b)*0xbf58476d1ce4e5b9 ^ uint64(c)<<16
}
