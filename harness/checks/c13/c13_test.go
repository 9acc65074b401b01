package c13

import (
	"bytes"
	"fmt"
	"syscall"
	"testing"

	"zverif/bridge"
	"zverif/gen"
	"zverif/h"
	"zverif/ref"
	"zverif/z"

	"github.com/protolambda/zssz/bitfields"
)

func TestMain(m *testing.M) { h.Main(m) }

// bits below are a plain list, least significant bit of the first byte first
func bitsOf(b []byte) []bool {
	out := make([]bool, 0, len(b)*8)
	for _, x := range b {
		for j := 0; j < 8; j++ {
			out = append(out, x>>uint(j)&1 == 1)
		}
	}
	return out
}

// delimited splits off the delimiter; ok is false when there is none in the last byte.
func delimited(b []byte) (content []bool, ok bool) {
	bs := bitsOf(b)
	for i := len(bs) - 1; i >= 0 && i >= len(bs)-8; i-- {
		if bs[i] {
			return bs[:i], true
		}
	}
	return nil, false
}

func anySet(bs []bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

func checkBitlist(c z.TB, b []byte, limits []uint64) {
	content, ok := delimited(b)
	keep := append([]byte(nil), b...)
	if ok {
		var n uint64
		var zero bool
		z.Try(c, "BitlistLen", func() { n = bitfields.BitlistLen(b) })
		if n != uint64(len(content)) {
			z.Violated(c, "BitlistLen(%x) = %d, want %d", b, n, len(content))
		}
		z.Try(c, "IsZeroBitlist", func() { zero = bitfields.IsZeroBitlist(b) })
		if zero != !anySet(content) {
			z.Violated(c, "IsZeroBitlist(%x) = %v", b, zero)
		}
	}
	if !ok {
		// documented defaults for what is not a bitlist: the bits of all bytes but the last, nothing but zeros
		want := uint64(0)
		if len(b) > 0 {
			want = uint64(len(b)-1) * 8
		}
		var n uint64
		var zero bool
		z.Try(c, "BitlistLen", func() { n = bitfields.BitlistLen(b) })
		if n != want {
			z.Violated(c, "BitlistLen(%x), without delimiter, = %d, want %d", b, n, want)
		}
		z.Try(c, "IsZeroBitlist", func() { zero = bitfields.IsZeroBitlist(b) })
		if zero != !anySet(bitsOf(b)) {
			z.Violated(c, "IsZeroBitlist(%x), without delimiter, = %v", b, zero)
		}
	}
	for _, limit := range limits {
		var err error
		z.Try(c, "BitlistCheckByteLen", func() { err = bitfields.BitlistCheckByteLen(uint64(len(b)), limit) })
		if want := len(b) > 0 && uint64(len(b))-1 <= limit/8; (err == nil) != want {
			z.Violated(c, "BitlistCheckByteLen(%d, %d) = %v, valid is %v", len(b), limit, err, want)
		}
		z.Try(c, "BitlistCheck", func() { err = bitfields.BitlistCheck(b, limit) })
		want := ok && uint64(len(content)) <= limit
		if (err == nil) != want {
			z.Violated(c, "BitlistCheck(%x, %d) = %v, valid is %v", b, limit, err, want)
		}
	}
	if !bytes.Equal(b, keep) {
		z.Violated(c, "bitlist %x changed to %x by reading", keep, b)
	}
}

func checkBitvector(c z.TB, b []byte, n uint64) {
	var err error
	keep := append([]byte(nil), b...)
	z.Try(c, "BitvectorCheckByteLen", func() { err = bitfields.BitvectorCheckByteLen(uint64(len(b)), n) })
	fits := n/8 == uint64(len(b)) && n%8 == 0 || n%8 != 0 && n/8+1 == uint64(len(b))
	if (err == nil) != fits {
		z.Violated(c, "BitvectorCheckByteLen(%d, %d) = %v, valid is %v", len(b), n, err, fits)
	}
	z.Try(c, "BitvectorCheck", func() { err = bitfields.BitvectorCheck(b, n) })
	want := n/8 == uint64(len(b)) && n%8 == 0
	if n%8 != 0 && n/8+1 == uint64(len(b)) {
		want = !anySet(bitsOf(b)[n:])
	}
	if (err == nil) != want {
		z.Violated(c, "BitvectorCheck(%x, %d) = %v, valid is %v", b, n, err, want)
	}
	if !bytes.Equal(b, keep) {
		z.Violated(c, "bitvector %x changed to %x by reading", keep, b)
	}
}

func around(n uint64) []uint64 {
	out := []uint64{n, n + 1, n + 7, n + 8, n * 2, ^uint64(0), ^uint64(0) - 7, ^uint64(0) - 8, 1 << 63}
	if n > 0 {
		out = append(out, n-1, 0, n/2)
	}
	if n > 8 {
		out = append(out, n-8, n-7)
	}
	return out
}

// TestShort enumerates all byte strings of up to two bytes, with all limits and lengths around them.
func TestShort(t *testing.T) {
	count := 0
	run := func(b []byte) {
		count++
		limits := make([]uint64, 0, 30)
		for l := uint64(0); l <= 26; l++ {
			limits = append(limits, l)
		}
		checkBitlist(t, b, append(limits, 1<<32, 1<<63, ^uint64(0)))
		for n := uint64(0); n <= 26; n++ {
			checkBitvector(t, b, n)
		}
		for i := uint64(0); i < 16; i++ {
			checkBitvector(t, b, ^uint64(0)-i)
		}
	}
	run(nil)
	run([]byte{})
	for x := 0; x < 256; x++ {
		run([]byte{byte(x)})
		want := uint64(0)
		for j := uint64(0); j < 8; j++ {
			if x>>j&1 == 1 {
				want = j
			}
		}
		if got := bitfields.BitIndex(byte(x)); got != want {
			z.Violated(t, "BitIndex(%#x) = %d, want %d", x, got, want)
		}
	}
	for x := 0; x < 1<<16; x++ {
		if h.Mine(x) {
			run([]byte{byte(x), byte(x >> 8)})
		}
	}
	h.Count(t.Name(), count)
}

// lastBytes: the checks of the last byte alone, of a bitlist (with the bits that are left for it) and of a bitvector.
func lastBytes(t z.TB, x byte, n uint64) {
	var err error
	z.Try(t, "BitlistCheckLastByte", func() { err = bitfields.BitlistCheckLastByte(x, n) })
	content, ok := delimited([]byte{x})
	if want := ok && uint64(len(content)) <= n; (err == nil) != want {
		z.Violated(t, "BitlistCheckLastByte(%#x, %d) = %v, valid is %v", x, n, err, want)
	}
	z.Try(t, "BitvectorCheckLastByte", func() { err = bitfields.BitvectorCheckLastByte(x, n) })
	want := n != 0 && (n%8 == 0 || !anySet(bitsOf([]byte{x})[n%8:]))
	if (err == nil) != want {
		z.Violated(t, "BitvectorCheckLastByte(%#x, %d) = %v, valid is %v", x, n, err, want)
	}
}

func TestLastByte(t *testing.T) {
	count := 0
	for x := 0; x < 256; x++ {
		for n := uint64(0); n <= 70; n++ {
			lastBytes(t, byte(x), n)
		}
		for k := uint(7); k < 64; k++ {
			for d := uint64(0); d < 10; d++ {
				lastBytes(t, byte(x), uint64(1)<<k+d)
				lastBytes(t, byte(x), uint64(1)<<k-d)
				lastBytes(t, byte(x), -d)
				count += 3
			}
		}
	}
	h.Count(t.Name(), count)
}

// TestPairs enumerates all pairs of bits, and of bytes that cancel out by sum or difference, in bitlists of 33 bytes:
// what looks at several bytes at once has to see each of them.
func TestPairs(t *testing.T) {
	const n = 33
	count := 0
	var b [n]byte
	look := func(delimiter byte) {
		count++
		b[n-1] = delimiter
		want := false
		for _, x := range b[:n-1] {
			want = want || x != 0
		}
		var zero bool
		z.Try(t, "IsZeroBitlist", func() { zero = bitfields.IsZeroBitlist(b[:]) })
		if zero != !want {
			z.Violated(t, "IsZeroBitlist(%x) = %v", b[:], zero)
		}
		var l uint64
		z.Try(t, "BitlistLen", func() { l = bitfields.BitlistLen(b[:]) })
		if l != (n-1)*8 {
			z.Violated(t, "BitlistLen(%x) = %d, want %d", b[:], l, (n-1)*8)
		}
	}
	for i := 0; i < (n-1)*8; i++ {
		if !h.Mine(i) {
			continue
		}
		for j := i; j < (n-1)*8; j++ {
			b = [n]byte{}
			b[i/8] |= 1 << uint(i%8)
			b[j/8] |= 1 << uint(j%8)
			look(1)
		}
	}
	for i := 0; i < n-1; i++ {
		if !h.Mine(i) {
			continue
		}
		for j := i + 1; j < n-1; j++ {
			for x := 0; x < 256; x++ {
				b = [n]byte{}
				b[i], b[j] = byte(x), byte(x)
				look(1)
				b[j] = byte(-x)
				look(1)
			}
		}
	}
	h.Count(t.Name(), count)
}

func draw(c *h.C) []byte {
	n := gen.Index(c.T, 70, "bytes")
	b := make([]byte, n)
	r := &bridge.Rng{S: gen.Seed(c.T, "content")}
	switch gen.Index(c.T, 6, "kind") {
	case 4: // the same few bits again and again
		period := 1 + r.N(17)
		for i := range b {
			if i < period {
				b[i] = byte(r.N(256)) & byte(r.N(256)) & byte(r.N(256))
			} else {
				b[i] = b[i-period]
			}
		}
	case 5: // two bytes that cancel out, by sum or by difference
		if n > 1 {
			i, j, x := r.N(n), r.N(n), byte(1+r.N(255))
			b[i], b[j] = x, x
			if i != j && r.N(2) == 0 {
				b[j] = -x
			}
		}
	case 0: // zeros
	case 1:
		r.Fill(b)
	case 2:
		if n > 0 {
			b[r.N(n)] = byte(1 << uint(r.N(8)))
		}
	case 3:
		for i := range b {
			b[i] = 0xff
		}
	}
	if n > 0 {
		switch gen.Index(c.T, 4, "last") {
		case 0:
			b[n-1] = byte(1 << uint(gen.Index(c.T, 8, "delimiter")))
		case 1:
			b[n-1] = byte(gen.Index(c.T, 256, "byte"))
		case 2:
			b[n-1] &= byte(1<<uint(gen.Index(c.T, 9, "pad")) - 1)
		}
	}
	return b
}

func TestChecks(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		b := draw(c)
		content, ok := delimited(b)
		c.Label("bitlist valid=%v", ok)
		limits := around(uint64(len(b)) * 8)
		if ok {
			limits = append(limits, around(uint64(len(content)))...)
		}
		limits = append(limits, uint64(gen.Index(c.T, 600, "limit")))
		checkBitlist(c, b, limits)
		for d := uint64(0); d < 18; d++ {
			if n := uint64(len(b))*8 + 9; n >= d {
				checkBitvector(c, b, n-d)
			}
		}
		checkBitvector(c, b, gen.Seed(c.T, "n"))
		if len(b) > 2 {
			c.NonTrivial(func() any { return map[string]any{"bytes": ref.Short(b), "bits": len(content)} }, b)
		}
	})
}

// TestBits runs histories of SetBit against a plain list of bits.
func TestBits(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		n := 1 + gen.Index(c.T, 40, "bytes")
		pad := 8
		mem := make([]byte, n+2*pad)
		(&bridge.Rng{S: gen.Seed(c.T, "content")}).Fill(mem)
		b := mem[pad : pad+n : pad+n]
		before := append([]byte(nil), mem...)
		model := bitsOf(b)
		steps := 1 + gen.Index(c.T, 24, "steps")
		changed := 0
		for s := 0; s < steps; s++ {
			i := gen.Index(c.T, n*8, "i")
			v := gen.Index(c.T, 2, "v") == 1
			z.Try(c, "SetBit", func() { bitfields.SetBit(b, uint64(i), v) })
			if model[i] != v {
				changed++
			}
			model[i] = v
			if got := bitsOf(b); !equal(got, model) {
				z.Violated(c, "after SetBit(%d, %v): %x", i, v, b)
			}
			for _, j := range []int{i, gen.Index(c.T, n*8, "j")} {
				var got bool
				z.Try(c, "GetBit", func() { got = bitfields.GetBit(b, uint64(j)) })
				if got != model[j] {
					z.Violated(c, "GetBit(%x, %d) = %v", b, j, got)
				}
			}
		}
		if !bytes.Equal(mem[:pad], before[:pad]) || !bytes.Equal(mem[pad+n:], before[pad+n:]) {
			z.Violated(c, "SetBit wrote outside of the bytes")
		}
		for j := range model {
			if bitfields.GetBit(b, uint64(j)) != model[j] {
				z.Violated(c, "GetBit(%x, %d) = %v", b, j, !model[j])
			}
		}
		if changed > 0 {
			c.NonTrivial(nil, before, b, steps)
		}
	})
}

var largeSizes = []int{127, 128, 255, 256, 1023, 1024, 4095, 4096, 8191, 8192, 32767, 32768, 65535, 65536, 131071, 131072, 262144, 524288, 1048576}

// a reserved area of memory, of which only few pages are ever used
const hugeLen = 1<<29 + 1<<20

var huge []byte

func hugeArea(c *h.C) []byte {
	if huge == nil {
		var err error
		huge, err = syscall.Mmap(-1, 0, hugeLen, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
		if err != nil {
			z.Broken(c, "no memory: %v", err)
		}
	}
	return huge
}

// TestLarge: bitfields of kilobytes to half a gigabyte. The model is the set of non-zero bytes.
func TestLarge(t *testing.T) {
	h.Check(t, 0.1, func(c *h.C) {
		var mem []byte
		var n int
		wide := gen.Index(c.T, 4, "huge") == 0
		if wide {
			mem = hugeArea(c)
			n = 1<<29 - 3 + gen.Index(c.T, 7, "bytes")
			if gen.Index(c.T, 3, "other length") == 0 {
				n = 1<<20 + gen.Index(c.T, hugeLen-1<<20-8, "bytes")
			}
		} else {
			n = gen.From(c.T, largeSizes, "size") + gen.Index(c.T, 4, "more")
			mem = make([]byte, n+8)
		}
		b := mem[:n:n]
		model := map[int]byte{}
		defer func() {
			for i := range model {
				mem[i] = 0
			}
			for i := -9; i <= 9; i++ {
				for p := 0; p < 40; p++ {
					if j := 1<<uint(p) + i; j >= 0 && j < len(mem) {
						mem[j] = 0
					}
				}
				if j := n + i; j >= 0 && j < len(mem) {
					mem[j] = 0
				}
			}
		}()
		bits := uint64(n) * 8
		near := []uint64{0, bits - 1, bits / 2, 1 << 8, 1 << 11, 1 << 16, 1 << 19, 1 << 20, 1 << 24, 1 << 31, 1 << 32}
		var used []uint64
		for s := 1 + gen.Index(c.T, 16, "steps"); s > 0; s-- {
			i := gen.Seed(c.T, "i") % bits
			if gen.Index(c.T, 2, "near") == 0 {
				if x := gen.From(c.T, near, "point") + uint64(gen.Index(c.T, 33, "off")) - 16; x < bits {
					i = x
				}
			}
			v := gen.Index(c.T, 3, "v") > 0
			z.Try(c, "SetBit", func() { bitfields.SetBit(b, i, v) })
			if v {
				model[int(i/8)] |= 1 << (i % 8)
			} else {
				model[int(i/8)] &^= 1 << (i % 8)
			}
			used = append(used, i)
			for _, j := range []uint64{i, gen.From(c.T, used, "used"), gen.Seed(c.T, "j") % bits, (i + 1<<16) % bits, (i + 1<<32) % bits, (i + 1<<19) % bits} {
				want := model[int(j/8)]>>(j%8)&1 == 1
				var got bool
				z.Try(c, "GetBit", func() { got = bitfields.GetBit(b, j) })
				if got != want {
					z.Violated(c, "%d bytes: GetBit(%d) = %v after SetBit of %v", n, j, got, used)
				}
			}
		}
		some := 0
		for _, x := range model {
			if x != 0 {
				some++
			}
		}
		if !wide {
			count := 0
			for _, x := range mem {
				if x != 0 {
					count++
				}
			}
			if count != some {
				z.Violated(c, "%d bytes: %d are not zero after SetBit of %v, want %d", n, count, used, some)
			}
		}
		// as a bitvector: any length in the last byte is right when the bits beyond it are zero
		last := model[n-1]
		for d := uint64(0); d < 12; d++ {
			var err error
			z.Try(c, "BitvectorCheck", func() { err = bitfields.BitvectorCheck(b, bits+2-d) })
			want := bits+2-d <= bits && d-2 < 8 && int(last)>>(8-(d-2)) == 0
			if (err == nil) != want {
				z.Violated(c, "%d bytes ending in %#x: BitvectorCheck(%d) = %v", n, last, bits+2-d, err)
			}
		}
		// as a bitlist, with a delimiter
		k := gen.Index(c.T, 8, "delimiter")
		b[n-1] = b[n-1]&byte(1<<uint(k)-1) | byte(1<<uint(k))
		model[n-1] = b[n-1]
		length := bits - 8 + uint64(k)
		var got uint64
		z.Try(c, "BitlistLen", func() { got = bitfields.BitlistLen(b) })
		if got != length {
			z.Violated(c, "%d bytes ending in %#x: BitlistLen = %d, want %d", n, b[n-1], got, length)
		}
		for _, limit := range append(around(length), length^1<<32, length%(1<<32)) {
			var err error
			z.Try(c, "BitlistCheck", func() { err = bitfields.BitlistCheck(b, limit) })
			if (err == nil) != (length <= limit) {
				z.Violated(c, "%d bytes ending in %#x: BitlistCheck(%d) = %v", n, b[n-1], limit, err)
			}
		}
		if !wide || gen.Index(c.T, 100, "scan") == 0 {
			content := false
			for i, x := range model {
				content = content || i < n-1 && x != 0
			}
			content = content || b[n-1] != byte(1<<uint(k))
			var zero bool
			z.Try(c, "IsZeroBitlist", func() { zero = bitfields.IsZeroBitlist(b) })
			if zero == content {
				z.Violated(c, "%d bytes: IsZeroBitlist = %v after SetBit of %v", n, zero, used)
			}
		}
		c.Label("half a gigabyte:%v", wide)
		c.NonTrivial(func() any { return map[string]any{"bytes": n, "set": used} }, n, fmt.Sprint(used))
	})
}

func equal(a, b []bool) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return len(a) == len(b)
}
