package c20

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"strings"
	"testing"
	"time"

	"zverif/bridge"
	"zverif/do"
	"zverif/gen"
	"zverif/h"
	"zverif/mips"
	"zverif/ref"
	"zverif/reg"
	"zverif/wire"
	"zverif/z"
)

// guest is the program harness/guest, built for another platform. On mips and mips64 a simulated machine runs it.
type guest struct {
	arch string
	m    machine
	used bool
}

type machine interface {
	Call(in []byte, budget uint64) ([]byte, error)
	Where() string
	Said() string
	Close()
}

// native is a guest that this machine can run.
type native struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out io.Reader
	err bytes.Buffer
}

func start(path string) (machine, error) {
	n := &native{cmd: exec.Command(path)}
	n.cmd.Env = []string{"GOMAXPROCS=1"}
	n.cmd.Stderr = &n.err
	n.in, _ = n.cmd.StdinPipe()
	n.out, _ = n.cmd.StdoutPipe()
	return n, n.cmd.Start()
}

func (n *native) Call(in []byte, budget uint64) ([]byte, error) {
	late := time.AfterFunc(200*time.Second, func() { n.cmd.Process.Kill() })
	defer late.Stop()
	if _, err := n.in.Write(in); err != nil {
		return nil, err
	}
	head := make([]byte, 4)
	if _, err := io.ReadFull(n.out, head); err != nil {
		return nil, err
	}
	body := make([]byte, binary.BigEndian.Uint32(head))
	_, err := io.ReadFull(n.out, body)
	return append(head, body...), err
}

func (n *native) Where() string { return "" }

func (n *native) Close() {
	n.in.Close()
	n.cmd.Process.Kill()
	n.cmd.Wait()
}

// Said is what the process wrote to its standard error; it has ended.
func (n *native) Said() string { return n.err.String() }

var guests = map[string]*guest{}

const (
	bootBudget = 5_000_000_000
	callBudget = 4_000_000_000 // more than ten times what the largest requests take
)

func (g *guest) boot(t z.TB) {
	path := os.Getenv("ZV_GUEST_" + g.arch)
	var m machine
	var err error
	if g.arch == "386" {
		m, err = start(path)
	} else {
		m, err = mips.Boot(path, "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=all")
	}
	if err != nil {
		z.Broken(t, "no simulated machine for %s: %v", path, err)
	}
	g.m, g.used = m, false
	out, err := g.m.Call((&wire.Request{Op: wire.OpTypes}).Marshal(), bootBudget)
	if err != nil {
		g.m.Close()
		said := g.m.Said()
		g.m = nil
		if i := strings.Index(said, "panic"); i >= 0 && first(said[i:]) {
			z.Violated(t, "programs that use zssz do not start on %s: %v\n%s", g.arch, err, said)
		}
		z.Broken(t, "the guest on %s does not start: %v\n%s", g.arch, err, said)
	}
	a := answer(t, out)
	if !a.GetBool() {
		z.Broken(t, "the guest on %s: %s", g.arch, a.GetBytes())
	}
	for i, e := range reg.All() {
		f := fnv.New64a()
		f.Write([]byte(e.D.String()))
		if len(a.B) < 8 || a.GetU() != f.Sum64() {
			z.Broken(t, "type %d of the guest on %s is not %v", i, g.arch, e.D)
		}
	}
}

// first: the innermost function of a stack that is not of Go itself is one of zssz.
func first(stack string) bool {
	a, b := strings.Index(stack, "protolambda/zssz"), strings.Index(stack, "zverif/")
	return a >= 0 && (b < 0 || a < b)
}

func answer(t z.TB, out []byte) *wire.Buf {
	b := &wire.Buf{B: out}
	if len(out) < 4 {
		z.Broken(t, "incomplete answer: %x", out)
	}
	b.B = b.GetBytes()
	return b
}

// ask lets the guest answer the request; on a new machine if the old one broke down.
func ask(c *h.C, arch string, r *wire.Request, what string) []byte {
	g := guests[arch]
	if g == nil {
		g = &guest{arch: arch}
		guests[arch] = g
	}
	for {
		if g.m == nil {
			g.boot(c)
		}
		again := g.used // a machine that had other requests before may suffer from those
		g.used = true
		out, err := g.m.Call(r.Marshal(), callBudget)
		if err == nil {
			return answer(c, out).B
		}
		where := g.m.Where()
		g.m.Close()
		stderr := g.m.Said()
		g.m = nil
		if again {
			c.Label("%s started again", arch)
			continue
		}
		if errors.Is(err, mips.ErrBudget) {
			z.Violated(c, "%s on %s does not come to an end, it is at %s", what, arch, where)
		}
		if !first(where + "\n" + stderr) {
			z.Broken(c, "%s on %s: %v\n%s", what, arch, err, stderr)
		}
		z.Violated(c, "%s on %s: %v\n%s", what, arch, err, ref.Short([]byte(stderr)))
	}
}

var parts = map[byte][]string{
	wire.OpValue:  {"ok", "encoding:b", "bytes written", "size", "root:b", "fixed length", "minimum length", "maximum length", "fixed", "printed:b", "signing root:b"},
	wire.OpDecode: {"ok", "accepted", "accepted by dry check", "fault:b", "encoding of the decoded value:b"},
	wire.OpFuzz:   {"ok", "bytes taken", "accepted", "fault:b", "encoding of the decoded value:b"},
	wire.OpMerkle: {"ok", "root:b", "sibling:b"},
	wire.OpBits:   {"ok", "bitlist", "bitvector", "length", "zero", "bit", "with the bit changed:b"},
}

// show renders an answer.
func show(op byte, b []byte) (s string) {
	defer func() {
		if recover() != nil {
			s += " ..."
		}
	}()
	w := &wire.Buf{B: b}
	ps := parts[op]
	for i := 0; len(w.B) > 0; i++ {
		p := ps[min(i, len(ps)-1)]
		if n, ok := strings.CutSuffix(p, ":b"); ok {
			s += "\n  " + n + ": "
			if n == "printed" || n == "fault" {
				s += string(w.GetBytes())
			} else {
				s += ref.Short(w.GetBytes())
			}
		} else {
			x := w.GetU()
			s += fmt.Sprintf("\n  %s: %d", p, x)
			if i == 0 && x == 0 {
				return s + "\n  panic: " + string(w.GetBytes())
			}
		}
	}
	return s
}

// TestGuest: the same requests are answered in the same way here and as 32-bit program, and on simulated big-endian machines of 32 and 64 bits.
func TestGuest(t *testing.T) {
	h.Check(t, 1, func(c *h.C) {
		arch := gen.From(c.T, []string{"mips", "mips64", "386"}, "arch")
		r := &wire.Request{Op: gen.From(c.T, []byte{wire.OpValue, wire.OpValue, wire.OpDecode, wire.OpDecode, wire.OpFuzz, wire.OpMerkle, wire.OpBits}, "op")}
		what, extra := "", any(nil)
		var typ *z.Typ
		switch r.Op {
		case wire.OpMerkle:
			r.Args = [4]uint64{uint64(gen.Index(c.T, 40, "leaves")), 0, 0, gen.Seed(c.T, "seed")}
			r.Args[1] = r.Args[0] + uint64(gen.Index(c.T, 40, "limit"))
			if k := gen.Index(c.T, 60, "shift"); k > 20 {
				r.Args[1] += 1 << k
			}
			r.Args[2] = gen.Seed(c.T, "index")
			if r.Args[1] > 0 {
				r.Args[2] %= r.Args[1]
			}
			what = fmt.Sprintf("the tree of %d leaves with limit %d, branch %d", r.Args[0], r.Args[1], r.Args[2])
		case wire.OpBits:
			r.In = make([]byte, gen.Index(c.T, 20, "bytes"))
			rng := &bridge.Rng{S: gen.Seed(c.T, "content")}
			rng.Fill(r.In)
			if n := len(r.In); n > 0 {
				r.In[n-1] >>= rng.N(9)
			}
			r.Args[0] = uint64(len(r.In))*8 + uint64(gen.Index(c.T, 20, "limit")) - 10
			r.Args[1] = uint64(gen.Index(c.T, 170, "index"))
			what = fmt.Sprintf("the bits %x, limit %d, bit %d", r.In, r.Args[0], r.Args[1])
		default:
			es := reg.All()
			r.Type = gen.Index(c.T, len(es), "type")
			for i := 0; i < len(es) && gen.Index(c.T, 2, "any") == 0 && !multi(es[r.Type].D); i++ {
				r.Type = (r.Type + 1) % len(es)
			}
			typ = z.Get(c, es[r.Type].T, es[r.Type].D)
			d := typ.D
			r.Noise = gen.Seed(c.T, "noise")
			v := gen.Value(c.T, d, small(c))
			r.Enc = ref.Encode(d, v)
			if r.Op != wire.OpValue && gen.Index(c.T, 2, "stale") == 1 {
				r.Stale = ref.Encode(d, gen.Value(c.T, d, 100))
			}
			kind := ""
			switch r.Op {
			case wire.OpDecode:
				r.In, kind = r.Enc, "own encoding"
				if gen.Index(c.T, 2, "bytes") == 0 {
					r.In, kind = gen.Faulty(c.T, d, v)
				}
				r.N = uint64(len(r.In))
				if gen.Index(c.T, 20, "declared") == 19 {
					r.N += 1 << (32 + gen.Index(c.T, 32, "bit"))
					if d.Max >= 1<<32 {
						r.N = uint64(len(r.In))
					}
				}
			case wire.OpFuzz:
				if d.FuzzMin > 5000 {
					return
				}
				r.In, kind = make([]byte, int(d.FuzzMin)+gen.Index(c.T, 300, "more")), "fuzz input"
				(&bridge.Rng{S: gen.Seed(c.T, "bytes")}).Fill(r.In)
				r.N = uint64(len(r.In))
			}
			if r.Op == wire.OpValue {
				what = fmt.Sprintf("value %s of %s", ref.Render(d, v), typ)
			} else {
				what = fmt.Sprintf("%s of %s (%s, declared length %d)", ref.Short(r.In), typ, kind, r.N)
			}
			extra = typ.T
		}
		here := do.Answer(r)
		there := ask(c, arch, r, what)
		if len(there) == 0 || bytes.Contains(there, []byte("HARNESS:")) || bytes.Contains(here, []byte("HARNESS:")) {
			z.Broken(c, "the guest on %s: %q, here %q", arch, there, here)
		}
		ok := bytes.Equal(here, there)
		if w := (&wire.Buf{B: here}); !w.GetBool() { // a panic; not its message
			ok = !(&wire.Buf{B: there}).GetBool()
		}
		if !ok {
			z.Violated(c, "%s: different results\nhere:%s\non %s:%s", what, show(r.Op, here), arch, show(r.Op, there))
		}
		c.Label("%s %c", arch, r.Op)
		if typ == nil || multi(typ.D) && len(r.Enc)+len(r.In) > 0 {
			c.NonTrivial(func() any { return map[string]any{"on": arch, "case": what} }, arch, r.Op, extra, r.Enc, r.In, r.N, fmt.Sprint(r.Args))
		}
	})
}

// small draws a budget; the simulated machines are slow.
func small(c *h.C) int {
	if gen.Index(c.T, 20, "size") == 19 {
		return 3000
	}
	return gen.From(c.T, []int{48, 48, 300}, "budget")
}

// TestGuestAnswers: the programs run on the machines they are meant for.
func TestGuestAnswers(t *testing.T) {
	h.Check(t, 0.002, func(c *h.C) {
		for arch, word := range map[string]uint64{"mips": 4, "mips64": 8, "386": 4} {
			b := (&wire.Buf{B: ask(c, arch, &wire.Request{Op: wire.OpMachine}, "start")})
			if !b.GetBool() || b.GetU() != word || b.GetBool() != (arch == "386") {
				z.Broken(c, "%s is not the machine it should be", arch)
			}
		}
		c.NonTrivial(nil, "machines")
	})
}
