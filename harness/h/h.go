// Package h is the frame of a check: it runs rapid properties and records what they covered.
package h

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

type stats struct {
	Evals      map[string]int    `json:"evals"` // per test function
	Labels     map[string]int    `json:"labels"`
	NonTrivial int               `json:"nontrivial"`
	Distinct   int               `json:"distinct"`
	Hashes     []uint64          `json:"hashes"`
	Samples    []json.RawMessage `json:"samples"`
	Known      []string          `json:"known"`
	Seconds    float64           `json:"seconds"`
	Cut        bool              `json:"cut"` // stopped by the wall-clock budget
}

var (
	mu       sync.Mutex
	st       = stats{Evals: map[string]int{}, Labels: map[string]int{}}
	seen     = map[uint64]bool{}
	start    = time.Now()
	deadline time.Time
	dumped   = time.Now()
	base     int
	perTest  = map[string]int{}

	shard, shards int
	caseStart     atomic.Int64

	// CaseCPU is the processor time after which a single case counts as not terminating (cases take milliseconds).
	CaseCPU = 40 * time.Second
)

// Mine spreads enumerations over the shards.
func Mine(i int) bool { return shards <= 1 || i%shards == shard }

func cpu() int64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return u.Utime.Nano() + u.Stime.Nano()
}

// Guard marks the start of a case for the watchdog, 0 ends it.
func Guard(on bool) {
	if on {
		caseStart.Store(cpu())
	} else {
		caseStart.Store(0)
	}
}

// a goroutine that has been blocked for minutes
var blocked = regexp.MustCompile(`^goroutine \d+ (gp=\S+ m=\S+ )?(mp=\S+ )?\[(sync|chan|select|sema|semacquire|sleep|IO wait)[^\]]*, \d+ minutes`)

// watch ends the process when a case burns far more processor time than any case should,
// or when a goroutine has been waiting inside of zssz for more than a minute without anything else going on.
func watch() {
	var last, lastCPU int64
	for quiet := 0; ; {
		time.Sleep(time.Second)
		s := caseStart.Load()
		now := cpu()
		if s == 0 || s != last || now-lastCPU > int64(100*time.Millisecond) {
			quiet = 0
		} else {
			quiet++
		}
		if quiet == 3 {
			// it is the collector that notes since when goroutines have been waiting
			runtime.GC()
			now = cpu()
		}
		last, lastCPU = s, now
		if s != 0 && time.Duration(now-s) > CaseCPU {
			fmt.Printf("\nVIOLATED-HANG: a case used more than %v of processor time\n%s\n", CaseCPU, stacks())
			os.Exit(1)
		}
		if quiet > 0 && quiet%70 == 0 {
			all := stacks()
			for _, g := range bytes.Split(all, []byte("\n\n")) {
				if blocked.Match(g) && bytes.Contains(g, []byte("\ngithub.com/protolambda/zssz")) {
					fmt.Printf("\nVIOLATED-HANG: a call waits forever\n%s\n", all)
					os.Exit(1)
				}
			}
		}
	}
}

func stacks() []byte {
	b := make([]byte, 4<<20)
	return b[:runtime.Stack(b, true)]
}

// Main is the TestMain of every check.
func Main(m *testing.M) {
	flag.Parse()
	if f := flag.Lookup("rapid.checks"); f != nil {
		base, _ = strconv.Atoi(f.Value.String())
	}
	if s := os.Getenv("ZV_SECONDS"); s != "" {
		n, _ := strconv.ParseFloat(s, 64)
		deadline = start.Add(time.Duration(n * float64(time.Second)))
	}
	shard, _ = strconv.Atoi(os.Getenv("ZV_SHARD"))
	shards, _ = strconv.Atoi(os.Getenv("ZV_SHARDS"))
	go watch()
	code := m.Run()
	dump()
	os.Exit(code)
}

func dump() {
	p := os.Getenv("ZV_STATS")
	if p == "" {
		return
	}
	if os.Getenv("ZV_FUZZ") != "" { // the coordinator and its workers
		p += "." + strconv.Itoa(os.Getpid())
	}
	mu.Lock()
	defer mu.Unlock()
	st.Seconds = time.Since(start).Seconds()
	st.Distinct = len(seen)
	st.Hashes = st.Hashes[:0]
	for x := range seen {
		st.Hashes = append(st.Hashes, x)
	}
	sort.Slice(st.Hashes, func(i, j int) bool { return st.Hashes[i] < st.Hashes[j] })
	b, _ := json.Marshal(&st)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		os.Exit(3)
	}
}

// C records facts about one generated case.
type C struct {
	*rapid.T
	test string
	h    uint64
}

// Check runs a property weight times the base number of checks.
func Check(t *testing.T, weight float64, fn func(c *C)) {
	t.Helper()
	n := int(float64(base)*weight + 0.5)
	if n < 1 {
		n = 1
	}
	if err := flag.Set("rapid.checks", strconv.Itoa(n)); err != nil {
		t.Fatalf("HARNESS: %v", err)
	}
	name := t.Name()
	rapid.Check(t, func(rt *rapid.T) {
		if !deadline.IsZero() && time.Now().After(deadline) && os.Getenv("ZV_REPLAY") == "" {
			mu.Lock()
			st.Cut = true
			mu.Unlock()
			return
		}
		c := &C{T: rt, test: name}
		Guard(true)
		defer Guard(false)
		fn(c)
		mu.Lock()
		st.Evals[name]++
		mu.Unlock()
	})
}

// Fuzz is a target for coverage-guided fuzzing: fn gets a selector, a seed and bytes, and tells whether the case was non-trivial.
func Fuzz(f *testing.F, fn func(t *testing.T, sel uint16, seed uint64, b []byte) bool) {
	name := f.Name()
	f.Fuzz(func(t *testing.T, sel uint16, seed uint64, b []byte) {
		if len(b) > 1<<16 {
			return
		}
		Guard(true)
		defer Guard(false)
		nontrivial := fn(t, sel, seed, b)
		c := &C{test: name}
		if nontrivial {
			c.NonTrivial(nil, strconv.Itoa(int(sel)), b)
		}
		mu.Lock()
		st.Evals[name]++
		n := st.Evals[name]
		mu.Unlock()
		if n%1000 == 0 && os.Getenv("ZV_FUZZ") != "" && time.Since(dumped) > 5*time.Second {
			dumped = time.Now()
			dump() // a worker may be ended at any time
		}
	})
}

// Count adds evaluations outside of rapid (exhaustive enumerations).
func Count(name string, n int) {
	mu.Lock()
	st.Evals[name] += n
	mu.Unlock()
}

// Label classifies the case.
func (c *C) Label(format string, args ...any) {
	s := format
	if len(args) > 0 {
		s = fmt.Sprintf(format, args...)
	}
	mu.Lock()
	st.Labels[c.test+": "+s]++
	mu.Unlock()
}

// NonTrivial counts the case as non-trivial by the check's rule, identified by parts; sample may be nil.
func (c *C) NonTrivial(sample func() any, parts ...any) {
	f := fnv.New64a()
	f.Write([]byte(c.test))
	for _, p := range parts {
		switch x := p.(type) {
		case []byte:
			f.Write(x)
		case string:
			f.Write([]byte(x))
		default:
			fmt.Fprint(f, x)
		}
		f.Write([]byte{0})
	}
	k := f.Sum64()
	mu.Lock()
	defer mu.Unlock()
	st.NonTrivial++
	if len(seen) < 400000 {
		seen[k] = true
	}
	n := perTest[c.test]
	perTest[c.test]++
	// a spread of samples: the 3rd, 30th, 300th ... non-trivial case of each test
	if sample != nil && (n == 2 || n == 29 || n == 299) {
		if b, err := json.Marshal(map[string]any{"test": c.test, "case": sample()}); err == nil {
			st.Samples = append(st.Samples, b)
		}
	}
}

// Known prints a known finding, which the runner compares with the committed list.
func Known(id, what string) {
	mu.Lock()
	st.Known = append(st.Known, id+": "+what)
	mu.Unlock()
}
