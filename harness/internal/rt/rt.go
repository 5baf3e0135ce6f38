// Package rt runs cases of checks in child processes, watches over them and reports.
package rt

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
)

// Suite is a family of cases of a property. A case is decided by its index and the seed only.
type Suite struct {
	Name            string
	Quick, Thorough int // number of cases
	Run             func(c *C)
	Fixed           bool // cases are enumerated, not of the seed
}

type Property struct {
	ID     string
	Rule   string
	Level  string
	Race   bool // one child with the race detector
	Serial bool
	Suites []Suite
	Expect []string // counters which must not be zero
	Assume []string
}

// C is a case in run
type C struct {
	R        *rand.Rand
	Prop     string
	Suite    string
	Idx      int
	Thorough bool

	notes    []string
	counts   map[string]int64
	hashes   map[uint64]struct{}
	samples  []string
	sampling bool
	evals    int64
}

// NewC is for a process of a case's own
func NewC(seed int64) *C {
	return &C{R: rand.New(rand.NewSource(seed)), counts: map[string]int64{}, hashes: map[uint64]struct{}{}}
}

// Sub is for a goroutine of the case: what it counts is added by Join
func (c *C) Sub() *C {
	s := NewC(c.R.Int63())
	s.Prop, s.Suite, s.Idx, s.Thorough = c.Prop, c.Suite, c.Idx, c.Thorough
	return s
}

// Join adds what a Sub observed, after its goroutine
func (c *C) Join(s *C) {
	for k, n := range s.counts {
		c.counts[k] += n
	}
	c.notes = append(c.notes, s.notes...)
	c.evals += s.evals
	for h := range s.hashes {
		c.hashes[h] = struct{}{}
	}
}

// Failure is the panic of a case which found a violation
type Failure struct {
	Key    string
	Detail string
}

// Fail ends the case with a violation. Key tells violations apart.
func (c *C) Fail(key, format string, a ...interface{}) {
	panic(Failure{Key: key, Detail: fmt.Sprintf(format, a...)})
}

// Note is told if the case fails
func (c *C) Note(format string, a ...interface{}) {
	if len(c.notes) < 200 {
		c.notes = append(c.notes, fmt.Sprintf(format, a...))
	}
}

// Count counts what was observed
func (c *C) Count(name string, n int) { c.counts[name] += int64(n) }

// Eval counts an evaluation of the oracle, h tells distinct ones apart
func (c *C) Eval(h uint64) {
	c.evals++
	if len(c.hashes) < 1<<20 {
		c.hashes[h] = struct{}{}
	}
}

// Trivial counts an evaluation which is not distinct and nontrivial
func (c *C) Trivial() { c.evals++ }

// Sample is shown in the evidence
func (c *C) Sample(format string, a ...interface{}) {
	if c.sampling && len(c.samples) < 3 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.samples = append(c.samples, fmt.Sprintf("%s/%d: %s", c.Suite, c.Idx, s))
	}
}

// Told is what the case counted and evaluated
func (c *C) Told() string {
	var b strings.Builder
	for _, k := range sortedKeys(c.counts) {
		fmt.Fprintf(&b, "%s %d, ", k, c.counts[k])
	}
	var sum uint64
	for h := range c.hashes {
		sum += h*0x9e3779b97f4a7c15 ^ h>>29
	}
	fmt.Fprintf(&b, "%d of %d evaluations %x", len(c.hashes), c.evals, sum)
	return b.String()
}

func seedOf(seed int64, prop, suite string, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%d", seed, prop, suite, idx)
	return int64(h.Sum64())
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

// Allocated is the number of bytes allocated by the process so far
func Allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// run runs a case, and recovers
func run(c *C, s *Suite) (f *Failure) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if x, ok := r.(Failure); ok {
			f = &x
			return
		}
		st := string(debug.Stack())
		f = &Failure{Key: "panic " + where(st), Detail: fmt.Sprintf("panic: %v\n%s", r, st)}
	}()
	s.Run(c)
	return nil
}

// Try runs f and returns its panic, if any
func Try(f func()) (p interface{}, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(Failure); ok {
				panic(x)
			}
			p, stack = r, string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

// where is the first function of the library in a stack
func where(st string) string {
	after := false
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "panic(") {
			after = true
			continue
		}
		if after && strings.Contains(l, "goorc/") && !strings.HasPrefix(l, "\t") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return ""
}

func sortedKeys(m map[string]int64) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
