// Package rt is the run-time of the monitors: deterministic case lists, child
// processes that contain crashes and races, failure signatures, known findings
// and the evidence file.
package rt

import (
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// Case is one monitored scenario.  The list of cases of a check depends only on
// the tier and on VERIF_SEED.
type Case struct {
	Name string
	Run  func(t *T)
}

// Check decides one property.
type Check struct {
	ID          string
	Level       string
	Rule        string // how cases are made and what makes one non-trivial
	Assumptions []string
	Cases       func(tier string, seed uint64) []Case
	// Races: a data-race report with a gologix frame violates this property.
	Races bool
	// Shards: number of child processes the cases are spread over (default 6).
	Shards int
	// Exclusive: children need the server's fixed ports, so they take a lock.
	Exclusive bool
	// MinEvents: event counters that must be non-zero for the run to count.
	MinEvents []string
	// Stuck: seconds one case may run before the watchdog calls it stuck.
	Stuck int
}

// Failure is one observed violation.
type Failure struct {
	Case   string `json:"case"`
	Sig    string `json:"sig"`
	Detail string `json:"detail"`
}

// T is handed to a running case.
type T struct {
	Case string
	Tier string
	Seed uint64
	R    *rand.Rand

	mu       sync.Mutex
	fails    []Failure
	counts   map[string]int
	keys     map[uint64]struct{}
	samples  []any
	evals    int
	failSigs map[string]int
	cleanup  []func()
	onEvent  func()
}

func hash64(ss ...string) uint64 {
	h := fnv.New64a()
	for _, s := range ss {
		h.Write([]byte(s))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// NewRand gives the PRNG of a case: it depends on the seed and the name only.
func NewRand(seed uint64, name string) *rand.Rand {
	return rand.New(rand.NewPCG(seed, hash64(name)))
}

func newT(name, tier string, seed uint64) *T {
	return &T{Case: name, Tier: tier, Seed: seed, R: NewRand(seed, name),
		counts: map[string]int{}, keys: map[uint64]struct{}{}, failSigs: map[string]int{}}
}

// Fail records a violation.  sig names what fails, without values that vary.
func (t *T) Fail(sig, format string, args ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.failSigs[sig]++
	if t.failSigs[sig] > 3 {
		return
	}
	d := fmt.Sprintf(format, args...)
	if len(d) > 2000 {
		d = d[:2000] + "..."
	}
	t.fails = append(t.fails, Failure{Case: t.Case, Sig: sig, Detail: d})
}

// Failed tells whether the case has failed so far.
func (t *T) Failed() bool { t.mu.Lock(); defer t.mu.Unlock(); return len(t.fails) > 0 }

// Eval counts one evaluation of the oracle; a non-empty key makes it non-trivial
// and distinct keys are counted once.
func (t *T) Eval(key string) {
	t.mu.Lock()
	t.evals++
	if key != "" {
		t.keys[hash64(key)] = struct{}{}
	}
	t.mu.Unlock()
	if t.onEvent != nil {
		t.onEvent()
	}
}

// Count adds to a named event counter.
func (t *T) Count(name string, n int) {
	t.mu.Lock()
	t.counts[name] += n
	t.mu.Unlock()
	if t.onEvent != nil {
		t.onEvent()
	}
}

// Sample records an actual case (a few are kept).
func (t *T) Sample(v any) {
	t.mu.Lock()
	if len(t.samples) < 2 {
		t.samples = append(t.samples, v)
	}
	t.mu.Unlock()
}

// Cleanup runs f when the case ends.
func (t *T) Cleanup(f func()) { t.mu.Lock(); t.cleanup = append(t.cleanup, f); t.mu.Unlock() }

// Guard runs f and turns a panic in it into a failure.
func (t *T) Guard(sig string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			t.Fail("panic:"+sig, "panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	f()
	return true
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	out := []string{}
	for _, l := range lines {
		if strings.Contains(l, "gologix") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Within runs f and reports whether it returned before the (generous) limit.
// When it does not, the goroutine stacks inside gologix are attached.
func (t *T) Within(d time.Duration, sig string, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		t.Guard(sig, f)
	}()
	select {
	case <-done:
		return true
	case <-time.After(d):
		buf := make([]byte, 1<<20)
		n := runtime.Stack(buf, true)
		t.Fail("hang:"+sig, "call did not return within %v; goroutines in gologix:\n%s", d, gologixStacks(string(buf[:n])))
		return false
	}
}

func gologixStacks(s string) string {
	out := []string{}
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(g, "danomagnum/gologix") {
			ls := strings.Split(g, "\n")
			if len(ls) > 14 {
				ls = ls[:14]
			}
			out = append(out, strings.Join(ls, "\n"))
		}
	}
	return strings.Join(out, "\n\n")
}

// Scratch makes a directory removed when the case ends.
func (t *T) Scratch() string {
	d, err := os.MkdirTemp("", "verif")
	if err != nil {
		panic(err)
	}
	t.Cleanup(func() { os.RemoveAll(filepath.Clean(d)) })
	return d
}

// SortedKeys is a helper for deterministic iteration.
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// TestT is a T outside a run, for trying things out.
func TestT(name, tier string, seed uint64) *T { return newT(name, tier, seed) }
