package rt

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// record is one line a child writes to its result file.
type record struct {
	Start    *int           `json:"start,omitempty"`
	End      *int           `json:"end,omitempty"`
	Fails    []Failure      `json:"fails,omitempty"`
	Counts   map[string]int `json:"counts,omitempty"`
	Keys     []uint64       `json:"keys,omitempty"`
	Samples  []any          `json:"samples,omitempty"`
	Evals    int            `json:"evals,omitempty"`
	SigCount map[string]int `json:"sigcount,omitempty"`
	Cut      string         `json:"cut,omitempty"`
}

const maxLive = 1 << 30 // bytes of live data a child may come to before the watchdog calls it exhaustion

// Limits of one run in seconds: after soft no new case starts, after hard the
// running case is cut off with what it has observed.  After the first failure
// that is not a known finding the run goes on for grace seconds only.
type limits struct {
	soft, hard, grace time.Duration
}

func limitsOf(tier string) limits {
	l := limits{soft: 560 * time.Second, hard: 700 * time.Second, grace: 60 * time.Second}
	if tier != "quick" {
		l = limits{soft: 760 * time.Second, hard: 840 * time.Second, grace: 240 * time.Second}
	}
	if n, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil && n > 0 {
		l.soft = time.Duration(n) * time.Second
		l.hard = l.soft + l.soft/4 + 60*time.Second
	}
	if n, err := strconv.Atoi(os.Getenv("VERIF_GRACE")); err == nil {
		l.grace = time.Duration(n) * time.Second
	}
	return l
}

// exitCut is the exit code of a child that stopped before its last case, because
// of a limit or because a failure has been seen.
const exitCut = 77

// ChildMain runs the cases of one shard in this process.
func ChildMain(c *Check, tier string, seed uint64, shard, shards, from int, out, verif string, begin int64) {
	f, err := os.OpenFile(out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var wmu sync.Mutex
	emit := func(r record) {
		b, err := json.Marshal(r)
		if err != nil {
			b, _ = json.Marshal(record{End: r.End, Fails: r.Fails, Counts: r.Counts, Evals: r.Evals, Keys: r.Keys, SigCount: r.SigCount})
		}
		wmu.Lock()
		f.Write(append(b, '\n'))
		wmu.Unlock()
	}
	cases := c.Cases(tier, seed)
	stuck := c.Stuck
	if stuck == 0 {
		stuck = 120
	}
	lim := limitsOf(tier)
	started := time.Unix(0, begin)
	known := loadKnown(filepath.Join(verif, "known_findings.txt"), c.ID)
	marker := filepath.Join(filepath.Dir(out), "failed")
	var (
		cmu  sync.Mutex // guards the current case against the watchdog
		cur  *T
		idx  int
		last atomic.Int64
	)
	failed := func() bool { // an unlisted failure of this or another shard
		if _, err := os.Stat(marker); err == nil {
			return true
		}
		if cur == nil || !cur.unknown(known) {
			if !c.Races || !raceSeen(os.Getenv("VERIF_RACELOG")) {
				return false
			}
		}
		os.WriteFile(marker, nil, 0o644)
		return true
	}
	go func() {
		var since time.Time
		mem := []metrics.Sample{{Name: "/gc/heap/live:bytes"}}
		for {
			time.Sleep(200 * time.Millisecond)
			cmu.Lock()
			cut := ""
			if cur != nil && time.Since(time.Unix(0, last.Load())) > time.Duration(stuck)*time.Second {
				buf := make([]byte, 4<<20)
				n := runtime.Stack(buf, true)
				cur.Fail("stuck", "no progress for %d s; goroutines in gologix:\n%s", stuck, gologixStacks(string(buf[:n])))
				cur.flush(idx, emit)
				os.Exit(75)
			}
			if metrics.Read(mem); cur != nil && mem[0].Value.Uint64() > maxLive {
				buf := make([]byte, 4<<20)
				n := runtime.Stack(buf, true)
				cur.Fail("memory", "%d MiB of live data, where a run needs less than 200; goroutines in gologix:\n%s", mem[0].Value.Uint64()>>20, gologixStacks(string(buf[:n])))
				cur.flush(idx, emit)
				os.Exit(75)
			}
			if failed() {
				if since.IsZero() {
					since = time.Now()
				}
				if time.Since(since) >= lim.grace {
					cut = "failure seen"
				}
			}
			if time.Since(started) > lim.hard {
				cut = "time limit"
			}
			if cut != "" {
				if cur != nil {
					cur.flush(idx, emit)
				}
				emit(record{Cut: cut})
				os.Exit(exitCut)
			}
			cmu.Unlock()
		}
	}()
	for i := from; i < len(cases); i++ {
		if i%shards != shard {
			continue
		}
		if time.Since(started) > lim.soft {
			emit(record{Cut: "time limit"})
			os.Exit(exitCut)
		}
		n := i
		emit(record{Start: &n})
		t := newT(cases[i].Name, tier, seed)
		last.Store(time.Now().UnixNano())
		t.onEvent = func() { last.Store(time.Now().UnixNano()) }
		cmu.Lock()
		cur, idx = t, i
		cmu.Unlock()
		t.Guard("case", func() { cases[i].Run(t) })
		for j := len(t.cleanup) - 1; j >= 0; j-- {
			t.Guard("cleanup", t.cleanup[j])
		}
		cmu.Lock()
		if t.unknown(known) {
			os.WriteFile(marker, nil, 0o644)
		}
		cur = nil
		t.flush(i, emit)
		cmu.Unlock()
	}
	f.Close()
	os.Exit(0)
}

// unknown tells whether the case has a failure that is not a known finding.
func (t *T) unknown(k knownSet) bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	for _, f := range t.fails {
		if _, ok := k.match(f); !ok {
			return true
		}
	}
	return false
}

// raceSeen tells whether the race detector has reported gologix code.
func raceSeen(prefix string) bool {
	if prefix == "" {
		return false
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", prefix, os.Getpid()))
	return err == nil && bytes.Contains(b, []byte("danomagnum/gologix"))
}

func (t *T) flush(idx int, emit func(record)) {
	t.mu.Lock()
	defer t.mu.Unlock()
	keys := make([]uint64, 0, len(t.keys))
	for k := range t.keys {
		keys = append(keys, k)
	}
	emit(record{End: &idx, Fails: t.fails, Counts: t.counts, Keys: keys, Samples: t.samples, Evals: t.evals, SigCount: t.failSigs})
}

// RunOne runs a single case in this process and prints what it found (replay).
func RunOne(c *Check, tier string, seed uint64, name string) int {
	for _, cs := range c.Cases(tier, seed) {
		if cs.Name != name {
			continue
		}
		t := newT(cs.Name, tier, seed)
		t.Guard("case", func() { cs.Run(t) })
		for j := len(t.cleanup) - 1; j >= 0; j-- {
			t.Guard("cleanup", t.cleanup[j])
		}
		for _, f := range t.fails {
			fmt.Printf("FAIL %s: %s\n", f.Sig, f.Detail)
		}
		fmt.Printf("counts %v evals %d\n", t.counts, t.evals)
		if len(t.fails) > 0 {
			return 1
		}
		return 0
	}
	fmt.Println("no such case:", name)
	return 2
}

type result struct {
	mu      sync.Mutex
	fails   []Failure
	counts  map[string]int
	keys    map[uint64]struct{}
	samples []any
	evals   int
	sigs    map[string]int
	done    int
	races   map[string]string
	raceN   int
	errs    []string
	cut     map[string]bool
}

// ParentMain runs the check in child processes and writes the evidence file.
func ParentMain(c *Check, tier string, seed uint64, verif string, only string) int {
	if c.Exclusive {
		lock, err := os.OpenFile(filepath.Join(os.TempDir(), "verif-gologix-server.lock"), os.O_CREATE|os.O_RDWR, 0o666)
		if err == nil {
			syscall.Flock(int(lock.Fd()), syscall.LOCK_EX)
			defer lock.Close()
		}
	}
	start := time.Now()
	cases := c.Cases(tier, seed)
	work, err := os.MkdirTemp("", "vrun-"+c.ID+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(work)
	shards := c.Shards
	if shards == 0 {
		shards = 7
	}
	if c.Exclusive {
		shards = 1
	}
	if shards > len(cases) {
		shards = len(cases)
	}
	res := &result{counts: map[string]int{}, keys: map[uint64]struct{}{}, sigs: map[string]int{}, races: map[string]string{}, cut: map[string]bool{}}
	var wg sync.WaitGroup
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			runShard(c, cases, tier, seed, s, shards, work, verif, start, res)
		}()
	}
	wg.Wait()

	known := loadKnown(filepath.Join(verif, "known_findings.txt"), c.ID)
	if c.Races {
		for _, sig := range SortedKeys(res.races) {
			res.fails = append(res.fails, Failure{Case: "race", Sig: sig, Detail: res.races[sig]})
		}
	}
	sort.SliceStable(res.fails, func(i, j int) bool { return res.fails[i].Sig < res.fails[j].Sig })
	rdir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(rdir, c.ID+"-*.txt"))
	for _, o := range old {
		os.Remove(o)
	}
	seenSig := map[string]bool{}
	seenKnown := map[string]bool{}
	violations := 0
	for _, f := range res.fails {
		if k, ok := known.match(f); ok {
			if !seenKnown[k] {
				seenKnown[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k)
			}
			continue
		}
		if seenSig[f.Sig] {
			continue
		}
		seenSig[f.Sig] = true
		violations++
		if violations > 40 {
			continue
		}
		p := filepath.Join(rdir, fmt.Sprintf("%s-%d.txt", c.ID, violations))
		txt := fmt.Sprintf("property: %s\nsignature: %s\ncase: %s\ntier: %s seed: %d\nreplay: cd /verif && VERIF_SEED=%d ./check.sh %s %s '%s'\n\n%s\n",
			c.ID, f.Sig, f.Case, tier, seed, seed, c.ID, tier, f.Case, f.Detail)
		os.WriteFile(p, []byte(txt), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
		d := f.Detail
		if len(d) > 500 {
			d = d[:500] + "..."
		}
		fmt.Printf("  [%s] case=%s x%d %s\n", f.Sig, f.Case, res.sigs[f.Sig], strings.ReplaceAll(d, "\n", "\n    "))
	}
	// listed findings are named on every run, also when this run's workload did not meet them
	for _, k := range known.texts() {
		if !seenKnown[k] {
			fmt.Printf("KNOWN-FINDING: property=%s %s (not met in this run)\n", c.ID, k)
		}
	}
	bad := []string{}
	if res.evals == 0 {
		bad = append(bad, "no evaluations")
	}
	for _, e := range c.MinEvents {
		if res.counts[e] == 0 {
			bad = append(bad, "no event "+e)
		}
	}
	if res.done < len(cases) && len(res.fails) == 0 && !res.cut["time limit"] {
		bad = append(bad, fmt.Sprintf("only %d of %d cases ran", res.done, len(cases)))
	}
	wall := time.Since(start).Seconds()
	if len(res.samples) > 6 {
		// spread
		step := len(res.samples) / 6
		ss := []any{}
		for i := 0; i < len(res.samples) && len(ss) < 6; i += step {
			ss = append(ss, res.samples[i])
		}
		res.samples = ss
	}
	level := c.Level
	if level == "" {
		level = "exploration"
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": seed, "level": level,
		"coverage": map[string]any{
			"evaluations": res.evals, "distinct_nontrivial": len(res.keys), "rule": c.Rule, "samples": res.samples,
			"cases": len(cases), "cases_completed": res.done, "events": res.counts,
			"race_reports": res.raceN, "child_processes": shards, "cut_short_by": SortedKeys(res.cut),
		},
		"assumptions": c.Assumptions, "wall_s": wall, "violations": violations,
	}
	if c.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", c.ID+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s seed=%d: %d cases (%d completed), %d evaluations, %d distinct, %d race reports, %d violations, %.1fs\n",
		c.ID, tier, seed, len(cases), res.done, res.evals, len(res.keys), res.raceN, violations, wall)
	for _, k := range SortedKeys(res.counts) {
		fmt.Printf("   %s=%d", k, res.counts[k])
	}
	fmt.Println()
	if violations > 0 {
		return 1
	}
	if len(bad) > 0 {
		fmt.Println("INCONCLUSIVE:", strings.Join(bad, "; "), res.errs)
		return 2
	}
	return 0
}

func runShard(c *Check, cases []Case, tier string, seed uint64, s, shards int, work, verif string, start time.Time, res *result) {
	from := 0
	for attempt := 0; attempt < 60; attempt++ {
		out := filepath.Join(work, fmt.Sprintf("r-%d-%d.jsonl", s, attempt))
		racelog := filepath.Join(work, fmt.Sprintf("race-%d-%d", s, attempt))
		cmd := exec.Command(os.Args[0], "-prop", c.ID, "-tier", tier, "-child", "-seed", fmt.Sprint(seed),
			"-shard", fmt.Sprint(s), "-shards", fmt.Sprint(shards), "-from", fmt.Sprint(from), "-out", out,
			"-verif", verif, "-begin", fmt.Sprint(start.UnixNano()))
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+racelog, "GOTRACEBACK=all", "GOMAXPROCS=4", "VERIF_RACELOG="+racelog)
		if os.Getenv("VERIF_MEMLIMIT") == "" {
			cmd.Env = append(cmd.Env, "GOMEMLIMIT=3GiB")
		}
		var stderr, stdout bytes.Buffer
		cmd.Stderr = &limitWriter{b: &stderr, n: 1 << 20}
		cmd.Stdout = &limitWriter{b: &stdout, n: 1 << 20}
		err := cmd.Run()
		last, lastEnded, cut := -1, -1, false
		if f, e := os.Open(out); e == nil {
			sc := bufio.NewScanner(f)
			sc.Buffer(make([]byte, 1<<20), 1<<28)
			for sc.Scan() {
				var r record
				if json.Unmarshal(sc.Bytes(), &r) != nil {
					continue
				}
				if r.Start != nil {
					last = *r.Start
				}
				if r.Cut != "" {
					cut = true
					res.mu.Lock()
					res.cut[r.Cut] = true
					res.mu.Unlock()
				}
				if r.End != nil {
					lastEnded = *r.End
					res.mu.Lock()
					res.done++
					res.evals += r.Evals
					res.fails = append(res.fails, r.Fails...)
					for k, v := range r.Counts {
						res.counts[k] += v
					}
					for k, v := range r.SigCount {
						res.sigs[k] += v
					}
					for _, k := range r.Keys {
						res.keys[k] = struct{}{}
					}
					if len(res.samples) < 200 {
						res.samples = append(res.samples, r.Samples...)
					}
					res.mu.Unlock()
				}
			}
			f.Close()
		}
		collectRaces(racelog, res)
		if err == nil || cut {
			return
		}
		// the child died: attribute it to the case that was running
		name := "?"
		if last >= 0 && last < len(cases) {
			name = cases[last].Name
		}
		if last != lastEnded || last < 0 {
			sig, detail := crashSig(stderr.String(), err)
			res.mu.Lock()
			if last < 0 {
				res.errs = append(res.errs, "child failed before its first case: "+detail)
				res.mu.Unlock()
				return
			}
			res.fails = append(res.fails, Failure{Case: name, Sig: sig, Detail: detail})
			res.sigs[sig]++
			res.mu.Unlock()
			if _, ok := loadKnown(filepath.Join(verif, "known_findings.txt"), c.ID).match(Failure{Sig: sig}); !ok {
				os.WriteFile(filepath.Join(work, "failed"), nil, 0o644)
			}
		}
		from = last + 1
		if time.Since(start) > limitsOf(tier).soft {
			res.mu.Lock()
			res.cut["time limit"] = true
			res.mu.Unlock()
			return
		}
	}
}

type limitWriter struct {
	b *bytes.Buffer
	n int
}

func (w *limitWriter) Write(p []byte) (int, error) {
	if w.b.Len() < w.n {
		w.b.Write(p)
	}
	return len(p), nil
}

var frameRe = regexp.MustCompile(`github\.com/danomagnum/gologix(?:/\w+)?\.([^\s(]*(?:\([^)]*\))?[^\s(]*)`)

func cleanFunc(s string) string {
	s = strings.TrimPrefix(s, "github.com/danomagnum/gologix.")
	s = regexp.MustCompile(`\.func\d+(\.\d+)*`).ReplaceAllString(s, "")
	s = regexp.MustCompile(`\[[^\]]*\]`).ReplaceAllString(s, "")
	return s
}

func crashSig(stderr string, err error) (string, string) {
	i := strings.Index(stderr, "panic: ")
	if j := strings.Index(stderr, "fatal error: "); i < 0 || (j >= 0 && j < i) {
		i = j
	}
	if i < 0 {
		return "crash:exit", fmt.Sprintf("%v\n%s", err, tail(stderr, 1500))
	}
	s := stderr[i:]
	fn := "?"
	if m := frameRe.FindStringSubmatch(s); m != nil {
		fn = cleanFunc(m[1])
	}
	if len(s) > 1800 {
		s = s[:1800]
	}
	return "crash:" + fn, s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func collectRaces(prefix string, res *result) {
	files, _ := filepath.Glob(prefix + ".*")
	for _, fn := range files {
		b, err := os.ReadFile(fn)
		if err != nil {
			continue
		}
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			res.mu.Lock()
			res.raceN++
			if strings.Contains(blk, "danomagnum/gologix") {
				sig := raceSig(blk)
				if _, ok := res.races[sig]; !ok {
					res.races[sig] = strings.TrimSpace(blk)
				}
				res.sigs[sig]++
			} else {
				res.errs = append(res.errs, "race in harness: "+blk)
			}
			res.mu.Unlock()
		}
	}
}

// raceSig names a race by the innermost gologix function of both accesses.
func raceSig(blk string) string {
	parts := regexp.MustCompile(`(?m)^(?:Read at|Write at|Previous read at|Previous write at|Goroutine \d+).*$`).Split(blk, -1)
	fns := []string{}
	for _, p := range parts[1:] {
		if len(fns) == 2 {
			break
		}
		fn := "-"
		for _, l := range strings.Split(p, "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "github.com/danomagnum/gologix") {
				fn = cleanFunc(strings.TrimSuffix(l, "()"))
				break
			}
		}
		fns = append(fns, fn)
	}
	sort.Strings(fns)
	return "race:" + strings.Join(fns, "|")
}

type knownSet struct {
	sigs map[string]string // signature (or prefix with *) -> text
	list []string
}

// known_findings.txt lines:  finding: property=<id> sig=<signature> <what fails>
func loadKnown(path, id string) knownSet {
	k := knownSet{sigs: map[string]string{}}
	b, err := os.ReadFile(path)
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(strings.TrimSpace(l), " ", 4)
		if len(f) == 4 && f[0] == "finding:" && f[1] == "property="+id && strings.HasPrefix(f[2], "sig=") {
			txt := "[" + f[2][4:] + "] " + f[3]
			k.sigs[f[2][4:]] = txt
			k.list = append(k.list, txt)
		}
	}
	return k
}
func (k knownSet) texts() []string { return k.list }
func (k knownSet) match(f Failure) (string, bool) {
	t, ok := k.sigs[f.Sig]
	return t, ok
}
