// Package kit is the runner shared by all checks: it counts what was explored,
// turns failures and panics into replayable VIOLATION reports, matches known
// findings, watches for non-termination, and writes the evidence file.
package kit

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

// Run is one execution of one check.
type Run struct {
	ID    string
	Level string
	Tier  string
	Seed  int64
	Rule  string

	Root     string // /verif
	start    time.Time
	deadline time.Duration

	states      hashSet // distinct states
	distinct    hashSet // distinct non-trivial cases
	evals       atomic.Int64
	transitions atomic.Int64
	traces      atomic.Int64

	mu          sync.Mutex
	samples     []any
	counters    map[string]int64
	outcomes    map[string]int64
	assumptions []string
	known       map[string]string // key -> description
	knownHit    map[string]bool
	violations  int
	capped      bool

	active sync.Map // worker id -> *activeCase
}

type activeCase struct {
	start time.Time
	desc  func() any
}

// ballast is never touched. It makes garbage collections rarer.
var ballast []byte

// Start prepares a run.
func Start(id, level, rule string) *Run {
	r := &Run{ID: id, Level: level, Rule: rule, start: wallNow(), counters: map[string]int64{}, outcomes: map[string]int64{}, known: map[string]string{}, knownHit: map[string]bool{}}
	r.Tier = os.Getenv("VERIF_TIER")
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	r.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r.Root = os.Getenv("VERIF_ROOT")
	if r.Root == "" {
		r.Root = "/verif"
	}
	r.deadline = 420 * time.Second
	if r.Tier == "thorough" {
		r.deadline = 3 * time.Hour
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_DEADLINE_S")); err == nil {
		r.deadline = time.Duration(v) * time.Second
	}
	r.loadKnown()
	ballast = make([]byte, 1<<29)
	go r.watchdog()
	return r
}

func (r *Run) Quick() bool { return r.Tier == "quick" }

// Pick returns q in the quick tier and t in the thorough tier.
func Pick[T any](r *Run, q, t T) T {
	if r.Quick() {
		return q
	}
	return t
}

func (r *Run) loadKnown() {
	f, err := os.Open(filepath.Join(r.Root, "known_findings.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<22)
	for sc.Scan() {
		var e struct {
			Kind, Property, Key, What string
		}
		if json.Unmarshal(sc.Bytes(), &e) == nil && e.Kind == "known" && e.Property == r.ID {
			r.known[e.Key] = e.What
		}
	}
}

// Expired reports whether the internal exploration deadline has passed; the
// caller then stops exploring and the evidence says exhaustive:false.
func (r *Run) Expired() bool {
	if wallNow().Sub(r.start) > r.deadline {
		r.mu.Lock()
		r.capped = true
		r.mu.Unlock()
		return true
	}
	return false
}

func (r *Run) Eval()               { r.evals.Add(1) }
func (r *Run) Evals(n int64)       { r.evals.Add(n) }
func (r *Run) Transition()         { r.transitions.Add(1) }
func (r *Run) Transitions(n int64) { r.transitions.Add(n) }
func (r *Run) Trace()              { r.traces.Add(1) }

func hashStr(s string) [2]uint64 {
	h := fnv.New128a()
	h.Write([]byte(s))
	b := h.Sum(nil)
	var o [2]uint64
	for i := 0; i < 8; i++ {
		o[0] = o[0]<<8 | uint64(b[i])
		o[1] = o[1]<<8 | uint64(b[8+i])
	}
	return o
}

// hashSet is a sharded set of 128-bit hashes. Beyond maxSet elements it stops
// growing and its size is a lower bound.
type hashSet struct {
	n      atomic.Int64
	shards [64]struct {
		mu sync.Mutex
		m  map[[2]uint64]struct{}
	}
}

const maxSet = 80_000_000

func (s *hashSet) add(h [2]uint64) bool {
	sh := &s.shards[h[0]&63]
	sh.mu.Lock()
	defer sh.mu.Unlock()
	if _, ok := sh.m[h]; ok {
		return false
	}
	if s.n.Load() >= maxSet {
		return true
	}
	if sh.m == nil {
		sh.m = map[[2]uint64]struct{}{}
	}
	sh.m[h] = struct{}{}
	s.n.Add(1)
	return true
}

// State records a visited state; it returns true if it is new.
func (r *Run) State(s string) bool { return r.states.add(hashStr(s)) }

// Distinct records a distinct non-trivial case.
func (r *Run) Distinct(s string) bool { return r.distinct.add(hashStr(s)) }

// Outcome counts how often an observable outcome was seen.
func (r *Run) Outcome(s string) {
	r.mu.Lock()
	r.outcomes[s]++
	r.mu.Unlock()
}

func (r *Run) Count(k string, n int64) {
	r.mu.Lock()
	r.counters[k] += n
	r.mu.Unlock()
}

func (r *Run) Assume(s string) { r.assumptions = append(r.assumptions, s) }

func (r *Run) Sample(v any) {
	r.mu.Lock()
	if len(r.samples) < 8 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

// violation is the panic value used by Fail.
type violation struct {
	what string
	key  string
}

// Failf aborts the current case with a violation.
func Failf(format string, a ...any) { panic(violation{what: fmt.Sprintf(format, a...)}) }

// FailKey aborts the current case with a violation that may be listed as a
// known finding under key.
func FailKey(key, format string, a ...any) {
	panic(violation{what: fmt.Sprintf(format, a...), key: key})
}

// Check fails the case unless ok.
func Check(ok bool, format string, a ...any) {
	if !ok {
		Failf(format, a...)
	}
}

// NoErr fails the case on an error.
func NoErr(err error, format string, a ...any) {
	if err != nil {
		Failf("%s: unexpected error: %v", fmt.Sprintf(format, a...), err)
	}
}

type bubblePanic struct {
	e     any
	stack string
}

// Bubble runs f with a fake clock that starts at 2000-01-01. A violation or
// panic in f is passed on to the caller.
func Bubble(t *testing.T, f func()) {
	var failed any
	defer func() {
		// A failure may leave goroutines behind, which is then not the point.
		if e := recover(); e != nil {
			if failed != nil {
				e = failed
			}
			panic(e)
		}
	}()
	synctest.Test(t, func(*testing.T) {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(violation); ok {
					failed = e
				} else {
					failed = bubblePanic{e, string(debug.Stack())}
				}
			}
		}()
		f()
	})
	if failed != nil {
		panic(failed)
	}
}

var caseID atomic.Int64

// Try runs one case. desc describes it well enough to replay it.
func (r *Run) Try(desc func() any, f func()) {
	id := caseID.Add(1)
	r.active.Store(id, &activeCase{start: wallNow(), desc: desc})
	defer r.active.Delete(id)
	if v, stack := protect(f); v != nil {
		r.handle(v, stack, desc, f)
	}
}

func protect(f func()) (v *violation, stack string) {
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(violation); ok {
				v = &x
				return
			}
			if x, ok := e.(bubblePanic); ok {
				stack = x.stack
				v = &violation{what: fmt.Sprintf("panic: %v", x.e)}
				return
			}
			stack = string(debug.Stack())
			v = &violation{what: fmt.Sprintf("panic: %v", e)}
		}
	}()
	f()
	return nil, ""
}

func (r *Run) handle(v *violation, stack string, desc func() any, f func()) {
	if v.key != "" {
		if what, ok := r.known[v.key]; ok {
			r.mu.Lock()
			if !r.knownHit[v.key] {
				r.knownHit[v.key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", r.ID, what, v.key)
			}
			r.mu.Unlock()
			r.Count("known_finding_hits", 1)
			return
		}
	}
	// Re-run the case to see that it fails the same way every time.
	d := desc()
	again := 0
	for i := 0; i < 4; i++ {
		if w, _ := protect(f); w != nil {
			again++
		}
	}
	r.mu.Lock()
	r.violations++
	r.report(v.what, v.key, stack, d, fmt.Sprintf("%d/4", again))
	os.Exit(1)
}

func (r *Run) report(what, key, stack string, d any, again string) {
	dir := filepath.Join(r.Root, "out")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, "violation-"+r.ID+".json")
	b, err := json.MarshalIndent(map[string]any{"property": r.ID, "tier": r.Tier, "what": what, "key": key, "case": d, "reproduced": again, "stack": stack}, "", " ")
	if err != nil {
		b = []byte(fmt.Sprintf("%q", fmt.Sprintf("%s case=%+v stack=%s", what, d, stack)))
	}
	os.WriteFile(path, b, 0o644)
	fmt.Printf("%s: %s\n", r.ID, what)
	if key != "" {
		fmt.Printf("key: %s\n", key)
	}
	if c, err := json.Marshal(d); err == nil {
		if len(c) > 3000 {
			c = append(c[:3000], "..."...)
		}
		fmt.Printf("case: %s\n", c)
	}
	if stack != "" {
		fmt.Println(stack)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, path)
	r.evidence()
}

// Parallel runs f(0..n-1) over all cores.
func (r *Run) Parallel(n int, f func(i int)) {
	w := runtime.NumCPU()
	if w > 8 {
		w = 8
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || r.Expired() {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// watchdog reports a case that never ends or memory that grows without bound:
// both are violations (no case comes within orders of magnitude of the limits).
func (r *Run) watchdog() {
	for {
		wallSleep(200 * time.Millisecond)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		mem, full := ms.HeapAlloc > 12<<30, ms.HeapAlloc > 20<<30
		r.active.Range(func(k, a any) bool {
			c := a.(*activeCase)
			age := wallNow().Sub(c.start)
			slow := age > 200*time.Second
			mem := mem && (full || age > 2*time.Second)
			if slow || mem {
				r.mu.Lock()
				r.violations++
				what := "case does not terminate (running for over 200 s)"
				if mem {
					what = "memory grows without bound"
				}
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				r.report(what, "", string(buf), c.desc(), "n/a")
				os.Exit(1)
			}
			return true
		})
	}
}

func (r *Run) evidence() {
	cov := map[string]any{
		"exhaustive": !r.capped && r.violations == 0,
		"rule":       r.Rule,
	}
	for k, v := range r.counters {
		cov[k] = v
	}
	if len(r.outcomes) > 0 {
		cov["outcomes"] = r.outcomes
	}
	if r.samples == nil {
		r.samples = []any{}
	}
	cov["samples"] = r.samples
	if r.Level == "model_checking" {
		cov["states"] = r.states.n.Load()
		cov["transitions"] = r.transitions.Load()
		cov["traces_validated_against_impl"] = r.traces.Load()
		if r.evals.Load() > 0 {
			cov["evaluations"] = r.evals.Load()
		}
	} else {
		cov["evaluations"] = r.evals.Load()
		cov["distinct_nontrivial"] = r.distinct.n.Load()
		if r.states.n.Load() > 0 {
			cov["states"] = r.states.n.Load()
		}
		if r.transitions.Load() > 0 {
			cov["transitions"] = r.transitions.Load()
		}
	}
	hits := []string{}
	for k := range r.knownHit {
		hits = append(hits, k)
	}
	cov["known_findings_hit"] = hits
	ev := map[string]any{
		"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": r.Level, "coverage": cov,
		"assumptions": append([]string{}, r.assumptions...), "wall_s": wallNow().Sub(r.start).Seconds(), "violations": r.violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		os.Exit(3)
	}
	dir := filepath.Join(r.Root, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, r.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
		os.Exit(3)
	}
}

// Finish writes the evidence of a run without violations.
func (r *Run) Finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evidence()
	fmt.Printf("%s %s ok: states=%d transitions=%d traces=%d evaluations=%d distinct=%d capped=%v wall=%.1fs\n", r.ID, r.Tier,
		r.states.n.Load(), r.transitions.Load(), r.traces.Load(), r.evals.Load(), r.distinct.n.Load(), r.capped, wallNow().Sub(r.start).Seconds())
	keys := []string{}
	for k := range r.outcomes {
		keys = append(keys, k)
	}
	if len(keys) > 0 {
		o, _ := json.Marshal(r.outcomes)
		fmt.Println("outcomes:", strings.TrimSpace(string(o)))
	}
}
