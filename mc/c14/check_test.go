// C14: sequencing assigns gap-free versions and is all-or-nothing.
package c14

import (
	"fmt"
	"slices"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"katiemc/kit"
	"katiemc/sim"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

type step struct {
	DT    int64
	Batch sim.Batch
}

func (s step) String() string { return fmt.Sprintf("+%dms%v", s.DT, s.Batch) }

// log is a log under test with its reference.
type log struct {
	st   db.TransparencyStore
	disk *sim.Disk // nil for the in-memory backend
	tree *transparency.Tree
	led  *sim.Ledger
}

func (l *log) store() *sim.Store { return l.st.(*sim.Store) }

func open(cfg structs.PrivateConfig, backend string) *log {
	l := &log{led: sim.NewLedger(cfg)}
	if backend == "memory" {
		l.st = memory.NewTransparencyStore()
	} else {
		l.disk = sim.NewDisk()
		l.st = l.disk.Open()
	}
	l.reopen()
	return l
}

func (l *log) reopen() {
	var err error
	l.tree, err = transparency.NewTree(l.led.Config, l.st, nil)
	kit.NoErr(err, "opening the log")
}

// mutate runs one batch and checks the decision.
func (l *log) mutate(b sim.Batch) bool {
	now := uint64(time.Now().UnixMilli())
	why := l.led.Refuses(b, now)
	add, remove, _ := l.led.Inputs(b)
	au, err := l.tree.Mutate(add, remove)
	if why != "" {
		kit.Check(err != nil, "entry %d: %v was accepted, but %s", len(l.led.Times), b, why)
		l.led.CheckHead(l.tree.TreeHead())
		return false
	}
	kit.NoErr(err, "entry %d: %v", len(l.led.Times), b)
	l.led.Accept(b, now, au)
	l.led.CheckHead(l.tree.TreeHead())
	return true
}

var all = []string{"A", "B", "Z", ""}

func (l *log) check() {
	if l.disk != nil {
		l.led.Check(l.disk.ReadOnly(), all...)
	} else {
		l.led.Check(l.st.Clone(), all...)
	}
}

var long = strings.Repeat("L", 256)

var after = sim.Batch{Add: []sim.Item{{Label: "B", Tag: "x"}, {Label: "A", Tag: "x"}, {Label: "B", Tag: "y"}}}

func bubble(t *testing.T, r *kit.Run, desc func() any, f func()) {
	if r.Expired() {
		return
	}
	synctest.Test(t, func(t *testing.T) {
		r.Trace()
		r.Try(desc, f)
	})
}

// explore runs a history; after it, one more batch must work as if refused
// batches had never been submitted.
func explore(t *testing.T, r *kit.Run, mode structs.DeploymentMode, backend string, keep bool, window uint64, h []step) {
	bubble(t, r, func() any { return map[string]any{"mode": mode, "backend": backend, "window": window, "history": h} }, func() {
		l := open(sim.Config(sim.Opts{Window: window, Mode: mode}), backend)
		refused := false
		name := fmt.Sprint(mode, backend, keep, window)
		for _, s := range h {
			time.Sleep(time.Duration(s.DT) * time.Millisecond)
			var before string
			if l.disk != nil {
				before = l.disk.Dump()
			}
			ok := l.mutate(s.Batch)
			r.Transition()
			name += s.String()
			r.State(name)
			if ok {
				r.Outcome("accepted")
			} else {
				r.Outcome("refused")
				refused = true
				kit.Check(l.disk == nil || l.disk.Dump() == before, "refused batch %v changed the committed store", s.Batch)
			}
			if !keep {
				l.reopen()
			}
		}
		l.check()
		if refused {
			time.Sleep(300 * time.Millisecond)
			l.mutate(after)
			l.check()
		}
	})
}

// faults fails each storage operation of the last batch in turn; what follows
// must be as if the batch had not been submitted.
func faults(t *testing.T, r *kit.Run, mode structs.DeploymentMode, h []step, next sim.Batch, reopen bool, twice bool) {
	done := false
	for k := 1; !done; k++ {
		if r.Expired() {
			return
		}
		bubble(t, r, func() any {
			return map[string]any{"mode": mode, "history": h, "failing operation": k, "then": next.String(), "reopen": reopen, "twice": twice}
		}, func() {
			l := open(sim.Config(sim.Opts{Window: 1000, Mode: mode}), "disk")
			for _, s := range h[:len(h)-1] {
				time.Sleep(time.Duration(s.DT) * time.Millisecond)
				l.mutate(s.Batch)
			}
			last := h[len(h)-1]
			time.Sleep(time.Duration(last.DT) * time.Millisecond)
			if l.led.Refuses(last.Batch, uint64(time.Now().UnixMilli())) != "" {
				done = true
				return
			}
			before := l.disk.Dump()
			n, hit, op := 0, false, ""
			l.store().Fault = func(o string) error {
				n++
				if n == k || twice && n == k+1 {
					hit, op = true, o
					return sim.ErrFault
				}
				return nil
			}
			add, remove, _ := l.led.Inputs(last.Batch)
			_, err := l.tree.Mutate(add, remove)
			l.store().Fault = nil
			if !hit {
				done = true
				return
			}
			r.Transition()
			r.Outcome("failed " + op)
			kit.Check(err != nil, "%v reports success although storage operation %d (%s) failed", last.Batch, k, op)
			kit.Check(l.disk.Dump() == before, "%v failed at storage operation %d (%s) and changed the committed store", last.Batch, k, op)
			l.led.CheckHead(l.tree.TreeHead())
			if reopen {
				l.reopen()
			}
			l.mutate(next)
			l.check()
			l.mutate(after)
			l.check()
			r.State(fmt.Sprint(mode, h, k, next, reopen, twice))
		})
	}
}

func TestCheck(t *testing.T) {
	r := kit.Start("C14", "model_checking", "every sequence of batches up to the depth, accepted or refused, on both kinds of backend; every failing storage operation of every short sequence's last batch followed by further batches")
	a, b := sim.Item{Label: "A", Tag: "a"}, sim.Item{Label: "B", Tag: "b"}
	batches := []sim.Batch{
		{},
		{Add: []sim.Item{a}},
		{Add: []sim.Item{a, b, {Label: "A", Tag: "c"}}},
		{Add: []sim.Item{b}},
		{Add: []sim.Item{{Label: ""}, {Label: strings.Repeat("L", 255)}}},
		{Remove: []string{"A"}},
		{Remove: []string{"A", "B", "A"}},
		{Add: []sim.Item{a, a}, Remove: []string{"A"}},
		{Add: []sim.Item{b}, Remove: []string{"A"}},
		{Add: []sim.Item{a}, Remove: []string{"Z", "B"}},
		{Add: []sim.Item{a, b, {Label: long}}, Remove: []string{"B"}},
		{Add: []sim.Item{{Label: long}, a}},
		{Add: []sim.Item{b}, Remove: []string{long}},
	}
	timings := [][]int64{{0}, {400}, {1000}, {1, 1400}, {2600, 0}}
	depth := kit.Pick(r, 3, 4)
	type job struct {
		mode    structs.DeploymentMode
		backend string
		keep    bool
		window  uint64
		h       []step
	}
	var jobs []job
	var short [][]step
	for _, tm := range timings {
		var rec func(h []step)
		rec = func(h []step) {
			if len(h) > 0 {
				for _, m := range []structs.DeploymentMode{structs.ContactMonitoring, structs.ThirdPartyManagement} {
					jobs = append(jobs, job{m, "disk", true, 1000, h}, job{m, "memory", true, 1000, h})
				}
				jobs = append(jobs, job{structs.ContactMonitoring, "disk", false, 1000, h})
				if len(h) <= kit.Pick(r, 2, 3) { // a log without distinguished entries
					jobs = append(jobs, job{structs.ContactMonitoring, "disk", true, 1 << 60, h})
				}
			}
			if len(h) == 2 {
				short = append(short, h)
			}
			if len(h) == depth {
				return
			}
			for _, x := range batches {
				rec(append(slices.Clone(h), step{tm[len(h)%len(tm)], x}))
			}
		}
		rec(nil)
	}
	// Longer histories of the batches that matter for eligibility and for
	// versions that continue.
	few := []sim.Batch{{}, batches[1], batches[2], batches[5], batches[7], batches[10]}
	n := kit.Pick(r, 5, 6)
	for _, tm := range [][]int64{{500}, {1000}, {300, 900, 100}} {
		tot := 1
		for range n {
			tot *= len(few)
		}
		for i := range tot {
			var h []step
			for j, k := 0, i; j < n; j, k = j+1, k/len(few) {
				h = append(h, step{tm[j%len(tm)], few[k%len(few)]})
			}
			jobs = append(jobs, job{structs.ContactMonitoring, "disk", true, 1000, h})
		}
	}
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		explore(t, r, j.mode, j.backend, j.keep, j.window, j.h)
	})
	r.Count("histories", int64(len(jobs)))

	large(t, r)

	// Faults.
	var fh [][]step
	for _, h := range short {
		if h[0].DT == 400 || h[0].DT == 1000 {
			fh = append(fh, h)
			fh = append(fh, append([]step{{700, batches[2]}}, h...))
		}
	}
	nexts := []sim.Batch{{}, {Add: []sim.Item{b, a}}, {Remove: []string{"A"}, Add: []sim.Item{b}}}
	r.Parallel(len(fh)*len(nexts)*4, func(i int) {
		h := fh[i/4/len(nexts)]
		faults(t, r, structs.ContactMonitoring, h, nexts[i/4%len(nexts)], i&1 == 1, i&2 == 2)
	})

	// A log whose last entry is in the future of the server's clock.
	for _, ahead := range []int64{1, 1000, 5000} {
		var disk *sim.Disk
		var led *sim.Ledger
		bubble(t, r, func() any { return "building a log" }, func() {
			l := open(sim.Config(sim.Opts{Window: 1000}), "disk")
			time.Sleep(10 * time.Second)
			l.mutate(after)
			time.Sleep(time.Duration(ahead) * time.Millisecond)
			l.mutate(batches[1])
			disk, led = l.disk, l.led
		})
		if disk == nil {
			break
		}
		for _, x := range batches {
			bubble(t, r, func() any { return map[string]any{"clock behind by": ahead, "batch": x.String()} }, func() {
				l := &log{disk: disk.Copy(), led: led.Copy()}
				l.st = l.disk.Open()
				time.Sleep(10 * time.Second)
				l.reopen()
				before := l.disk.Dump()
				kit.Check(!l.mutate(x), "a batch was accepted while the clock is behind")
				kit.Check(l.disk.Dump() == before, "a batch refused for the clock changed the committed store")
				r.Outcome("refused for the clock")
				time.Sleep(time.Duration(ahead) * time.Millisecond)
				l.mutate(x)
				l.mutate(after)
				l.check()
				r.Transition()
			})
		}
	}
	r.Assume("a storage write or commit that fails aborts the transaction; a failing read does not")
	r.Assume("the toy suite's symmetric signatures and VRF stand in for the real ones, which C19 and C20 cover")
	r.Finish()
}
