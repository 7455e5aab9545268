// C15: a crash at any point leaves a consistent, resumable log.
package c15

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"testing"
	"time"

	"katiemc/kit"
	"katiemc/ldb"
	"katiemc/sim"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

type step struct {
	Batch   sim.Batch
	Auditor string `json:",omitempty"` // store an auditor's head instead
}

func (s step) String() string { return fmt.Sprintf("%v%s", s.Batch, s.Auditor) }

type files = map[string][]byte

// point is a consistent state: what the log must hold.
type point struct {
	led     *sim.Ledger
	auditor string
}

type env struct {
	r    *kit.Run
	dir  string
	n    int
	name string
}

func (e *env) open(f files) (db.TransparencyStore, string) {
	e.n++
	dir := filepath.Join(e.dir, fmt.Sprint(e.n))
	kit.NoErr(ldb.Write(dir, f), "writing the database files")
	s, err := ldb.Open(dir)
	kit.NoErr(err, "opening the database")
	return s, dir
}

func (e *env) close(s db.TransparencyStore, dir string) {
	ldb.Close(s)
	os.RemoveAll(dir)
}

// do performs a step on an open store.
func do(s db.TransparencyStore, p *point, st step) {
	if st.Auditor != "" {
		if len(p.led.Times) == 0 {
			return // there is nothing to audit yet
		}
		kit.NoErr(s.PutAuditorTreeHead([]byte(st.Auditor)), "storing an auditor's head")
		kit.NoErr(s.Commit(), "committing an auditor's head")
		p.auditor = st.Auditor
		return
	}
	tree, err := transparency.NewTree(p.led.Config, s, nil)
	kit.NoErr(err, "opening the log")
	// With a window of zero every entry is distinguished, with a huge one none
	// is, so that the clock decides nothing.
	why := p.led.Refuses(st.Batch, uint64(time.Now().UnixMilli()))
	add, remove, _ := p.led.Inputs(st.Batch)
	au, err := tree.Mutate(add, remove)
	if why != "" {
		kit.Check(err != nil, "%v was accepted, but %s", st.Batch, why)
		return
	}
	kit.NoErr(err, "%v", st.Batch)
	p.led.Accept(st.Batch, au.Timestamp, au)
}

func (p *point) copy() *point { return &point{p.led.Copy(), p.auditor} }

func (p *point) check(s db.TransparencyStore) {
	p.led.Check(s, "A", "B")
	if len(p.led.Times) > 0 {
		_, a, err := s.GetTreeHead()
		kit.NoErr(err, "reading the tree head")
		kit.Check(string(a) == p.auditor, "the stored auditor's head is %q, want %q", a, p.auditor)
	}
}

// which says whether the store is at one of the two points.
func which(s db.TransparencyStore, before, after *point) *point {
	t, err := transparency.NewTree(before.led.Config, s, nil)
	kit.NoErr(err, "opening the log after the crash")
	_, a, err := s.GetTreeHead()
	kit.NoErr(err, "reading the tree head")
	n := 0
	if t.TreeHead() != nil {
		n = int(t.TreeHead().TreeSize)
	}
	if n == len(after.led.Times) && (string(a) == after.auditor || n == 0) {
		return after
	}
	return before
}

// crash performs the step and stops at every point of it; from each, the log
// goes on with the next steps, and again every point of the first of them is
// a crash if depth allows.
func (e *env) crash(f files, before *point, steps []step, depth int, path string) {
	if len(steps) == 0 || e.r.Expired() {
		return
	}
	s, dir := e.open(f)
	base, err := ldb.Files(dir)
	kit.NoErr(err, "reading the database files")
	after := before.copy()
	do(s, after, steps[0])
	end, err := ldb.Files(dir)
	kit.NoErr(err, "reading the database files")
	want := ldb.Dump(s)
	e.close(s, dir)
	states, ok := ldb.Crashes(base, end)
	if !ok {
		e.r.Outcome("not only appends")
		states = []files{base, end}
	}
	e.r.Count("crash points", int64(len(states)))
	seen := map[string]bool{}
	for i, st := range states {
		e.r.Transition()
		s, dir := e.open(st)
		d := ldb.Dump(s)
		if i == len(states)-1 {
			kit.Check(d == want, "after step %v reported success and the process stopped, the database is not what it was", steps[0])
		}
		if seen[d] {
			e.close(s, dir)
			continue
		}
		seen[d] = true
		e.r.State(path + steps[0].String() + "|" + d)
		p := which(s, before, after)
		if p == after {
			e.r.Outcome("crash leaves the log after")
		} else {
			e.r.Outcome("crash leaves the log before")
		}
		p = p.copy()
		p.check(s)
		if i == len(states)-1 {
			kit.Check(len(p.led.Times) == len(after.led.Times), "step %v reported success and was lost in a crash", steps[0])
		}
		// Go on without a crash.
		q := p.copy()
		for _, x := range steps[1:] {
			do(s, q, x)
		}
		q.check(s)
		ff, err := ldb.Files(dir)
		kit.NoErr(err, "reading the database files")
		e.close(s, dir)
		s, dir = e.open(ff)
		q.check(s)
		e.close(s, dir)
		// Go on and crash again.
		if depth > 1 {
			e.crash(st, p, steps[1:], depth-1, path+steps[0].String()+fmt.Sprintf("!%d", i))
		}
	}
}

func explore(r *kit.Run, depth int, mode structs.DeploymentMode, window uint64, tmp string, id int, h, tail []step) {
	if r.Expired() {
		return
	}
	r.Trace()
	r.Try(func() any {
		return map[string]any{"history": h, "interrupted and then": tail, "mode": mode, "window": window}
	}, func() {
		dir := filepath.Join(tmp, fmt.Sprint(id))
		os.RemoveAll(dir)
		defer os.RemoveAll(dir)
		e := &env{r: r, dir: dir}
		kit.NoErr(os.MkdirAll(dir, 0o755), "creating a scratch directory")
		p := &point{led: sim.NewLedger(sim.Config(sim.Opts{Window: window, Mode: mode}))}
		s, d := e.open(nil)
		for _, x := range h {
			do(s, p, x)
		}
		f, err := ldb.Files(d)
		kit.NoErr(err, "reading the database files")
		e.close(s, d)
		e.crash(f, p, tail, depth, fmt.Sprint(mode, window, h))
	})
}

func TestCheck(t *testing.T) {
	r := kit.Start("C15", "fault_enumeration", "every byte prefix of what a step of each history writes to disk, as left by a stop of the process, reopened and continued, and crashed again at every byte of the next step")
	tmp, err := ldb.Scratch("c15")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(tmp)
	debug.SetGCPercent(1000) // opening the database allocates buffers of megabytes
	debug.SetMemoryLimit(8 << 30)
	a, b := sim.Item{Label: "A", Tag: "a"}, sim.Item{Label: "B", Tag: "b"}
	ops := []step{
		{Batch: sim.Batch{Add: []sim.Item{a}}},
		{Batch: sim.Batch{}},
		{Batch: sim.Batch{Add: []sim.Item{b, a, a}}},
		{Batch: sim.Batch{Remove: []string{"A"}}},
		{Batch: sim.Batch{Remove: []string{"A"}, Add: []sim.Item{a, b}}},
		{Auditor: "auditor's head 1"},
	}
	tail := []step{{Batch: sim.Batch{Add: []sim.Item{b, a}}}, {Batch: sim.Batch{Add: []sim.Item{a}}}}
	type job struct {
		mode    structs.DeploymentMode
		window  uint64
		h, tail []step
	}
	var jobs []job
	n := kit.Pick(r, 2, 3)
	for _, window := range []uint64{0, 1 << 50} {
		for k := 0; k <= n; k++ {
			tot := 1
			for range k {
				tot *= len(ops)
			}
			for i := range tot {
				var h []step
				for j, x := 0, i; j < k; j, x = j+1, x/len(ops) {
					s := ops[x%len(ops)]
					h = append(h, s)
				}
				for _, o := range ops {
					if k > 1 && r.Quick() && (window != 0 || len(h[0].Batch.Add) == 0) {
						continue
					}
					jobs = append(jobs, job{structs.ContactMonitoring, window, h, append([]step{o}, tail...)})
				}
			}
		}
	}
	// Larger logs, whose chunks and tiles have more in them.
	for _, size := range []int{3, 7, 8, 15, 16} {
		var h []step
		for i := range size {
			s := ops[i%3]
			h = append(h, s)
		}
		for _, o := range ops {
			jobs = append(jobs, job{structs.ContactMonitoring, 0, h, append([]step{o}, tail...)}, job{structs.ThirdPartyManagement, 0, h, append([]step{o}, tail...)})
		}
	}
	// Entries with many new versions, whose writes fill blocks of the journal.
	for _, size := range []int{40, kit.Pick(r, 120, 250)} {
		big := step{}
		for i := range size {
			big.Batch.Add = append(big.Batch.Add, []sim.Item{a, a, b}[i%3])
		}
		for _, h := range [][]step{nil, ops[:1], {big}} {
			for _, mode := range []structs.DeploymentMode{structs.ContactMonitoring, structs.ThirdPartyManagement} {
				jobs = append(jobs, job{mode, 0, h, append([]step{big}, tail...)}, job{mode, 0, h, append([]step{big, big}, tail...)})
			}
		}
	}
	r.Count("histories", int64(len(jobs)))
	r.Parallel(len(jobs), func(i int) {
		// Interleave large and small ones.
		j := jobs[(i*7919)%len(jobs)]
		depth := 2
		if r.Quick() && len(j.h) > 1 {
			depth = 1
		}
		explore(r, depth, j.mode, j.window, tmp, i, j.h, j.tail)
	})
	r.Assume("a stop of the process keeps a prefix of the bytes it had written; loss of power, which can lose what was not synced, is not modelled")
	r.Assume("the toy suite's symmetric signatures and VRF stand in for the real ones, which C19 and C20 cover")
	r.Finish()
}
