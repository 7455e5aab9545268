package c26

import (
	"bytes"
	"fmt"
	"maps"
	"slices"
	"sync"
	"testing"

	"katiemc/kit"
	"katiemc/ldb"
	"katiemc/sim"
	"katiemc/toy"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// scene is a process that shares a configuration, keys and a store, and
// everyone who deals with it.
type scene struct {
	s      *sched
	w      *sim.World
	server transit
	phones []*sim.Phone
	states [][]byte // of the auditor, by tree size
	shared bool     // one server for all requests, or one each
	store  db.TransparencyStore
}

var steps = []sim.Step{
	{DT: 1, Put: []sim.Put{{Label: "A", Count: 2}}},
	{DT: 10, Put: []sim.Put{{Label: "B", Count: 1}, {Label: "A", Count: 1}}},
	{DT: 60, Put: []sim.Put{{Label: "A", Count: 1}}},
	{DT: 10, Put: []sim.Put{{Label: "B", Count: 2}}},
}

var actions = []sim.Action{
	{Op: "search", Label: "A", Search: -1}, {Op: "search", Label: "A", Search: 0}, {Op: "search", Label: "B", Search: -1}, {Op: "search", Label: "Z", Search: -1},
	{Op: "init", Label: "A"}, {Op: "monitor"},
}

func newScene(t *testing.T, s *sched, mode structs.DeploymentMode, steps []sim.Step, backend func() db.TransparencyStore, shared bool) *scene {
	c := sim.Config(sim.Opts{Mode: mode, Window: 40, Lag: 1 << 40})
	c.Suite = suite{toy.Default, s}
	c.SignatureKey = signer{sim.ServerKey, s}
	c.VrfKey = prover{c.VrfKey.(toy.VRFKey), s}
	switch mode {
	case structs.ThirdPartyManagement:
		c.LeafPublicKey = verifier{c.LeafPublicKey, s}
	case structs.ThirdPartyAuditing:
		c.AuditorPublicKey = verifier{c.AuditorPublicKey, s}
	}
	sc := &scene{s: s, w: sim.NewWorld(c), shared: shared}
	kit.Bubble(t, func() { sc.past(mode, steps) })
	b := backend()
	kit.NoErr(sc.w.Disk.CopyTo(b), "filling a store")
	sc.store = store{b.Clone(), s}
	sc.w.RealClock = true
	return sc
}

// past is what happened before, by a clock of its own.
func (sc *scene) past(mode structs.DeploymentMode, steps []sim.Step) {
	w := sc.w
	if mode == structs.ThirdPartyAuditing {
		w.Behind = 1
	}
	// Clients with different pasts.
	ps := map[string]*sim.Phone{"": sim.NewPhone()}
	for _, st := range steps {
		kit.NoErr(w.Apply(st), "adding an entry")
		most := 6
		if w.Size() == uint64(len(steps)) { // some are up to date
			most = len(ps) + 2
		}
		for _, k := range slices.Sorted(maps.Keys(ps)) {
			for _, a := range actions {
				if len(ps) >= most || a.Label == "B" || a.Label == "Z" {
					break
				}
				p := ps[k].Copy()
				if r := sim.Do(w.Public, w.Server(w.Size()), p, a); r.Kind == "done" {
					ps[p.Dump()] = p
				}
			}
		}
	}
	for _, k := range slices.Sorted(maps.Keys(ps)) {
		sc.phones = append(sc.phones, ps[k])
	}
	if mode == structs.ThirdPartyAuditing {
		d := &sim.AuditorDisk{}
		for _, u := range w.Audit {
			sc.states = append(sc.states, d.Raw)
			a, err := auditor.NewAuditor(w.Public, sim.AuditorKey, d)
			kit.NoErr(err, "opening an auditor")
			kit.NoErr(a.Process(u), "auditing")
			_, err = a.Commit()
			kit.NoErr(err, "auditing")
		}
	}
}

func (sc *scene) serve() transit {
	t, err := transparency.NewTree(sc.w.Config, sc.store, nil)
	kit.NoErr(err, "opening the log")
	return transit{t, sc.s}
}

// job is something to do; prepare makes everything it changes anew.
type job struct {
	name    string
	prepare func() (do func(), judge func())
}

func (sc *scene) jobs() (out []job) {
	w := sc.w
	for i, ph := range sc.phones {
		for _, a := range actions {
			want := sim.Do(w.Public, sc.serve(), ph.Copy(), a)
			if want.Kind == "unable" || want.Kind == "nothing" {
				continue
			}
			kit.Check(want.Kind == "done", "%v alone: %v", a, want)
			out = append(out, job{fmt.Sprintf("%v by client %d", a, i), func() (func(), func()) {
				p := ph.Copy()
				// The client's store can be interrupted too.
				p.Fault = func(string) error { sc.s.point(coarse); return nil }
				var res sim.Result
				srv := sc.server
				do := func() {
					if !sc.shared {
						srv = sc.serve()
					}
					res = sim.Do(w.Public, srv, p, a)
				}
				return do, func() {
					kit.Check(res.Kind == "done" && res.Label == want.Label && res.Owner == want.Owner, "%v: %v, alone: %v", a, res, want)
					kit.Check(res.Answer == want.Answer, "%v: %v, alone: %v", a, res, want)
					p.Fault = nil
					sim.CheckView(w, p)
				}
			}})
		}
	}
	for i, st := range []sim.Step{{Put: []sim.Put{{Label: "A", Count: 2}, {Label: "C", Count: 1}}}, {Put: []sim.Put{{Label: "B", Count: 1}}}} {
		out = append(out, job{fmt.Sprintf("entry %d", i), func() (func(), func()) {
			f := w.Fork(w.Size())
			var err error
			return func() { err = f.Apply(st) }, func() {
				kit.NoErr(err, "adding an entry")
				for _, l := range []string{"A", "B", "C"} {
					q := sim.Query{Label: l, Version: -1}
					a, served := sim.Search(f, f.Size(), sim.NewPhone(), q)
					kit.Check(served && sim.Acceptable(a, sim.Expect(f, f.Size(), q)), "%v in the new log: %v", q, a)
				}
			}
		}})
	}
	for i := max(0, len(sc.states)-2); i < len(sc.states); i++ {
		out = append(out, job{fmt.Sprintf("audit of entry %d", i), func() (func(), func()) {
			d := &sim.AuditorDisk{Raw: bytes.Clone(sc.states[i])}
			d.Fault = func(string) error { sc.s.point(coarse); return nil }
			var head *structs.AuditorTreeHead
			var err error
			do := func() {
				var a *auditor.Auditor
				if a, err = auditor.NewAuditor(w.Public, suites.SigningPrivateKey(signer{sim.AuditorKey, sc.s}), d); err != nil {
					return
				}
				if err = a.Process(w.Audit[i]); err != nil {
					return
				}
				head, err = a.Commit()
			}
			return do, func() {
				kit.NoErr(err, "auditing entry %d", i)
				want := w.AuditorHead(uint64(i+1), w.Model().Times[i])
				kit.Check(bytes.Equal(sim.Encode(head), sim.Encode(want)), "the auditor signs %x, not %x", sim.Encode(head), sim.Encode(want))
			}
		}})
	}
	return out
}

// pair runs two jobs in all orders with up to two switches.
func pair(r *kit.Run, sc *scene, name string, a, b job, second bool) {
	if r.Expired() {
		return
	}
	try := func(coarse bool, order ...segment) []int {
		var ns []int
		r.Transition()
		r.State(fmt.Sprint(name, a.name, b.name, coarse, order))
		r.Try(func() any {
			return map[string]any{"scene": name, "jobs": []string{a.name, b.name}, "order": fmt.Sprint(coarse, order)}
		}, func() {
			sc.server = sc.serve()
			doA, judgeA := a.prepare()
			doB, judgeB := b.prepare()
			ns = sc.s.run(coarse, order, doA, doB)
			judgeA()
			judgeB()
			r.Eval()
		})
		return ns
	}
	n := try(false, segment{0, 0}, segment{1, 0})[0]
	for i := 1; i <= n; i++ {
		try(false, segment{0, i}, segment{1, 0}, segment{0, 0})
	}
	if !second {
		return
	}
	ns := try(true, segment{0, 0}, segment{1, 0})
	for i := 1; i <= ns[0]; i++ {
		for j := 1; j <= ns[1]; j++ {
			try(true, segment{0, i}, segment{1, j}, segment{0, 0}, segment{1, 0})
		}
	}
}

func TestCheck(t *testing.T) {
	r := kit.Start("C26", "model_checking", "every pair of jobs (exchanges of every client, entries, audits) x every point at which one can be interrupted (each use of a store, a key or a hash, each message in transit) and the other runs, to its end or to any of its own points; state = schedule; every pair of calls of functions that return data, in sequence and at once")
	r.Assume("the race detector reports conflicting accesses that no synchronisation orders, whatever the timing")
	r.Sample(map[string]any{"jobs": []string{"search A by client 3", "audit of entry 1"}, "order": "the first up to its 7th point, all of the second, the rest of the first"})
	calls(r)
	races(r)
	tmp, err := ldb.Scratch("c26")
	kit.NoErr(err, "making a scratch directory")
	defer remove(tmp)
	type work struct {
		sc   *scene
		name string
		a, b job
	}
	var mu sync.Mutex
	var open []db.TransparencyStore
	backends := []func() db.TransparencyStore{
		func() db.TransparencyStore { return memory.NewTransparencyStore() },
		func() db.TransparencyStore {
			mu.Lock()
			defer mu.Unlock()
			s, err := ldb.Open(fmt.Sprintf("%s/%d", tmp, len(open)))
			kit.NoErr(err, "opening a database")
			open = append(open, s)
			return s
		},
	}
	for mode := structs.ContactMonitoring; mode <= structs.ThirdPartyAuditing; mode++ {
		for k, backend := range backends {
			for _, shared := range []bool{true, false} {
				if r.Quick() && (k == 1) == shared {
					continue
				}
				for n := kit.Pick(r, 3, 2); n <= kit.Pick(r, 3, 4); n++ {
					name := fmt.Sprintf("mode %d store %d shared %v %d entries", mode, k, shared, n)
					r.Trace()
					// Each worker has its own process.
					var jobs [8][]job
					var scenes [8]*scene
					r.Parallel(8, func(i int) {
						r.Try(func() any { return name }, func() {
							scenes[i] = newScene(t, &sched{}, mode, steps[:n], backend, shared)
							jobs[i] = scenes[i].jobs()
						})
					})
					free := make(chan int, 8)
					for i := range 8 {
						free <- i
					}
					m := len(jobs[0])
					r.Count("jobs", int64(m))
					r.Parallel(m*m, func(k int) {
						i := <-free
						defer func() { free <- i }()
						kit.Check(len(jobs[i]) == m, "processes differ")
						pair(r, scenes[i], name, jobs[i][k/m], jobs[i][k%m], !r.Quick() || shared)
					})
				}
			}
		}
	}
	for _, s := range open {
		ldb.Close(s)
	}
	remove(tmp)
	r.Finish()
}
