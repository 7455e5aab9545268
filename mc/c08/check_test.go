// C08: every honest search is accepted and returns the true value.
package c08

import (
	"fmt"
	"maps"
	"slices"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"katiemc/kit"
	"katiemc/sim"

	"github.com/Bren2010/katie/tree/transparency/structs"
)

type deploy struct {
	Name   string
	Opts   sim.Opts
	Start  time.Duration // before the first entry
	Behind int           // entries the auditor is behind
}

type history struct {
	Deploy deploy
	Steps  []sim.Step
}

func explore(t *testing.T, r *kit.Run, h history, carry []sim.Query, maxPhones int, view, faults bool) {
	if r.Expired() {
		return
	}
	synctest.Test(t, func(t *testing.T) {
		r.Trace()
		var at string
		r.Try(func() any {
			return map[string]any{"deployment": h.Deploy, "history": h.Steps, "at": at}
		}, func() {
			time.Sleep(h.Deploy.Start)
			w := sim.NewWorld(sim.Config(h.Deploy.Opts))
			w.Behind = h.Deploy.Behind
			phones := map[string]*sim.Phone{"": sim.NewPhone()}
			hist := h.Deploy.Name
			for i, s := range h.Steps {
				at = fmt.Sprintf("step %d", i)
				if err := w.Apply(s); err != nil && len(s.Remove) > 0 {
					r.Outcome("history ends at a refused removal")
					return // C14 decides when a removal is refused
				} else {
					kit.NoErr(err, "sequencing step %d (%v)", i, s)
				}
				hist += s.String()
				size := w.Size()
				final := i == len(h.Steps)-1
				next := map[string]*sim.Phone{}
				var work []string
				push := func(p *sim.Phone) {
					d := p.Dump()
					if _, ok := next[d]; !ok && len(next) < maxPhones {
						next[d] = p
						work = append(work, d)
					}
				}
				for _, d := range slices.Sorted(maps.Keys(phones)) {
					push(phones[d])
				}
				for len(work) > 0 {
					d := work[0]
					work = work[1:]
					p := next[d]
					r.State(hist + "|" + d)
					qs := carry
					if final {
						qs = all(w)
					}
					for _, q := range qs {
						at = fmt.Sprintf("step %d, %v from a client that knows %s", i, q, d)
						r.Transition()
						c := p.Copy()
						a, _ := sim.Search(w, size, c, q)
						want := sim.Expect(w, size, q)
						kit.Check(sim.Acceptable(a, want), "%v at size %d by a client with state %q: got %v, want %v", q, size, d, a, want)
						r.Outcome(a.Kind)
						if view {
							sim.CheckView(w, c)
						}
						push(c)
						if final && faults {
							for k := 1; ; k++ {
								at = fmt.Sprintf("step %d, %v from a client that knows %s, storage operation %d fails", i, q, d, k)
								a, served, hit := sim.SearchFaulty(w, size, p.Copy(), q, k)
								if !hit {
									break
								}
								r.Transition()
								kit.Check(!served || sim.Acceptable(a, want), "%v at size %d with storage operation %d failing: the server answered and the client got %v", q, size, k, a)
								kit.Check(served || a.Kind == "refused", "%v at size %d with storage operation %d failing is reported as %v", q, size, k, a)
								r.Outcome("storage failure reported")
							}
						}
					}
				}
				phones = next
			}
		})
	})
}

// all queries of interest at the current size.
func all(w *sim.World) []sim.Query {
	var out []sim.Query
	for _, l := range append(slices.Sorted(maps.Keys(w.Model().Labels)), "Z") {
		out = append(out, sim.Query{Label: l, Version: -1})
		n := int64(len(w.Model().Labels[l]))
		for v := int64(0); v <= n+1; v++ {
			out = append(out, sim.Query{Label: l, Version: v})
		}
		if l == "A" {
			out = append(out, sim.Query{Label: l, Version: 1<<32 - 1}, sim.Query{Label: l, Version: 1 << 31})
		}
	}
	return out
}

func TestCheck(t *testing.T) {
	r := kit.Start("C08", "model_checking", "every history of batches up to the depth x every client reachable by searching along the way x every query")
	base := time.Unix(946684800, 0).UnixMilli()
	late := 1_000_000_000_000 - base - 1500
	deploys := []deploy{
		{"plain", sim.Opts{Window: 1000}, 0, 0},
		{"lifetime", sim.Opts{Window: 1000, Lifetime: 2500}, 0, 0},
		{"undistinguished", sim.Opts{Window: 1_000_000_000_000}, time.Duration(late) * time.Millisecond, 0},
		{"managed", sim.Opts{Window: 1000, Mode: structs.ThirdPartyManagement}, 0, 0},
	}
	batches := [][]sim.Put{nil, {{Label: "A", Count: 1}}, {{Label: "A", Count: 2}}, {{Label: "B", Count: 1}}, {{Label: "A", Count: 1}, {Label: "B", Count: 1}}}
	timings := [][]int64{{0}, {400}, {1000}, {1, 1400}, {2600, 0, 0}}
	depth := kit.Pick(r, 4, 6)
	carry := []sim.Query{{Label: "A", Version: -1}, {Label: "A", Version: 0}, {Label: "B", Version: -1}}
	var hs []history
	for _, d := range deploys {
		for _, tm := range timings {
			for n := 1; n <= depth; n++ {
				tot := 1
				for range n {
					tot *= len(batches)
				}
				for i := 0; i < tot; i++ {
					steps := make([]sim.Step, n)
					for j, k := 0, i; j < n; j, k = j+1, k/len(batches) {
						steps[j] = sim.Step{DT: tm[j%len(tm)], Put: batches[k%len(batches)]}
					}
					hs = append(hs, history{d, steps})
				}
			}
		}
	}
	// Lifetimes that never end.
	for _, l := range []uint64{1<<63 - 1, 1 << 63, 1<<64 - 1} {
		d := deploy{fmt.Sprint("lifetime-", l), sim.Opts{Window: 1000, Lifetime: l}, 0, 0}
		for i := 0; i < 125; i++ {
			steps := make([]sim.Step, 3)
			for j, k := 0, i; j < 3; j, k = j+1, k/5 {
				steps[j] = sim.Step{DT: 700, Put: batches[k%5]}
			}
			hs = append(hs, history{d, steps})
		}
	}
	small := len(hs)
	// Third-party auditing, with the auditor in step and behind.
	for _, behind := range []int{0, 1, 3} {
		d := deploy{fmt.Sprintf("audited-%d", behind), sim.Opts{Window: 1000, Mode: structs.ThirdPartyAuditing, Lag: 1 << 40}, 0, behind}
		for i := 0; i < 256; i++ {
			steps := make([]sim.Step, 4)
			for j, k := 0, i; j < 4; j, k = j+1, k/4 {
				steps[j] = sim.Step{DT: 600, Put: batches[k%4]}
			}
			hs = append(hs, history{d, steps})
		}
	}
	// Removals, of the only label, of another one, and of one that comes back.
	for _, d := range deploys {
		for _, tm := range [][]int64{{1000}, {2600, 0}, {1100, 1100, 1}} {
			ops := []sim.Step{{}, {Put: []sim.Put{{Label: "A", Count: 1}}}, {Put: []sim.Put{{Label: "B", Count: 2}}}, {Remove: []string{"A"}}, {Remove: []string{"A"}, Put: []sim.Put{{Label: "A", Count: 1}, {Label: "B", Count: 1}}}}
			for i := 0; i < 625; i++ {
				steps := []sim.Step{{Put: []sim.Put{{Label: "A", Count: 1}, {Label: "B", Count: 1}}}}
				for j, k := 0, i; j < 4; j, k = j+1, k/5 {
					s := ops[k%5]
					s.DT = tm[j%len(tm)]
					steps = append(steps, s)
				}
				hs = append(hs, history{d, steps})
			}
		}
	}
	// Longer logs: updates at every choice of up to two or three entries.
	long := kit.Pick(r, 9, 14)
	counts := []int{1, 3}
	for _, d := range deploys {
		for _, tm := range timings {
			var rec func(steps []sim.Step, used int)
			rec = func(steps []sim.Step, used int) {
				if len(steps) == long {
					hs = append(hs, history{d, slices.Clone(steps)})
					return
				}
				dt := tm[len(steps)%len(tm)]
				rec(append(steps, sim.Step{DT: dt}), used)
				if used < kit.Pick(r, 2, 3) {
					for _, c := range counts {
						rec(append(steps, sim.Step{DT: dt, Put: []sim.Put{{Label: "A", Count: c}}}), used+1)
					}
				}
			}
			rec(nil, 0)
		}
	}
	// Many versions.
	for _, d := range deploys {
		for _, dt := range []int64{0, 700} {
			ks := []int{0, 1, 4, 7, 16}
			for i := 0; i < 625; i++ {
				steps := make([]sim.Step, 4)
				for j, k := 0, i; j < 4; j, k = j+1, k/5 {
					steps[j] = sim.Step{DT: dt}
					if c := ks[k%5]; c > 0 {
						steps[j].Put = []sim.Put{{Label: "A", Count: c}}
					}
				}
				hs = append(hs, history{d, steps})
			}
		}
	}
	r.Parallel(len(hs), func(i int) {
		cap := kit.Pick(r, 24, 200)
		if i >= small {
			cap = kit.Pick(r, 6, 24)
		}
		explore(t, r, hs[i], carry, cap, i < small, i < small && len(hs[i].Steps) <= 3)
	})
	large(t, r, deploys)
	// Label shapes.
	for _, l := range []string{"", "\x00", strings.Repeat("x", 255)} {
		for _, d := range deploys {
			explore(t, r, history{d, []sim.Step{{DT: 1, Put: []sim.Put{{Label: l, Count: 2}}}, {DT: 500, Put: []sim.Put{{Label: l, Count: 1}, {Label: "A", Count: 1}}}}}, append(carry, sim.Query{Label: l, Version: -1}, sim.Query{Label: l, Version: 1}), 24, true, true)
		}
	}
	r.Count("histories", int64(len(hs)))
	r.Assume("the toy suite's symmetric signatures and VRF stand in for the real ones, which C19 and C20 cover")
	r.Finish()
}
