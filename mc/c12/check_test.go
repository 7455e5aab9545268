// C12: owner monitoring accounts for every version and detects foreign ones.
package c12

import (
	"fmt"
	"maps"
	"slices"
	"testing"
	"time"

	"katiemc/kit"
	"katiemc/ref"
	"katiemc/sim"

	"github.com/Bren2010/katie/tree/transparency/structs"
)

type history struct {
	Opts  sim.Opts
	Start int64 // milliseconds before the first entry
	Steps []sim.Step
	Quiet bool // clients act in the first three and the last two steps only
}

func explore(t *testing.T, r *kit.Run, h history, ops []sim.Action, max int) {
	if r.Expired() {
		return
	}
	r.Trace()
	var at string
	r.Try(func() any { return map[string]any{"history": h, "at": at} }, func() {
		kit.Bubble(t, func() {
			w := sim.NewWorld(sim.Config(h.Opts))
			hist := fmt.Sprint(h.Opts, h.Start)
			time.Sleep(time.Duration(h.Start) * time.Millisecond)
			nodes := map[string]*sim.Phone{"": sim.NewPhone()}
			for i, s := range h.Steps {
				at = fmt.Sprintf("step %d", i)
				kit.NoErr(w.Apply(s), "sequencing step %d (%v)", i, s)
				hist += s.String()
				if h.Quiet && i > 2 && i < len(h.Steps)-2 {
					continue
				}
				next := map[string]*sim.Phone{}
				var work []*sim.Phone
				push := func(ph *sim.Phone) {
					if k := ph.Dump(); next[k] == nil && len(next) < max {
						next[k] = ph
						work = append(work, ph)
					}
				}
				for _, k := range slices.Sorted(maps.Keys(nodes)) {
					push(nodes[k])
				}
				for len(work) > 0 {
					ph := work[0]
					work = work[1:]
					r.State(hist + "|" + ph.Dump())
					for _, op := range ops {
						c := ph.Copy()
						at = fmt.Sprintf("step %d, %v by a client that knows %+v", i, op, sim.OwnerState(w.Public, c, "A"))
						r.Transition()
						step(r, w, c, op)
						push(c)
					}
				}
				nodes = next
			}
		})
	})
}

// step lets a client act and checks the outcome.
func step(r *kit.Run, w *sim.World, c *sim.Phone, op sim.Action) {
	size := w.Size()
	m := w.Model()
	dist := ref.Distinguished(m.Times, w.Config.ReasonableMonitoringWindow)
	before := c.Copy()
	owned := sim.OwnerState(w.Public, c, "A")
	res := sim.Do(w.Public, w.Server(size), c, op)
	kit.Check(res.Kind != "refused" && res.Kind != "unserved", "%v at size %d (%s): %v", op, size, res.Label, res)
	r.Outcome(op.Op + " " + res.Kind)
	st := sim.State(w.Public, c)
	if res.Kind == "unable" || res.Kind == "nothing" {
		kit.Check(c.Dump() == before.Dump(), "%v came to nothing but changed what the client stored", op)
	}
	// What a client can ask for.
	seen := -1
	if b := sim.State(w.Public, before); b != nil {
		seen = ref.RightmostTrue(ref.Distinguished(w.Models[b.TreeHead.TreeSize].Times, w.Config.ReasonableMonitoringWindow))
	}
	switch op.Op {
	case "init":
		kit.Check((res.Kind == "unable") == (seen < 0 || owned != nil), "claiming the label by a client that knows of a distinguished entry %d (owner: %v): %v", seen, owned != nil, res)
	case "sync":
		kit.Check((res.Kind == "unable") == (owned == nil), "synchronising by a client (owner: %v): %v", owned != nil, res)
	case "monitor":
		kit.Check((res.Kind == "unable") == (seen < 0), "monitoring by a client that knows of a distinguished entry %d: %v", seen, res)
	}
	if st == nil {
		return
	}
	if res.Kind == "done" && !(op.Op == "sync" && res.Updates == 0) {
		kit.Check(st.TreeHead.TreeSize == size, "%v at size %d left the client at size %d", op, size, st.TreeHead.TreeSize)
	}
	sim.CheckOwner(w, c, "A")
	o := sim.OwnerState(w.Public, c, "A")
	kit.Check(owned == nil || o != nil && o.Starting >= owned.Starting && sim.OwnerGreatest(o) >= sim.OwnerGreatest(owned), "%v moved the owner back from %+v to %+v", op, owned, o)
	switch {
	case op.Op == "init" && res.Kind == "done":
		kit.Check(o != nil && int(o.Starting) == seen, "the owner starts at %+v, not at entry %d", o, seen)
	case op.Op == "sync" && res.Kind == "done":
		kit.Check(sim.OwnerGreatest(o) == len(m.Labels["A"])-1, "after synchronising at size %d the owner knows of %+v, the log has %v", size, o, m.Labels["A"])
	case op.Op == "monitor" && o != nil && res.Kind != "unable":
		// Monitoring again and again gets as far as the owner's knowledge.
		dle := seen
		if res.Kind == "done" {
			dle = ref.RightmostTrue(dist)
		}
		known := sim.OwnerGreatest(o)
		goal := dle
		if known+1 < len(w.Models[st.TreeHead.TreeSize].Labels["A"]) {
			stale := w.Models[st.TreeHead.TreeSize].Labels["A"][known+1].Pos
			for goal >= 0 && (uint64(goal) >= stale || !dist[goal]) {
				goal--
			}
		}
		goal = max(goal, int(o.Starting))
		d := c.Copy()
		for k := 0; res.Kind == "done"; k++ {
			was := sim.OwnerState(w.Public, d, "A")
			again := sim.Do(w.Public, w.Server(size), d, op)
			r.Transition()
			kit.Check(again.Kind == "done" || again.Kind == "nothing", "monitoring again at size %d: %v", size, again)
			sim.CheckOwner(w, d, "A")
			is := sim.OwnerState(w.Public, d, "A")
			kit.Check(is != nil && is.Starting >= was.Starting && sim.OwnerGreatest(is) == known, "monitoring again at size %d turned %+v into %+v", size, was, is)
			if again.Kind == "nothing" || again.Label == "A" && is.Starting == was.Starting {
				kit.Check(again.Kind == "nothing" || goal < dle, "monitoring is recommended again and again at size %d, the owner is at %+v", size, is)
				break
			}
			kit.Check(k <= int(size)+1, "monitoring does not come to an end at size %d", size)
		}
		is := sim.OwnerState(w.Public, d, "A")
		kit.Check(int(is.Starting) == goal, "monitoring at size %d got the owner to entry %d, not %d (%v, distinguished: %v)", size, is.Starting, goal, m.Labels["A"], dist)
		if ls := sim.LabelState(w.Public, d, "A"); goal == dle {
			for _, e := range ls.Contact {
				kit.Check(e.Position > uint64(max(dle, 0)) || dle < 0, "%v is still monitored, but entry %d is distinguished", e, dle)
			}
		}
	}
}

func TestCheck(t *testing.T) {
	r := kit.Start("C12", "model_checking", "every history of batches up to the depth x every client reachable by looking the label up, claiming it, synchronising and monitoring along the way")
	ops := []sim.Action{{Op: "search", Label: "A", Search: -1}, {Op: "init", Label: "A"}, {Op: "monitor"}, {Op: "sync", Label: "A"}}
	batches := [][]sim.Put{nil, {{Label: "A", Count: 1}}, {{Label: "A", Count: 2}}, {{Label: "B", Count: 1}}}
	timings := [][]int64{{300}, {0, 400}, {100, 100, 900}, {1000}}
	var hs, big []history
	for _, o := range []sim.Opts{{Window: 1000}, {Window: 1000, Mode: structs.ThirdPartyManagement}, {Window: 1000, Mode: structs.ThirdPartyAuditing, Lag: 100000}} {
		for _, tm := range timings {
			if o.Mode != 0 && tm[0] != 300 {
				continue
			}
			depth := kit.Pick(r, 4, 6)
			if tm[0] == 300 && o.Mode == 0 {
				depth++
			}
			tot := 1
			for range depth {
				tot *= len(batches)
			}
			for i := 0; i < tot; i++ {
				steps := make([]sim.Step, depth)
				for j, k := 0, i; j < depth; j, k = j+1, k/len(batches) {
					steps[j] = sim.Step{DT: tm[j%len(tm)], Put: batches[k%len(batches)]}
				}
				hs = append(hs, history{o, 0, steps, false})
			}
		}
	}
	// Longer logs with up to two updates, and no distinguished entry before some
	// point, or only distinguished entries.
	long := kit.Pick(r, 9, 13)
	base := time.Unix(946684800, 0).UnixMilli()
	const late = 1_000_000_000_000
	rec := func(length, updates int, tm []int64, counts []int, f func(steps []sim.Step)) {
		var rec func(steps []sim.Step, used int)
		rec = func(steps []sim.Step, used int) {
			if len(steps) == length {
				f(slices.Clone(steps))
				return
			}
			dt := tm[len(steps)%len(tm)]
			rec(append(steps, sim.Step{DT: dt}), used)
			if used < updates {
				for _, c := range counts {
					rec(append(steps, sim.Step{DT: dt, Put: []sim.Put{{Label: "A", Count: c}}}), used+1)
				}
			}
		}
		rec(nil, 0)
	}
	for _, tm := range timings {
		rec(long, 2, tm, []int{1}, func(steps []sim.Step) { hs = append(hs, history{sim.Opts{Window: 1000}, 0, steps, false}) })
	}
	for _, k := range []int{5, 7} {
		rec(long, 2, []int64{300}, []int{1, 2}, func(steps []sim.Step) {
			hs = append(hs, history{sim.Opts{Window: late}, late - base - int64(k)*300, steps, false})
		})
	}
	// More distinguished entries than one response covers.
	rec(34, 2, []int64{10}, []int{1, 2}, func(steps []sim.Step) {
		for _, s := range steps[3:30] {
			if len(s.Put) > 0 {
				return
			}
		}
		hs = append(hs, history{sim.Opts{Window: 1}, 0, steps, true})
	})
	// Much longer ones, with few of the clients.
	for _, every := range []int{1, 3, 16, 40} {
		for _, count := range []int{1, 5} {
			var steps []sim.Step
			for i := range kit.Pick(r, 140, 270) {
				s := sim.Step{DT: 300}
				if i%every == 0 {
					s.Put = []sim.Put{{Label: "A", Count: count}}
				}
				steps = append(steps, s)
			}
			for _, quiet := range []bool{false, true} {
				for _, win := range []uint64{1, 1000, 7000} {
					big = append(big, history{sim.Opts{Window: win}, 0, steps, quiet})
				}
				for _, k := range []int64{1, 64, 129} {
					big = append(big, history{sim.Opts{Window: late}, late - base - k*300, steps, quiet})
				}
			}
		}
	}
	r.Count("long histories", int64(len(big)))
	r.Parallel(len(big), func(i int) { explore(t, r, big[i], ops, kit.Pick(r, 6, 24)) })
	r.Count("histories", int64(len(hs)))
	r.Parallel(len(hs), func(i int) { explore(t, r, hs[i], ops, kit.Pick(r, 40, 400)) })

	// Lying operators.
	type liecase struct {
		o     sim.Opts
		start int64
		dts   []int64
		n     uint64
		l     *lie
	}
	var ls []liecase
	add := func(o sim.Opts, start int64, dts []int64, n uint64) {
		us := [][]uint64{{}}
		for a := uint64(0); a < n; a++ {
			us = append(us, []uint64{a})
			for b := a; b < n; b++ {
				us = append(us, []uint64{a, b})
			}
		}
		for _, u := range us {
			ls = append(ls, liecase{o, start, dts, n, &lie{Updates: u, From: 1, Kind: "none"}})
			for v := 0; v <= len(u); v++ {
				first := uint64(0)
				if v < len(u) {
					first = u[v]
				}
				for from := uint64(0); from < n; from++ {
					for to := from; to < n; to++ {
						if v < len(u) && from >= first {
							ls = append(ls, liecase{o, start, dts, n, &lie{u, uint32(v), from, to, "hide"}})
							ls = append(ls, liecase{o, start, dts, n, &lie{u, uint32(v), from, to, "swap"}})
						}
						if v == len(u) || from < first && to <= first {
							ls = append(ls, liecase{o, start, dts, n, &lie{u, uint32(v), from, to, "foreign"}})
							if v < len(u) {
								ls = append(ls, liecase{o, start, dts, n, &lie{u, uint32(v), from, to, "early"}})
							}
						}
					}
				}
			}
		}
	}
	add(sim.Opts{Window: 1000}, 0, []int64{300}, kit.Pick(r, uint64(6), 8))
	add(sim.Opts{Window: 1000}, 0, []int64{1000}, kit.Pick(r, uint64(4), 6))
	add(sim.Opts{Window: late}, late-base-5*300, []int64{300}, kit.Pick(r, uint64(7), 9))
	lops := []op{{sim.Action{Op: "search", Label: "A", Search: -1}, -1, false}, {sim.Action{Op: "init", Label: "A"}, -1, false}, {sim.Action{Op: "init", Label: "A"}, -1, true}, {sim.Action{Op: "sync", Label: "A"}, -1, false}}
	for _, stop := range []int{-1, 0, 1, 2} {
		lops = append(lops, op{sim.Action{Op: "monitor"}, stop, false})
	}
	// Claims that look at several entries.
	k, n := len(ls), kit.Pick(r, uint64(8), 17)
	for _, u := range [][]uint64{{}, {0}, {0, 0}, {1}} {
		for from := uint64(0); from < n; from++ {
			for to := from; to < n; to++ {
				for _, lifetime := range []uint64{0, 5000} {
					ls = append(ls, liecase{sim.Opts{Window: 1, Lifetime: lifetime}, 0, []int64{1000}, n, &lie{u, uint32(len(u)), from, to, "foreign"}})
				}
			}
		}
	}
	r.Count("lying_logs", int64(len(ls)))
	r.Parallel(len(ls), func(i int) {
		ops := lops
		if i >= k {
			ops = lops[:2]
		}
		exploreLie(t, r, ls[i].o, ls[i].start, ls[i].dts, ls[i].n, ls[i].l, ops, kit.Pick(r, 40, 400))
	})
	r.Finish()
}
