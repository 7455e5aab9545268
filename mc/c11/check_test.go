// C11: contact monitoring succeeds honestly and detects a hidden change.
package c11

import (
	"fmt"
	"maps"
	"slices"
	"testing"
	"time"

	"katiemc/kit"
	"katiemc/ref"
	"katiemc/sim"
)

type history struct {
	Opts  sim.Opts
	Start int64 // milliseconds before the first entry
	Steps []sim.Step
	Eager bool // labels are looked up only when something changed, or at the end
}

// onPath reports whether pos is first or right of it on its direct path.
func onPath(first, pos, n uint64) bool {
	if first == pos {
		return true
	}
	return slices.Contains(ref.RightPath(first, n), pos)
}

// node is a client and what it has looked up so far.
type node struct {
	phone  *sim.Phone
	looked map[string]int64 // greatest version looked up, per label
}

func (nd *node) key() string { return fmt.Sprintf("%s|%v", nd.phone.Dump(), nd.looked) }

// check compares a client's monitoring state with the log.
func check(w *sim.World, nd *node) {
	st := sim.State(w.Public, nd.phone)
	if st == nil {
		return
	}
	n := st.TreeHead.TreeSize
	m := w.Models[n]
	dle := ref.RightmostTrue(ref.Distinguished(m.Times, w.Config.ReasonableMonitoringWindow))
	for label, ver := range nd.looked {
		ls := sim.LabelState(w.Public, nd.phone, label)
		covered := dle >= 0 && m.Labels[label][ver].Pos <= uint64(dle)
		if ls != nil {
			for _, e := range ls.Contact {
				covered = covered || int64(e.Version) >= ver
			}
		}
		kit.Check(covered, "version %d of %q was looked up, no distinguished entry covers it (rightmost: %d), and it is not monitored", ver, label, dle)
	}
	for label := range nd.phone.Labels {
		ls := sim.LabelState(w.Public, nd.phone, label)
		vs := m.Labels[label]
		for _, e := range ls.Contact {
			kit.Check(int(e.Version) < len(vs) && onPath(vs[e.Version].Pos, e.Position, n), "version %d of %q is monitored at entry %d, which is not on its path (size %d)", e.Version, label, e.Position, n)
		}
	}
}

func explore(t *testing.T, r *kit.Run, h history, ops []sim.Action, max int) {
	if r.Expired() {
		return
	}
	r.Trace()
	var at string
	r.Try(func() any { return map[string]any{"history": h, "at": at} }, func() {
		kit.Bubble(t, func() {
			w := sim.NewWorld(sim.Config(h.Opts))
			hist := fmt.Sprint(h.Opts, h.Start)
			time.Sleep(time.Duration(h.Start) * time.Millisecond)
			nodes := map[string]*node{"": {sim.NewPhone(), map[string]int64{}}}
			for i, s := range h.Steps {
				at = fmt.Sprintf("step %d", i)
				kit.NoErr(w.Apply(s), "sequencing step %d (%v)", i, s)
				hist += s.String()
				size := w.Size()
				m := w.Model()
				dle := ref.RightmostTrue(ref.Distinguished(m.Times, w.Config.ReasonableMonitoringWindow))
				next := map[string]*node{}
				var work []*node
				push := func(nd *node) {
					if k := nd.key(); next[k] == nil && len(next) < max {
						next[k] = nd
						work = append(work, nd)
					}
				}
				for _, k := range slices.Sorted(maps.Keys(nodes)) {
					push(nodes[k])
				}
				for len(work) > 0 {
					nd := work[0]
					work = work[1:]
					r.State(hist + "|" + nd.key())
					for _, op := range ops {
						if h.Eager && op.Op == "search" && len(s.Put) == 0 && (op.Label == "A" || i < len(h.Steps)-3) {
							continue
						}
						at = fmt.Sprintf("step %d, %v by a client that knows %s", i, op, nd.key())
						r.Transition()
						c := &node{nd.phone.Copy(), maps.Clone(nd.looked)}
						res := sim.Do(w.Public, w.Server(size), c.phone, op)
						kit.Check(res.Kind != "refused" && res.Kind != "unserved", "%v at size %d (%s) by a client with state %q: %v", op, size, res.Label, nd.key(), res)
						r.Outcome(op.Op + " " + res.Kind)
						switch op.Op {
						case "search":
							if res.Answer.Kind == "value" {
								if v, ok := c.looked[op.Label]; !ok || v < int64(res.Answer.Version) {
									c.looked[op.Label] = int64(res.Answer.Version)
								}
							}
						case "monitor":
							if res.Kind == "done" {
								if ls := sim.LabelState(w.Public, c.phone, res.Label); ls != nil && dle >= 0 {
									for _, e := range ls.Contact {
										kit.Check(e.Position > uint64(dle), "%q was monitored at size %d but entry %d, covered by the distinguished entry %d, is still monitored", res.Label, size, e.Position, dle)
									}
								}
							}
						}
						check(w, c)
						if op.Op == "monitor" && res.Kind != "unable" {
							// Monitoring again and again comes to an end with
							// every label taken care of.
							d := &node{c.phone.Copy(), c.looked}
							dle := dle
							if st := sim.State(w.Public, d.phone); res.Kind == "nothing" {
								dle = ref.RightmostTrue(ref.Distinguished(w.Models[st.TreeHead.TreeSize].Times, w.Config.ReasonableMonitoringWindow))
							}
							for k := 0; res.Kind == "done"; k++ {
								again := sim.Do(w.Public, w.Server(size), d.phone, op)
								r.Transition()
								if again.Kind == "nothing" {
									break
								}
								kit.Check(again.Kind == "done", "monitoring again at size %d (%s): %v", size, again.Label, again)
								kit.Check(k <= len(d.phone.Labels)+1, "at size %d the client recommends monitoring %q over and over", size, again.Label)
								check(w, d)
							}
							for label := range d.phone.Labels {
								for _, e := range sim.LabelState(w.Public, d.phone, label).Contact {
									kit.Check(dle < 0 || e.Position > uint64(dle), "no label is recommended for monitoring at size %d, but %q at entry %d is covered by the distinguished entry %d", size, label, e.Position, dle)
								}
							}
						}
						push(c)
					}
				}
				nodes = next
			}
		})
	})
}

func TestCheck(t *testing.T) {
	r := kit.Start("C11", "model_checking", "every history of batches up to the depth x every client reachable by looking labels up and monitoring along the way")
	ops := []sim.Action{{Op: "search", Label: "A", Search: -1}, {Op: "search", Label: "A", Search: 0}, {Op: "search", Label: "A", Search: 1}, {Op: "search", Label: "B", Search: -1}, {Op: "monitor"}}
	batches := [][]sim.Put{nil, {{Label: "A", Count: 1}}, {{Label: "A", Count: 2}}, {{Label: "B", Count: 1}}}
	timings := [][]int64{{300}, {0, 400}, {100, 100, 900}, {1000}}
	var hs, big []history
	depth := kit.Pick(r, 5, 7)
	for _, tm := range timings {
		for _, win := range []uint64{1000} {
			for n := depth; n <= depth; n++ {
				tot := 1
				for range n {
					tot *= len(batches)
				}
				for i := 0; i < tot; i++ {
					steps := make([]sim.Step, n)
					for j, k := 0, i; j < n; j, k = j+1, k/len(batches) {
						steps[j] = sim.Step{DT: tm[j%len(tm)], Put: batches[k%len(batches)]}
					}
					hs = append(hs, history{sim.Opts{Window: win}, 0, steps, false})
				}
			}
		}
	}
	// Longer logs with updates at every choice of up to two entries, and no
	// distinguished entry before some point.
	long := kit.Pick(r, 9, 13)
	base := time.Unix(946684800, 0).UnixMilli()
	const late = 1_000_000_000_000
	rec := func(length, updates int, tm []int64, counts []int, f func(steps []sim.Step)) {
		var rec func(steps []sim.Step, used int)
		rec = func(steps []sim.Step, used int) {
			if len(steps) == length {
				f(slices.Clone(steps))
				return
			}
			dt := tm[len(steps)%len(tm)]
			rec(append(steps, sim.Step{DT: dt}), used)
			if used < updates {
				for _, c := range counts {
					rec(append(steps, sim.Step{DT: dt, Put: []sim.Put{{Label: "A", Count: c}}}), used+1)
				}
			}
		}
		rec(nil, 0)
	}
	for _, tm := range timings {
		rec(long, 2, tm, []int{1, 2}, func(steps []sim.Step) { hs = append(hs, history{sim.Opts{Window: 1000}, 0, steps, false}) })
	}
	for _, k := range []int{5, 7, 8} {
		rec(long, 2, []int64{300}, []int{1, 2}, func(steps []sim.Step) {
			hs = append(hs, history{sim.Opts{Window: late}, late - base - int64(k)*300, steps, false})
		})
	}
	// Three versions looked up right after they appeared.
	for _, k := range kit.Pick(r, []int{8, 11, 12}, []int{8, 10, 11, 12, 13, 15, 16}) {
		rec(kit.Pick(r, 13, 17), 3, []int64{300}, []int{1}, func(steps []sim.Step) {
			hs = append(hs, history{sim.Opts{Window: late}, late - base - int64(k)*300, steps, true})
		})
	}
	// Long logs, where monitored entries have long paths to go.
	for _, k := range kit.Pick(r, []int{24}, []int{20, 22, 24, 25}) {
		rec(26, 2, []int64{300}, []int{1}, func(steps []sim.Step) {
			hs = append(hs, history{sim.Opts{Window: late}, late - base - int64(k)*300, steps, true})
		})
	}
	// Much longer ones, with few of the clients.
	for _, k := range kit.Pick(r, []int{0, 64, 129}, []int{0, 1, 63, 64, 65, 127, 128, 129}) {
		for _, every := range []int{1, 3, 16, 40} {
			var steps []sim.Step
			for i := range kit.Pick(r, 140, 270) {
				s := sim.Step{DT: 300}
				if i%every == 0 {
					s.Put = []sim.Put{{Label: "A", Count: 1}}
				}
				steps = append(steps, s)
			}
			big = append(big, history{sim.Opts{Window: late}, late - base - int64(k)*300, steps, true})
			big = append(big, history{sim.Opts{Window: 1000 + uint64(k)*100}, 0, steps, true})
		}
	}
	r.Parallel(len(big), func(i int) { explore(t, r, big[i], ops, kit.Pick(r, 6, 24)) })
	type manyCase struct {
		k     int64
		every int
		owned bool
		sizes []int
	}
	sizes := []int{3, 100, 254, 255, 256, 257, 300, 340, 508, 510, 512, 514, 516, 520, 530}
	var ms []manyCase
	for _, owned := range []bool{false, true} {
		for _, k := range []int64{-10, 0, 20, 300, 509} {
			for _, every := range []int{1, 2, 5, 13} {
				at := sizes
				if k < 0 || every > 1 {
					at = []int{340, 508, 512, 514, 600}
				}
				ms = append(ms, manyCase{k, every, owned, at})
			}
		}
	}
	r.Parallel(len(ms), func(i int) {
		c := ms[i]
		o, start := sim.Opts{Window: late}, late-base-c.k*300
		if c.k < 0 {
			o, start = sim.Opts{Window: 1000}, 0
		}
		many(t, r, o, start, c.every, c.owned, c.sizes)
	})
	r.Count("clients with many entries to monitor", int64(len(ms)))
	r.Count("long histories", int64(len(big)))
	r.Parallel(len(hs), func(i int) { explore(t, r, hs[i], ops, kit.Pick(r, 40, 400)) })
	r.Count("histories", int64(len(hs)))

	// Lying operators.
	type liecase struct {
		o     sim.Opts
		start int64
		dts   []int64
		n     uint64
		l     *lie
	}
	var ls []liecase
	plain := func(n uint64, f func(updates []uint64)) {
		for a := uint64(0); a < n; a++ {
			f([]uint64{a})
			for b := a; b < n; b++ {
				f([]uint64{a, b})
			}
		}
	}
	add := func(o sim.Opts, start int64, dts []int64, n uint64) {
		plain(n, func(u []uint64) {
			ls = append(ls, liecase{o, start, dts, n, &lie{Updates: u, From: 1}})
			for v := range u {
				for from := u[v]; from < n; from++ {
					for to := from; to < n; to++ {
						for _, swap := range []bool{false, true} {
							ls = append(ls, liecase{o, start, dts, n, &lie{u, uint32(v), from, to, swap}})
						}
					}
				}
			}
		})
	}
	add(sim.Opts{Window: 1000}, 0, []int64{300}, kit.Pick(r, uint64(7), 9))
	add(sim.Opts{Window: 1000}, 0, []int64{0, 0, 900}, kit.Pick(r, uint64(6), 8))
	for _, k := range []int64{5, 7} {
		add(sim.Opts{Window: late}, late-base-k*300, []int64{300}, kit.Pick(r, uint64(8), 9))
	}
	lops := []lieop{{sim.Action{Op: "search", Label: "A", Search: -1}, -1}, {sim.Action{Op: "search", Label: "A", Search: 0}, -1}, {sim.Action{Op: "monitor"}, -1}}
	r.Count("lying_logs", int64(len(ls)))
	r.Parallel(len(ls), func(i int) {
		exploreLie(t, r, ls[i].o, ls[i].start, ls[i].dts, ls[i].n, ls[i].l, lops, kit.Pick(r, 60, 400))
	})
	// The same for users who also claim the label.
	ls = nil
	add(sim.Opts{Window: 1000}, 0, []int64{300}, kit.Pick(r, uint64(6), 8))
	add(sim.Opts{Window: late}, late-base-4*300, []int64{300}, kit.Pick(r, uint64(6), 8))
	lops = append(lops, lieop{sim.Action{Op: "init", Label: "A"}, -1}, lieop{sim.Action{Op: "sync", Label: "A"}, -1}, lieop{sim.Action{Op: "monitor"}, 0}, lieop{sim.Action{Op: "monitor"}, 1})
	r.Count("lying_logs_owner", int64(len(ls)))
	r.Parallel(len(ls), func(i int) {
		exploreLie(t, r, ls[i].o, ls[i].start, ls[i].dts, ls[i].n, ls[i].l, lops, kit.Pick(r, 60, 400))
	})
	r.Finish()
}
