// C13: owner updates commit exactly once and finish under every schedule.
package c13

import (
	"fmt"
	"maps"
	"slices"
	"testing"
	"time"

	"katiemc/kit"
	"katiemc/ref"
	"katiemc/sim"

	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/tree/transparency/wire"
)

type history struct {
	Opts  sim.Opts
	Start int64 // milliseconds before the first entry
	Steps []sim.Step
}

// pending is an update whose values are in the log, but the server wasn't told.
type pending struct {
	st    *sim.Stream
	phone *sim.Phone
	pos   uint64
	done  chan<- uint64
	at    string
}

// server of the log as it is now, which hands updates to ch.
func server(w *sim.World, ch chan transparency.UpdateRequest) wire.Interface {
	t, err := transparency.NewTree(w.Config, w.Disk.ReadOnly(), ch)
	kit.NoErr(err, "opening the log at size %d", w.Size())
	if w.Config.Mode == structs.ThirdPartyManagement {
		return w.Managed(t, w.Model())
	}
	return t
}

// submit starts an update by a client and leaves it waiting for the sequencer.
func submit(w *sim.World, ph *sim.Phone, values []string, at string) pending {
	ch := make(chan transparency.UpdateRequest)
	known := sim.OwnerGreatest(sim.OwnerState(w.Public, ph, "A"))
	st, res := sim.StartUpdate(w.Public, server(w, ch), ph, "A", values)
	kit.Check(st != nil, "%s: the update was refused: %v", at, res)
	st.Drain()
	kit.Check(!st.Closed && st.Err == nil && st.Refused == nil, "%s: the update was not submitted: %v", at, st)
	n := len(w.Model().Labels["A"])
	if known+1 < n {
		kit.Check(sim.OwnerCurrent(w, ph, "A"), "%s: before its own update the owner should learn about versions up to %d, it knows %+v", at, n-1, sim.OwnerState(w.Public, ph, "A"))
	}
	sim.CheckOwner(w, ph, "A")
	var r transparency.UpdateRequest
	select {
	case r = <-ch:
	default:
		kit.Failf("%s: no update was submitted: %v", at, st)
	}
	kit.Check(string(r.Label) == "A" && len(r.Values) == len(values), "%s: submitted %d values for %q", at, len(r.Values), r.Label)
	for i, v := range r.Values {
		kit.Check(string(v.Value) == values[i], "%s: value %d was submitted as %q, not %q", at, i, v.Value, values[i])
	}
	if w.Config.Mode == structs.ThirdPartyManagement {
		kit.Check(r.StartingVersion != nil && int(*r.StartingVersion) == n, "%s: the starting version was submitted as %v, not %d", at, r.StartingVersion, n)
	} else {
		kit.Check(r.StartingVersion == nil, "%s: a starting version was submitted", at)
	}
	return pending{st, ph, w.Size(), r.Response, at}
}

// finish tells the server of the outcome and checks what the client makes of it.
func (p pending) finish(w *sim.World) {
	p.done <- p.pos
	p.st.Drain()
	kit.Check(p.st.Closed && p.st.Err == nil && p.st.Refused == nil, "%s, and sequenced in entry %d of %d: %v", p.at, p.pos, w.Size(), p.st)
	got := 0
	for _, r := range p.st.Responses {
		if r.Position == p.pos {
			kit.Check(len(r.Info) == len(p.st.Values) && len(r.Values) == 0, "%s: answered with %d versions and %d values", p.at, len(r.Info), len(r.Values))
			got++
		}
	}
	kit.Check(got == 1, "%s: answered %d times", p.at, got)
	kit.Check(sim.State(w.Public, p.phone).TreeHead.TreeSize == w.Size(), "%s: the client is not at the current size %d", p.at, w.Size())
	sim.CheckOwner(w, p.phone, "A")
	kit.Check(sim.OwnerCurrent(w, p.phone, "A"), "%s: afterwards the owner knows %+v, the log has %v", p.at, sim.OwnerState(w.Public, p.phone, "A"), w.Model().Labels["A"])
}

func explore(t *testing.T, r *kit.Run, h history, ops []sim.Action, max int) {
	if r.Expired() {
		return
	}
	r.Trace()
	var at string
	r.Try(func() any { return map[string]any{"history": h, "at": at} }, func() {
		kit.Bubble(t, func() {
			w := sim.NewWorld(sim.Config(h.Opts))
			hist := fmt.Sprint(h.Opts, h.Start)
			time.Sleep(time.Duration(h.Start) * time.Millisecond)
			nodes := map[string]*sim.Phone{"": sim.NewPhone()}
			var late []pending
			for i, s := range h.Steps {
				// Every owner may be the one that makes the step's update.
				var now []pending
				var after []pending
				for _, p := range s.Put {
					if p.Label != "A" {
						continue
					}
					n := len(w.Model().Labels["A"])
					var vs []string
					for j := range p.Count {
						vs = append(vs, w.Value("A", n+j, w.Size()))
					}
					if !ref.Announceable(n, p.Count) {
						// Too many to be told about at once.
						for _, k := range slices.Sorted(maps.Keys(nodes)) {
							if o := sim.OwnerState(w.Public, nodes[k], "A"); o != nil {
								at = fmt.Sprintf("update before step %d by a client that knows %+v", i, o)
								r.Transition()
								ch := make(chan transparency.UpdateRequest)
								c := nodes[k].Copy()
								st, res := sim.StartUpdate(w.Public, server(w, ch), c, "A", vs)
								kit.Check(st == nil, "%s: %d versions from %d on are more than a response holds, and the update was not refused: %v", at, p.Count, n, res)
								kit.Check(c.Dump() == nodes[k].Dump(), "%s: the refused update changed what the client stored", at)
								r.Outcome("too many versions refused")
							}
						}
						kit.Check(w.Apply(s) != nil, "step %d: %d versions from %d on are more than an owner can be told about, and were sequenced", i, p.Count, n)
						s.Put = nil
						break
					}
					for _, k := range slices.Sorted(maps.Keys(nodes)) {
						if o := sim.OwnerState(w.Public, nodes[k], "A"); o != nil {
							at = fmt.Sprintf("update before step %d by a client that knows %+v", i, o)
							r.Transitions(2)
							now = append(now, submit(w, nodes[k].Copy(), vs, at))
							after = append(after, submit(w, nodes[k].Copy(), vs, at+", finished an entry later"))
						}
					}
				}
				at = fmt.Sprintf("step %d", i)
				kit.NoErr(w.Apply(s), "sequencing step %d (%v)", i, s)
				hist += s.String()
				next := map[string]*sim.Phone{}
				var work []*sim.Phone
				push := func(ph *sim.Phone) {
					if k := ph.Dump(); next[k] == nil && len(next) < max {
						next[k] = ph
						work = append(work, ph)
					}
				}
				for _, p := range append(late, now...) {
					at = p.at
					p.finish(w)
					r.Outcome("updates")
					push(p.phone)
				}
				late = after
				for _, k := range slices.Sorted(maps.Keys(nodes)) {
					push(nodes[k])
				}
				for len(work) > 0 {
					ph := work[0]
					work = work[1:]
					r.State(hist + "|" + ph.Dump())
					for _, op := range ops {
						c := ph.Copy()
						at = fmt.Sprintf("step %d, %v by a client that knows %+v", i, op, sim.OwnerState(w.Public, c, "A"))
						r.Transition()
						res := sim.Do(w.Public, server(w, nil), c, op)
						kit.Check(res.Kind != "refused" && res.Kind != "unserved", "%v at size %d (%s): %v", op, w.Size(), res.Label, res)
						r.Outcome(op.Op + " " + res.Kind)
						sim.CheckOwner(w, c, "A")
						push(c)
					}
				}
				nodes = next
			}
			for _, p := range late {
				p.st.Cancel()
				p.st.Drain()
				kit.Check(p.st.Closed, "a cancelled update is still going on")
			}
		})
	})
}

func TestCheck(t *testing.T) {
	r := kit.Start("C13", "model_checking", "every history of batches up to the depth x every owner reachable by claiming the label, updating, synchronising and monitoring along the way; every schedule of concurrent updates, sequencing, reads and cancellations up to the depth")
	ops := []sim.Action{{Op: "search", Label: "A", Search: -1}, {Op: "init", Label: "A"}, {Op: "monitor"}}
	batches := [][]sim.Put{nil, {{Label: "A", Count: 1}}, {{Label: "A", Count: 2}}}
	timings := [][]int64{{300}, {0, 400}, {100, 100, 900}, {1000}}
	var hs []history
	product := func(o sim.Opts, tm []int64, batches [][]sim.Put, depth int) {
		tot := 1
		for range depth {
			tot *= len(batches)
		}
		for i := 0; i < tot; i++ {
			steps := make([]sim.Step, depth)
			for j, k := 0, i; j < depth; j, k = j+1, k/len(batches) {
				steps[j] = sim.Step{DT: tm[j%len(tm)], Put: batches[k%len(batches)]}
			}
			hs = append(hs, history{o, 0, steps})
		}
	}
	for _, tm := range timings {
		product(sim.Opts{Window: 1000}, tm, batches, kit.Pick(r, 5, 7))
	}
	product(sim.Opts{Window: 1000}, []int64{300}, append(batches, []sim.Put{{Label: "A", Count: 5}}), kit.Pick(r, 4, 6))
	for _, o := range []sim.Opts{{Window: 1000, Mode: structs.ThirdPartyManagement}, {Window: 1000, Mode: structs.ThirdPartyAuditing, Lag: 100000}} {
		product(o, []int64{300}, batches, kit.Pick(r, 4, 6))
		product(o, []int64{300}, append(batches, []sim.Put{{Label: "A", Count: 4}}), kit.Pick(r, 3, 4))
	}
	// Longer logs with up to two updates, with and without a distinguished entry
	// from some point on only.
	long := kit.Pick(r, 8, 12)
	base := time.Unix(946684800, 0).UnixMilli()
	const late = 1_000_000_000_000
	rec := func(length, updates int, tm []int64, counts []int, f func(steps []sim.Step)) {
		var rec func(steps []sim.Step, used int)
		rec = func(steps []sim.Step, used int) {
			if len(steps) == length {
				f(slices.Clone(steps))
				return
			}
			dt := tm[len(steps)%len(tm)]
			rec(append(steps, sim.Step{DT: dt}), used)
			if used < updates {
				for _, c := range counts {
					rec(append(steps, sim.Step{DT: dt, Put: []sim.Put{{Label: "A", Count: c}}}), used+1)
				}
			}
		}
		rec(nil, 0)
	}
	for _, tm := range timings {
		rec(long, 2, tm, []int{1, 3}, func(steps []sim.Step) { hs = append(hs, history{sim.Opts{Window: 1000}, 0, steps}) })
	}
	for _, k := range []int{3, 5} {
		rec(long, 2, []int64{300}, []int{1, 4}, func(steps []sim.Step) {
			hs = append(hs, history{sim.Opts{Window: late}, late - base - int64(k)*300, steps})
		})
	}
	// Many versions at once, before and after the label is claimed.
	for _, a := range []int{0, 1, 2, 3, 4, 6, 7, 8, 14} {
		for _, b := range []int{1, 2, 3, 4, 5, 6, 9} {
			for _, c := range []int{1, 2, 4} {
				for _, dt := range []int64{300, 1000} {
					steps := make([]sim.Step, 6)
					for i, k := range []int{a, 0, 0, b, 0, c} {
						steps[i].DT = dt
						if k > 0 {
							steps[i].Put = []sim.Put{{Label: "A", Count: k}}
						}
					}
					hs = append(hs, history{sim.Opts{Window: 1000}, 0, steps})
				}
			}
		}
	}
	for _, a := range []int{0, 1, 30, 250} {
		for _, b := range []int{20, 64, 128, 200, 240, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255} {
			for _, c := range []int{1, 100} {
				steps := make([]sim.Step, 6)
				for i, k := range []int{a, 0, 0, b, 0, c} {
					steps[i].DT = 700
					if k > 0 {
						steps[i].Put = []sim.Put{{Label: "A", Count: k}}
					}
				}
				hs = append(hs, history{sim.Opts{Window: 1000}, 0, steps})
			}
		}
	}
	r.Count("histories", int64(len(hs)))
	r.Parallel(len(hs), func(i int) { explore(t, r, hs[i], ops, kit.Pick(r, 40, 300)) })
	schedules(t, r)
	r.Finish()
}
