package c10

import (
	"fmt"
	"maps"
	"slices"
	"testing"
	"time"

	"katiemc/kit"
	"katiemc/ref"
	"katiemc/sim"

	tmath "github.com/Bren2010/katie/tree/transparency/math"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

type overlapSetting struct {
	Name  string
	Opts  sim.Opts
	Steps []sim.Step
}

// kept checks that nothing that was retained about labels got lost: versions
// that are monitored, and what an owner knows.
func kept(w *sim.World, before, after *sim.Phone, kind, label string) {
	n := sim.State(w.Public, after).TreeHead.TreeSize
	dist := ref.Distinguished(w.Models[n].Times, w.Config.ReasonableMonitoringWindow)
	right := ref.RightmostTrue(dist)
	for _, x := range slices.Sorted(maps.Keys(before.Labels)) {
		a, b := sim.LabelState(w.Public, before, x), sim.LabelState(w.Public, after, x)
		if b == nil {
			b = &structs.ClientLabelState{}
		}
		for _, e := range a.Contact {
			path := append([]uint64{e.Position}, tmath.RightDirectPath(e.Position, n)...)
			ok := (kind == "contact monitor" || kind == "owner monitor") && label == x && right >= 0 && uint64(right) >= e.Position
			for _, f := range b.Contact {
				for _, y := range append([]uint64{f.Position}, tmath.RightDirectPath(f.Position, n)...) {
					ok = ok || f.Version >= e.Version && slices.Contains(path, y)
				}
			}
			kit.Check(ok, "version %d of %q was monitored at entry %d, but no longer is: %v", e.Version, x, e.Position, b.Contact)
		}
		if a.Owner != nil {
			kit.Check(b.Owner != nil, "%q is no longer owned", x)
			kit.Check(b.Owner.Starting >= a.Owner.Starting, "the owner of %q verified up to entry %d, now only up to %d", x, a.Owner.Starting, b.Owner.Starting)
			kit.Check(sim.OwnerGreatest(b.Owner) >= sim.OwnerGreatest(a.Owner), "the owner of %q knew version %d, now only %d", x, sim.OwnerGreatest(a.Owner), sim.OwnerGreatest(b.Owner))
		}
	}
}

func overlap(t *testing.T, r *kit.Run, s overlapSetting, ops []sim.Action, shard, shards int) {
	if r.Expired() {
		return
	}
	r.Trace()
	at := ""
	r.Try(func() any { return map[string]any{"setting": s, "at": at} }, func() {
		kit.Bubble(t, func() {
			w := sim.NewWorld(sim.Config(s.Opts))
			phones := map[string]*sim.Phone{"": sim.NewPhone()}
			type at1 struct {
				ph   *sim.Phone
				size uint64
			}
			var all []at1
			for i, st := range s.Steps {
				kit.NoErr(w.Apply(st), "sequencing step %d (%v)", i, st)
				next := map[string]*sim.Phone{}
				var work []*sim.Phone
				push := func(ph *sim.Phone) {
					if k := ph.Dump(); next[k] == nil && len(next) < kit.Pick(r, 30, 100) {
						next[k] = ph
						work = append(work, ph)
						all = append(all, at1{ph, w.Size()})
					}
				}
				for _, k := range slices.Sorted(maps.Keys(phones)) {
					push(phones[k])
				}
				for len(work) > 0 {
					ph := work[0]
					work = work[1:]
					for _, op := range ops {
						c := ph.Copy()
						if res := sim.Do(w.Public, w.Server(w.Size()), c, op); res.Kind == "done" {
							push(c)
						}
					}
				}
				phones = next
			}
			for i, x := range all {
				if i%shards != shard || r.Expired() {
					continue
				}
				r.State(s.Name + x.ph.Dump())
				m := uint64(0)
				if st := sim.State(w.Public, x.ph); st != nil {
					m = st.TreeHead.TreeSize
				}
				// All responses that the client could get to all its requests.
				type told struct {
					op   sim.Action
					size uint64
					raw  []byte
				}
				var ts []told
				for _, op := range ops {
					for size := max(1, m); size <= w.Size(); size++ {
						a, err := sim.Ask(w.Public, x.ph.Copy(), op)
						if err != nil || a == nil {
							continue
						}
						if raw, err := a.Call(w.Server(size)); err == nil && raw != nil {
							ts = append(ts, told{op, size, raw})
						}
					}
				}
				for _, p := range ts {
					for _, q := range ts {
						// Both requests are made before any response comes.
						ph := x.ph.Copy()
						a, err := sim.Ask(w.Public, ph, p.op)
						kit.NoErr(err, "asking")
						b, err := sim.Ask(w.Public, ph, q.op)
						kit.NoErr(err, "asking")
						at = fmt.Sprintf("client knows %s; requests %v and %v; responses for size %d and %d", x.ph.Dump(), p.op, q.op, p.size, q.size)
						r.Transition()
						_, err = a.Judge(p.raw)
						kit.NoErr(err, "%v at size %d", p.op, p.size)
						sim.CheckView(w, ph)
						kept(w, x.ph, ph, a.Kind, a.Label)
						for k, j := range []*sim.Asked{b, a, b} {
							// The third time, responses come once more.
							raw := q.raw
							if k == 1 {
								raw = p.raw
							}
							mid := ph.Copy()
							size := sim.State(w.Public, mid).TreeHead.TreeSize
							_, err := j.Judge(raw)
							if err != nil {
								kit.Check(ph.Dump() == mid.Dump(), "response %d was refused (%v), but changed what the client retains", k+2, err)
								r.Outcome("overlap: refused")
								continue
							}
							r.Outcome("overlap: accepted")
							now := sim.State(w.Public, ph).TreeHead.TreeSize
							kit.Check(now >= size, "response %d took the client from size %d back to %d", k+2, size, now)
							sim.CheckView(w, ph)
							kept(w, mid, ph, j.Kind, j.Label)
						}
					}
				}
			}
			r.Count("client_states_overlaps", int64(len(all)/shards))
		})
	})
}

// forkOverlaps lets a client make two requests at once, which two forks of the
// log respond to.
func forkOverlaps(t *testing.T, r *kit.Run, depth int) {
	r.Trace()
	at := ""
	r.Try(func() any { return map[string]any{"at": at} }, func() {
		kit.Bubble(t, func() {
			const dt = 400
			time.Sleep(dt * time.Millisecond * time.Duration(depth+1))
			f := newFamily(sim.Config(sim.Opts{Window: 1000}), ".a", depth, dt, nil)
			phones := []*sim.Phone{sim.NewPhone()}
			for _, n := range f.nodes {
				ph := sim.NewPhone()
				raw := n.respond(ph, operations[0], nil, false)
				phones = append(phones, f.judge(r, ph, operations[0], n, raw, true, false))
			}
			for _, ph := range phones {
				for _, op1 := range operations {
					for _, n1 := range f.nodes {
						raw1 := n1.respond(ph, op1, nil, false)
						if raw1 == nil || !extends(f.where(ph), n1) {
							continue
						}
						for _, op2 := range operations {
							if op1.Op == "sync" || op2.Op == "sync" {
								continue
							}
							for _, n2 := range f.nodes {
								raw2 := n2.respond(ph, op2, nil, false)
								if raw2 == nil {
									continue
								}
								at = fmt.Sprintf("client knows %s; %v to %s and %v to %s at once", ph.Dump(), op1, n1.name, op2, n2.name)
								c := ph.Copy()
								a, err := sim.Ask(f.cfg.Public(), c, op1)
								kit.NoErr(err, "asking")
								b, err := sim.Ask(f.cfg.Public(), c, op2)
								kit.NoErr(err, "asking")
								r.Transition()
								_, err = a.Judge(raw1)
								kit.NoErr(err, "first response")
								mid := c.Dump()
								ans, err := b.Judge(raw2)
								if err != nil {
									kit.Check(c.Dump() == mid, "the second response was refused (%v), but changed what the client retains", err)
									continue
								}
								now := f.where(c)
								kit.Check(now != nil && extends(&n1, *now), "the client went from %s to %s", n1.name, now.name)
								f.view(c)
								f.answer(*now, op2, ans)
							}
						}
					}
				}
			}
		})
	})
}

func overlaps(t *testing.T, r *kit.Run) {
	A := func(n int) []sim.Put { return []sim.Put{{Label: "A", Count: n}} }
	AB := []sim.Put{{Label: "A", Count: 1}, {Label: "B", Count: 1}}
	ops := []sim.Action{{Op: "search", Label: "A", Search: -1}, {Op: "search", Label: "A", Search: 0}, {Op: "search", Label: "B", Search: -1}, {Op: "monitor"}, {Op: "init", Label: "A"}, {Op: "sync", Label: "A"}}
	main := []sim.Step{{DT: 400, Put: AB}, {DT: 400}, {DT: 400, Put: A(2)}, {DT: 400}, {DT: 400, Put: A(1)}, {DT: 400}}
	settings := []overlapSetting{
		{"plain", sim.Opts{Window: 1000}, main},
		{"quick", sim.Opts{Window: 300}, main},
		{"slow", sim.Opts{Window: 1 << 40}, main[:5]},
	}
	const shards = 8
	r.Parallel(shards*len(settings)+1, func(i int) {
		if i == shards*len(settings) {
			forkOverlaps(t, r, kit.Pick(r, 3, 4))
			return
		}
		overlap(t, r, settings[i/shards], ops, i%shards, shards)
	})
}
