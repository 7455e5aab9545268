package c27

import (
	"fmt"
	"maps"
	"slices"
	"testing"
	"testing/synctest"

	"katiemc/kit"
	"katiemc/sim"

	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// event is something that happens to a log: an entry is added, or it grows to
// a size without anything happening.
type event struct {
	DT     int64
	Put    []sim.Put `json:",omitempty"`
	Remove []string  `json:",omitempty"`
	To     uint64    `json:",omitempty"`
}

func actions(ph *sim.Phone) []sim.Action {
	out := []sim.Action{{Op: "monitor"}}
	for _, l := range slices.Sorted(maps.Keys(ph.Labels)) {
		out = append(out, sim.Action{Op: "sync", Label: l})
	}
	out = append(out, sim.Action{Op: "init", Label: "A"})
	for v := int64(-1); v < 4; v++ {
		out = append(out, sim.Action{Op: "search", Label: "A", Search: v})
	}
	return append(out, sim.Action{Op: "search", Label: "B", Search: -1}, sim.Action{Op: "search", Label: "Z", Search: -1}, sim.Action{Op: "search", Label: "B", Search: 7})
}

// story has clients deal with a log as it grows.
type story struct {
	r      *kit.Run
	t      *testing.T
	name   string
	opts   sim.Opts
	events []event
	keep   int // clients
}

func (s *story) run() {
	s.r.Trace()
	var at string
	s.r.Try(func() any {
		return map[string]any{"options": s.opts, "history": s.events, "at": at}
	}, func() {
		kit.Bubble(s.t, func() {
			g := newGiant(sim.Config(s.opts))
			if s.opts.Mode == structs.ThirdPartyAuditing {
				g.audit = &sim.AuditorDisk{}
			}
			ps := []*sim.Phone{sim.NewPhone()}
			for i, e := range s.events {
				at = fmt.Sprintf("event %d", i)
				if e.To > 0 {
					g.jump(max(e.To, g.size()))
				} else {
					g.add(e.DT, e.Put, e.Remove)
				}
				s.r.State(fmt.Sprint(s.name, i, g.size()))
				next, known := slices.Clone(ps), map[string]bool{}
				for _, p := range ps {
					known[p.Dump()] = true
				}
				for _, p := range ps {
					for _, a := range actions(p) {
						ph := p.Copy()
						at = fmt.Sprintf("event %d, size %d, %v by a client with state %x", i, g.size(), a, p.Dump())
						if s.exchange(g, ph, a) {
							g.checkView(ph)
							if d := ph.Dump(); !known[d] && len(d) < 20000 && (len(next) < s.keep || a.Op == "monitor" && len(next) < 2*s.keep) {
								next, known[d] = append(next, ph), true
							}
						}
					}
				}
				// Keep a new client, and every second other one.
				if ps = next; len(next) > s.keep {
					ps = next[:1:1]
					for j := 1; j < len(next); j += 2 {
						ps = append(ps, next[j])
					}
				}
				at = fmt.Sprintf("event %d, updates", i)
				if g.size() == 1<<63 {
					full, err := transparency.NewTree(g.c, g.st, nil)
					kit.NoErr(err, "opening a full log")
					_, err = full.Mutate([]transparency.LabelValue{{Label: []byte("B")}}, nil)
					kit.Check(err != nil, "an entry was added to a full log")
					s.r.Eval()
				} else if s.opts.Mode != structs.ThirdPartyManagement && i+1 == len(s.events) && !g.gone["A"] {
					s.updates(g, ps)
				}
			}
		})
	})
}

// exchange has a client do something, and reports whether its state changed.
func (s *story) exchange(g *giant, ph *sim.Phone, a sim.Action) bool {
	if a.Op == "sync" && (s.opts.Mode == structs.ThirdPartyManagement || sim.OwnerState(g.public, ph, a.Label) == nil) {
		return false
	}
	before := ph.Dump()
	g.st.ops = 0
	res := sim.Do(g.public, g.server(nil), ph, a)
	s.r.Transition()
	kit.Check(g.st.ops < 20000, "%v takes %d storage operations", a, g.st.ops)
	if x := sim.Classify(res.Err); a.Op == "search" && res.Kind == "unserved" && x.Kind != "refused" {
		res = sim.Result{Kind: "done", Answer: x}
	}
	switch res.Kind {
	case "unable", "nothing":
		return false
	case "done":
	default:
		if a.Op == "init" && s.startExpired(g, ph) {
			s.r.Outcome("start expired: " + res.Kind)
			return false
		}
		if g.gone["A"] && a.Label != "B" && res.Label != "B" {
			s.r.Outcome("removed label: " + res.Kind)
			return false
		}
		kit.Failf("%v: %v", a, res)
	}
	if a.Op == "search" {
		want := g.expect(a.Label, a.Search)
		kit.Check(sim.Acceptable(res.Answer, want), "%v: %v, expected %v", a, res, want)
	}
	s.r.Eval()
	s.r.Outcome(a.Op + " " + res.Answer.Kind)
	return ph.Dump() != before
}

// startExpired tells whether the entry where a client would have its ownership
// start has expired by now.
func (s *story) startExpired(g *giant, ph *sim.Phone) bool {
	st := sim.State(g.public, ph)
	if st == nil || s.opts.Lifetime == 0 {
		return false
	}
	dist := g.distinguished(st.TreeHead.TreeSize)
	return len(dist) > 0 && g.at(g.size()-1).time-g.at(dist[len(dist)-1]).time >= uint64(s.opts.Lifetime)
}

// updates has owners of a label create versions of it, at the log's end.
func (s *story) updates(g *giant, ps []*sim.Phone) {
	for _, p := range ps {
		if sim.OwnerState(g.public, p, "A") == nil {
			continue
		}
		ph := p.Copy()
		if res := sim.Do(g.public, g.server(nil), ph, sim.Action{Op: "sync", Label: "A"}); res.Kind != "done" {
			kit.Failf("synchronising: %v", res)
		}
		ch := make(chan transparency.UpdateRequest)
		st, res := sim.StartUpdate(g.public, g.server(ch), ph, "A", []string{fmt.Sprint("new ", len(g.labels["A"])), "x"})
		kit.Check(res.Kind == "done", "updating: %v", res)
		for st.Read() {
		}
		synctest.Wait()
		select {
		case req := <-ch:
			kit.Check(string(req.Label) == "A" && len(req.Values) == 2, "asked to sequence %d values of %q", len(req.Values), req.Label)
			var add []transparency.LabelValue
			for _, v := range req.Values {
				add = append(add, transparency.LabelValue{Label: req.Label, Value: v})
			}
			pos := g.size()
			g.mutate(add, nil)
			req.Response <- pos
		default:
			kit.Failf("nothing to sequence: %v", st)
		}
		st.Drain()
		kit.Check(st.Closed && st.Err == nil && st.Refused == nil, "%v", st)
		st.Cancel()
		g.checkView(ph)
		o := sim.OwnerState(g.public, ph, "A")
		kit.Check(sim.OwnerGreatest(o) == len(g.labels["A"])-1, "the owner knows of version %d, there are %d", sim.OwnerGreatest(o), len(g.labels["A"]))
		s.r.Eval()
		for range 20 {
			if !s.exchange(g, ph, sim.Action{Op: "monitor"}) {
				break
			}
			g.checkView(ph)
		}
		return
	}
}

func TestCheck(t *testing.T) {
	r := kit.Start("C27", "model_checking", "stories: a few entries, growth to a size around a power of two up to 2^63, more entries and growth, x deployment modes x windows and lifetimes; after every event every action of every client state reached by the actions along the way, on the real server, client and auditor; state = log after an event")
	var todo []story
	one := func(l string) []sim.Put { return []sim.Put{{Label: l, Count: 1}} }
	for k := uint(4); k <= 62; k++ {
		for d := int64(-1); d <= 1; d++ {
			for mode := structs.ContactMonitoring; mode <= structs.ThirdPartyAuditing; mode++ {
				for v := range 3 {
					if r.Quick() && (int(k)+int(d)+int(mode)+v)%3 != 0 {
						continue
					}
					n := uint64(int64(1)<<k + d)
					m := n + n/2
					if v == 1 && mode != structs.ThirdPartyAuditing { // see C17's finding about removals
						m = uint64(int64(1)<<(k+1) + 2*d)
					}
					o := sim.Opts{Mode: mode, Window: 50, Behind: 1 << 40, Lag: 1 << 40}
					if v == 2 {
						o.Lifetime = 250
					}
					m = min(m, 1<<63-30) // the limit is 2^63
					es := []event{
						{DT: 1, Put: []sim.Put{{Label: "A", Count: 2}}},
						{DT: 10, Put: append(one("B"), one("A")...)},
						{To: n},
						{DT: 100, Put: one("A")},
						{DT: 10, Put: one("B")},
						{To: m},
						{DT: 200, Put: one("B")},
						{To: min(m+m/4, 1<<63-20)},
						{DT: 10, Put: one("A")},
					}
					if v == 1 && mode != structs.ThirdPartyAuditing { // see C17's finding about removals
						es = append(es, event{DT: 300, Put: one("B")}, event{DT: 1, Put: one("C"), Remove: []string{"A"}})
					}
					if k == 62 {
						es = append(es, event{To: 1<<63 - 1}, event{DT: 10, Put: one("B")})
					}
					todo = append(todo, story{r, t, fmt.Sprint(k, d, mode, v), o, es, kit.Pick(r, 6, 12)})
				}
			}
		}
	}
	r.Parallel(len(todo), func(i int) {
		if !r.Expired() {
			todo[i].run()
		}
	})
	r.Finish()
}
