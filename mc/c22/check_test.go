// C22: requests that are served while the log grows get a coherent response.
package c22

import (
	"fmt"
	"maps"
	"slices"
	"testing"
	"time"

	"katiemc/kit"
	"katiemc/sim"

	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

type history struct {
	Opts  sim.Opts
	Start int64 // milliseconds before the first entry
	Steps []sim.Step
}

var actions = []sim.Action{
	{Op: "search", Label: "A", Search: -1}, {Op: "search", Label: "A", Search: 0}, {Op: "search", Label: "A", Search: 1},
	{Op: "search", Label: "B", Search: -1},
	{Op: "init", Label: "A"}, {Op: "sync", Label: "A"}, {Op: "monitor"},
}

// explore has a log served while each client that could have come about along
// the way makes each request, and the log grows by up to two entries before
// any of the storage operations of the server.
func explore(t *testing.T, r *kit.Run, h history, max int, twice bool) {
	if r.Expired() {
		return
	}
	r.Trace()
	var at string
	r.Try(func() any { return map[string]any{"history": h, "at": at} }, func() {
		kit.Bubble(t, func() {
			w := sim.NewWorld(sim.Config(h.Opts))
			if h.Opts.Mode == structs.ThirdPartyAuditing {
				w.Behind = 1
			}
			hist := fmt.Sprint(h.Opts, h.Start)
			time.Sleep(time.Duration(h.Start) * time.Millisecond)
			clients := []map[string]*sim.Phone{{"": sim.NewPhone()}}
			for i, s := range h.Steps {
				hist += s.String()
				if err := w.Apply(s); err != nil {
					if len(s.Remove) > 0 {
						return // refused, see C14
					}
					kit.NoErr(err, "sequencing step %d (%v)", i, s)
				}
				// Clients of the log at this size.
				next := map[string]*sim.Phone{}
				var work []*sim.Phone
				push := func(ph *sim.Phone) {
					if k := ph.Dump(); next[k] == nil && len(next) < max {
						next[k] = ph
						work = append(work, ph)
					}
				}
				last := clients[len(clients)-1]
				for _, k := range slices.Sorted(maps.Keys(last)) {
					push(last[k])
				}
				for len(work) > 0 && i < len(h.Steps)-1 {
					ph := work[0]
					work = work[1:]
					for _, op := range actions {
						c := ph.Copy()
						sim.Do(w.Public, w.Server(w.Size()), c, op)
						push(c)
					}
				}
				clients = append(clients, next)
			}
			end := w.Size()
			for back := uint64(1); back <= 2 && back <= end; back++ {
				size := end - back
				if size == 0 {
					continue
				}
				// The clients come from the log at this size or the one before.
				for _, set := range clients[size-1 : size+1] {
					for _, k := range slices.Sorted(maps.Keys(set)) {
						for _, op := range actions {
							at = fmt.Sprintf("%v at size %d", op, size)
							grow(r, w, hist, size, set[k], op, twice, &at)
						}
					}
				}
			}
		})
	})
}

// grow serves one request under all growth patterns.
func grow(r *kit.Run, w *sim.World, hist string, size uint64, ph *sim.Phone, op sim.Action, twice bool, at *string) {
	end := w.Size()
	try := func(jumps ...sim.Jump) (n int) {
		r.Transition()
		r.State(fmt.Sprint(hist, size, ph.Dump(), op, jumps))
		*at = fmt.Sprintf("%v at size %d by a client at size %d, growing %+v", op, size, sizeOf(w, ph), jumps)
		c := ph.Copy()
		st, ops := w.Growing(size, jumps...)
		srv, err := transparency.NewTree(w.Config, st, nil)
		kit.NoErr(err, "opening the log")
		res := sim.Do(w.Public, srv, c, op)
		judge(r, w, size, ph, c, op, res)
		return *ops
	}
	n := try()
	for i := 1; i <= n; i++ {
		m := try(sim.Jump{At: i, Size: end})
		if end-size == 2 && twice {
			for j := i + 1; j <= m; j++ {
				try(sim.Jump{At: i, Size: size + 1}, sim.Jump{At: j, Size: end})
			}
		}
	}
}

func sizeOf(w *sim.World, ph *sim.Phone) uint64 {
	if st := sim.State(w.Public, ph); st != nil {
		return st.TreeHead.TreeSize
	}
	return 0
}

// judge checks the outcome of a request that reached the server at the given
// size.
func judge(r *kit.Run, w *sim.World, size uint64, before, after *sim.Phone, op sim.Action, res sim.Result) {
	r.Outcome(op.Op + " " + res.Kind)
	if now := sizeOf(w, after); now == 0 || !w.Models[now].Gone["A"] {
		sim.CheckView(w, after)
	}
	if res.Kind == "unable" || res.Kind == "nothing" {
		return
	}
	label := op.Label
	if op.Op == "monitor" {
		label = res.Label
	}
	gone := w.Model().Gone[label]
	if res.Kind != "done" {
		// What was removed meanwhile can't be served any more.
		kit.Check(gone, "the log was growing: %v", res)
		kit.Check(before.Dump() == after.Dump() || op.Op == "sync", "a failed request changed what the client stored")
		return
	}
	now := sizeOf(w, after)
	if op.Op == "sync" && res.Updates == 0 {
		now = size
	} else {
		kit.Check(now >= size && now <= w.Size(), "the server was at size %d or more, the client is now at %d", size, now)
	}
	switch op.Op {
	case "search":
		want := sim.Expect(w, now, sim.Query{Label: label, Version: op.Search})
		if gone {
			want = append(want, sim.Answer{Kind: "notfound"}, sim.Answer{Kind: "expired"})
		}
		kit.Check(sim.Acceptable(res.Answer, want), "the client is now at size %d and was told %v, want one of %v", now, res.Answer, want)
	case "sync":
		o := sim.OwnerState(w.Public, after, label)
		kit.Check(gone || sim.OwnerGreatest(o) >= len(w.Models[size].Labels[label])-1, "after synchronising with a server at size %d the owner knows of %+v, the log has %v", size, o, w.Models[size].Labels[label])
	}
}

func TestCheck(t *testing.T) {
	r := kit.Start("C22", "model_checking", "every history of batches up to the depth x every client that could have come about x every request x the log growing by one or two entries before any storage operation of the server")
	defer r.Finish()
	r.Assume("every single storage operation is atomic, as is a commit")
	r.Sample(map[string]any{"history": "put A; put A twice; remove nothing", "request": "contact monitoring of A at size 2", "growth": "one entry before the third storage read, one before the fifth"})
	letters := []sim.Step{
		{},
		{Put: []sim.Put{{Label: "A", Count: 1}}},
		{Put: []sim.Put{{Label: "A", Count: 2}}},
		{Put: []sim.Put{{Label: "A", Count: 1}, {Label: "B", Count: 1}}},
		{Remove: []string{"A"}},
	}
	var hs []history
	depth := kit.Pick(r, 4, 5)
	var walk func(o sim.Opts, dt int64, steps []sim.Step)
	walk = func(o sim.Opts, dt int64, steps []sim.Step) {
		if len(steps) > 1 {
			hs = append(hs, history{o, 5000, slices.Clone(steps)})
		}
		if len(steps) == depth {
			return
		}
		for _, l := range letters {
			if len(steps) == 0 {
				l.DT = 0
			} else {
				l.DT = dt
			}
			if len(l.Remove) > 0 && len(steps) < 2 {
				continue
			}
			walk(o, dt, append(slices.Clone(steps), l))
		}
	}
	walk(sim.Opts{Window: 1000}, 600, nil)
	r.Parallel(len(hs), func(i int) { explore(t, r, hs[i], kit.Pick(r, 6, 12), len(hs[i].Steps) <= 3) })
	hs = nil
	depth = 3
	for _, m := range []structs.DeploymentMode{structs.ThirdPartyManagement, structs.ThirdPartyAuditing} {
		walk(sim.Opts{Window: 1000, Mode: m, Lag: 1 << 40}, 600, nil)
		walk(sim.Opts{Window: 1000, Mode: m, Lag: 1 << 40, Lifetime: 1500}, 600, nil)
	}
	r.Parallel(len(hs), func(i int) { explore(t, r, hs[i], 6, true) })
	updates(t, r)
	onDisk(t, r)
}

// update lets an owner create versions while the log grows by further steps
// during the server's work after they were sequenced. It returns the number of
// the server's storage operations in that time.
func update(t *testing.T, r *kit.Run, c updateCase) (n int) {
	r.Transition()
	r.Trace()
	r.Try(func() any { return c }, func() {
		kit.Bubble(t, func() {
			w := sim.NewWorld(sim.Config(sim.Opts{Window: 1000}))
			w.Run(c.Before)
			ph := sim.NewPhone()
			for _, op := range []sim.Action{{Op: "search", Label: "A", Search: -1}, {Op: "init", Label: "A"}} {
				res := sim.Do(w.Public, w.Server(w.Size()), ph, op)
				kit.Check(res.Kind == "done", "%v: %v", op, res)
			}
			w.Run(c.Missed)
			seq := sim.NewSequencer(w)
			size := w.Size()
			store, grow, ops := w.GrowOnDemand(size)
			srv, err := transparency.NewTree(w.Config, store, seq.Ch)
			kit.NoErr(err, "opening the log")
			var values []string
			for i := range c.Values {
				values = append(values, fmt.Sprint("value ", i))
			}
			st, res := sim.StartUpdate(w.Public, srv, ph, "A", values)
			kit.Check(st != nil, "starting an update: %v", res)
			for st.Read() {
			}
			kit.Check(seq.Take(), "the update was not submitted: %v", st)
			late := seq.Seal(600, nil, false)
			kit.Check(len(late) == 1, "%d answers to one request", len(late))
			pos := size
			var removed error
			for _, s := range c.After {
				if removed = w.Apply(s); removed != nil {
					kit.Check(len(s.Remove) > 0, "sequencing %v: %v", s, removed)
				}
			}
			*ops = 0
			grow(0, pos+1)
			for _, j := range c.Grow {
				grow(j.At, min(pos+1+j.Size, w.Size()))
			}
			late[0]()
			st.Drain()
			kit.Check(st.Closed && st.Refused == nil, "an update: %v", st)
			if !w.Model().Gone["A"] {
				kit.Check(st.Err == nil, "an update: %v", st)
				found := 0
				for _, x := range st.Responses {
					if x.Position == pos {
						found++
						kit.Check(len(x.Info) == c.Values && len(x.Values) == 0, "the response for the owner's versions has %d values and information about %d", len(x.Values), len(x.Info))
					}
				}
				kit.Check(found == 1, "%d responses for the entry %d that has the new versions", found, pos)
				now := sizeOf(w, ph)
				kit.Check(now > pos, "the versions are in entry %d, the client is at size %d", pos, now)
				kit.Check(sim.OwnerCurrent(w, ph, "A"), "the owner doesn't know of every version in a log of size %d: %+v", now, sim.OwnerState(w.Public, ph, "A"))
			}
			if now := sizeOf(w, ph); !w.Models[now].Gone["A"] {
				sim.CheckView(w, ph)
			}
			r.State(fmt.Sprint(c, ph.Dump()))
			r.Outcome(fmt.Sprintf("update: %d responses, error %v", len(st.Responses), st.Err != nil))
			n = *ops
			time.Sleep(time.Hour)
		})
	})
	return n
}

// updateCase is an update and what else happens to the log.
type updateCase struct {
	Before, Missed, After []sim.Step
	Values                int
	Grow                  []sim.Jump // entries after the one with the update
}

func updates(t *testing.T, r *kit.Run) {
	put := func(n int) sim.Step { return sim.Step{DT: 600, Put: []sim.Put{{Label: "A", Count: n}}} }
	none := sim.Step{DT: 600}
	other := sim.Step{DT: 600, Put: []sim.Put{{Label: "B", Count: 1}}}
	gone := sim.Step{DT: 600, Remove: []string{"A"}}
	var cs []updateCase
	for _, before := range [][]sim.Step{{none, none}, {put(1), none}, {put(2), other, put(1)}, {none, put(1), none, none, put(4)}} {
		for _, missed := range [][]sim.Step{nil, {none}, {put(1)}, {put(1), none, put(2)}} {
			for _, after := range [][]sim.Step{{none}, {put(1)}, {put(2), other}, {none, put(1)}, {put(1), put(1)}, {none, none, gone}, {none, none, gone, put(1)}} {
				for values := 1; values <= 3; values++ {
					cs = append(cs, updateCase{before, missed, after, values, nil})
				}
			}
		}
	}
	r.Parallel(len(cs), func(i int) {
		if r.Expired() {
			return
		}
		c := cs[i]
		n := update(t, r, c)
		for a := 1; a <= n; a++ {
			m := 0
			for first := 1; first <= len(c.After); first++ {
				c.Grow = []sim.Jump{{At: a, Size: uint64(first)}}
				m = update(t, r, c)
				if first < len(c.After) && (!r.Quick() || a < 12) {
					for b := a + 1; b <= m; b++ {
						c.Grow = []sim.Jump{{At: a, Size: uint64(first)}, {At: b, Size: uint64(len(c.After))}}
						update(t, r, c)
					}
				}
			}
		}
	})
}
