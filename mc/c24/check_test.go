// C24: a storage failure costs the request at hand and nothing else.
package c24

import (
	"fmt"
	"maps"
	"slices"
	"testing"
	"time"

	"katiemc/kit"
	"katiemc/sim"

	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

type history struct {
	Opts  sim.Opts
	Start int64 // milliseconds before the first entry
	Steps []sim.Step
}

var actions = []sim.Action{
	{Op: "search", Label: "A", Search: -1}, {Op: "search", Label: "A", Search: 0}, {Op: "search", Label: "A", Search: 1},
	{Op: "search", Label: "B", Search: -1}, {Op: "search", Label: "Z", Search: -1},
	{Op: "init", Label: "A"}, {Op: "sync", Label: "A"}, {Op: "monitor"},
}

// outcome is what became of a request, and the client afterwards.
type outcome struct {
	res   sim.Result
	after string
}

func (o outcome) String() string {
	return fmt.Sprintf("%v %q %d %v", o.res.Kind, o.res.Label, o.res.Updates, o.res.Answer)
}

// state renders what a client stores; the order of versions means nothing.
func state(w *sim.World, ph *sim.Phone) string {
	ph = ph.Copy()
	for l, rec := range ph.Labels {
		ls := sim.LabelState(w.Public, ph, l)
		slices.SortFunc(ls.Versions, func(a, b structs.RetainedVersion) int { return int(a.Version) - int(b.Version) })
		rec.Raw = sim.Encode(ls)
		ph.Labels[l] = rec
	}
	return ph.Dump()
}

func same(a, b outcome) bool {
	return a.String() == b.String() && a.after == b.after
}

// explore has a log of some history serve each client that could have come
// about along the way, with one storage operation failing.
func explore(t *testing.T, r *kit.Run, h history, max int, deep bool) {
	if r.Expired() {
		return
	}
	r.Trace()
	var at string
	r.Try(func() any { return map[string]any{"history": h, "at": at} }, func() {
		kit.Bubble(t, func() {
			w := sim.NewWorld(sim.Config(h.Opts))
			if h.Opts.Mode == structs.ThirdPartyAuditing {
				w.Behind = 1
			}
			hist := fmt.Sprint(h.Opts, h.Start)
			time.Sleep(time.Duration(h.Start) * time.Millisecond)
			clients := map[string]*sim.Phone{"": sim.NewPhone()}
			for i, s := range h.Steps {
				hist += s.String()
				if err := w.Apply(s); err != nil {
					if len(s.Remove) > 0 {
						return // refused, see C14
					}
					kit.NoErr(err, "sequencing step %d (%v)", i, s)
				}
				if i == len(h.Steps)-1 {
					break
				}
				next := map[string]*sim.Phone{}
				var work []*sim.Phone
				push := func(ph *sim.Phone) {
					if k := ph.Dump(); next[k] == nil && len(next) < max {
						next[k] = ph
						work = append(work, ph)
					}
				}
				for _, k := range slices.Sorted(maps.Keys(clients)) {
					push(clients[k])
				}
				for len(work) > 0 {
					ph := work[0]
					work = work[1:]
					for _, op := range actions {
						c := ph.Copy()
						sim.Do(w.Public, w.Server(w.Size()), c, op)
						push(c)
					}
				}
				clients = next
			}
			for _, k := range slices.Sorted(maps.Keys(clients)) {
				for _, op := range actions {
					r.State(fmt.Sprint(hist, k, op))
					serverFails(r, w, clients[k], op, deep, &at)
					clientFails(r, w, clients[k], op, &at)
				}
				updateFails(r, w, clients[k], &at)
			}
		})
	})
}

func do(w *sim.World, srv *transparency.Tree, ph *sim.Phone, op sim.Action) outcome {
	res := sim.Do(w.Public, srv, ph, op)
	return outcome{res, state(w, ph)}
}

// damage is what a record that is read may have become.
var damage = []struct {
	name string
	f    func(v []byte) []byte
}{
	{"lost", func([]byte) []byte { return nil }},
	{"empty", func([]byte) []byte { return []byte{} }},
	{"cut short", func(v []byte) []byte { return v[:len(v)-1] }},
	{"cut in half", func(v []byte) []byte { return v[:len(v)/2] }},
	{"too long", func(v []byte) []byte { return append(v, 0) }},
	{"changed at the start", func(v []byte) []byte { return flip(v, 0) }},
	{"changed in the middle", func(v []byte) []byte { return flip(v, len(v)/2) }},
	{"changed at the end", func(v []byte) []byte { return flip(v, len(v)-1) }},
}

func flip(v []byte, i int) []byte {
	if len(v) > 0 {
		v[i] ^= 0xff
	}
	return v
}

// serverFails serves one request with each of the server's storage operations
// failing in turn, and then with each record it reads being damaged.
func serverFails(r *kit.Run, w *sim.World, ph *sim.Phone, op sim.Action, deep bool, at *string) {
	size := w.Size()
	good := ph.Copy()
	want := do(w, w.Server(size), good, op)
	if want.res.Kind == "unable" || want.res.Kind == "nothing" {
		return
	}
	store := w.Snaps[size].ReadOnly()
	n, k, hit := 0, 0, ""
	store.Fault = func(name string) error {
		if n++; n == k {
			hit = name
			return sim.ErrFault
		}
		return nil
	}
	// A server that has been there for a while, and one that is started.
	for _, fresh := range []bool{false, true} {
		n, k = 0, 0
		srv, err := transparency.NewTree(w.Config, store, nil)
		kit.NoErr(err, "opening the log")
		for k = 1; ; k++ {
			n, hit = 0, ""
			*at = fmt.Sprintf("%v: storage operation %d of the server fails (new server: %v)", op, k, fresh)
			r.Transition()
			c := ph.Copy()
			var got outcome
			if fresh {
				srv, err = transparency.NewTree(w.Config, store, nil)
				kit.Check(err == nil || hit != "", "opening the log: %v", err)
				if err != nil {
					r.Outcome("starting fails in " + hit)
					continue
				}
			}
			got = do(w, srv, c, op)
			if hit == "" {
				kit.Check(same(got, want), "no storage operation failed, but %v became %v, not %v", op, got, want)
				break
			}
			r.Outcome(op.Op + ": " + hit + " fails: " + got.res.Kind)
			switch got.res.Kind {
			case "unserved":
				kit.Check(op.Op == "sync" || got.after == state(w, ph), "%v failed and changed what the client stored", op)
			case "done":
				kit.Check(same(got, want), "%v became %v although %s failed, it should be %v", op, got, hit, want)
			default:
				kit.Failf("%s of the server fails: %v is %v", hit, op, got.res)
			}
			// The server goes on.
			stop := k
			k = 0
			if got.res.Kind == "unserved" && op.Op != "sync" {
				again := do(w, srv, c, op)
				kit.Check(same(again, want), "%s failed during %v; after that it became %v, not %v", hit, op, again, want)
			}
			for _, next := range actions {
				if !deep && next != op {
					continue
				}
				ref := do(w, w.Server(size), ph.Copy(), next)
				is := do(w, srv, ph.Copy(), next)
				kit.Check(same(ref, is), "%s failed during %v; after that %v became %v, not %v", hit, op, next, is, ref)
			}
			k = stop
		}
	}
	// Damaged records.
	store.Fault = nil
	for _, d := range damage {
		if op.Op == "sync" {
			break
		}
		for k = 1; ; k++ {
			n, hit = 0, ""
			store.Mangle = func(key string, v []byte) []byte {
				if n++; n == k {
					hit = key
					return d.f(v)
				}
				return v
			}
			*at = fmt.Sprintf("%v: record %d that the server reads is %s", op, k, d.name)
			r.Transition()
			got, err := damaged(w, store, ph.Copy(), op)
			if hit == "" {
				kit.NoErr(err, "opening the log")
				break
			} else if err != nil {
				r.Outcome("a record is " + d.name + ": the server can't work")
				continue
			}
			r.Outcome(op.Op + ": a record is " + d.name + ": " + got.res.Kind)
			if got.res.Kind == "done" && got.res.Answer.Kind == "value" {
				kit.Check(got.res.Answer == want.res.Answer, "record %q is %s: the client was told %v, not %v", hit, d.name, got.res.Answer, want.res.Answer)
			}
			if got.res.Kind != "done" {
				kit.Check(op.Op == "sync" || got.after == state(w, ph), "%v failed and changed what the client stored", op)
			}
		}
	}
}

// damaged serves a request from a store with damaged records. That may crash
// the server, it relies on the store to return what was written.
func damaged(w *sim.World, store *sim.Store, ph *sim.Phone, op sim.Action) (o outcome, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("crashed: %v", x)
		}
	}()
	srv, err := transparency.NewTree(w.Config, store, nil)
	if err != nil {
		return o, err
	}
	return do(w, srv, ph, op), nil
}

// clientFails lets each storage operation of the client fail in turn, and has
// it try again.
func clientFails(r *kit.Run, w *sim.World, ph *sim.Phone, op sim.Action, at *string) {
	srv := w.Server(w.Size())
	want := do(w, srv, ph.Copy(), op)
	for k := 1; ; k++ {
		*at = fmt.Sprintf("%v: storage operation %d of the client fails", op, k)
		r.Transition()
		c := ph.Copy()
		n, hit := 0, ""
		c.Fault = func(name string) error {
			if n++; n == k {
				hit = name
				return sim.ErrFault
			}
			return nil
		}
		got := do(w, srv, c, op)
		if hit == "" {
			return
		}
		r.Outcome(op.Op + ": the client's " + hit + " fails: " + got.res.Kind)
		kit.Check(got.res.Kind == "unable" || got.res.Kind == "refused", "%s of the client failed, %v is %v", hit, op, got.res)
		kit.Check(op.Op == "sync" || got.after == state(w, ph), "%s failed and what the client stored has changed", hit)
		c.Fault = nil
		sim.CheckOwner(w, c, "A")
		again := do(w, srv, c, op)
		if op.Op == "sync" {
			kit.Check(again.res.Kind == want.res.Kind && (want.res.Kind != "done" || again.after == want.after), "%s failed during %v; the second time it became %v, not %v", hit, op, again, want)
		} else {
			kit.Check(same(again, want), "%s failed during %v; the second time it became %v, not %v", hit, op, again, want)
		}
	}
}

// updateFails has an owner create a version with each of the server's storage
// operations failing in turn.
func updateFails(r *kit.Run, world *sim.World, ph *sim.Phone, at *string) {
	if sim.OwnerState(world.Public, ph, "A") == nil || world.Model().Gone["A"] {
		return
	}
	for _, late := range []bool{false, true} {
		for k := 1; ; k++ {
			*at = fmt.Sprintf("update of A: storage operation %d of the server fails (the log grows before the answer: %v)", k, late)
			r.Transition()
			w := world.Fork(world.Size())
			n, hit := 0, ""
			seq := sim.NewSequencer(w)
			seq.Fault = func(name string) error {
				if n++; n == k {
					hit = name
					return sim.ErrFault
				}
				return nil
			}
			c := ph.Copy()
			st, res := sim.StartUpdate(w.Public, seq.Server(), c, "A", []string{"new"})
			taken := false
			if res.Kind == "unable" {
				return // it is not allowed to update yet
			} else if res.Kind != "done" {
				kit.Check(res.Kind == "unserved" && hit != "", "the update is %v", res)
				kit.Check(state(w, c) == state(w, ph), "the update failed and changed what the client stored")
			} else {
				defer st.Cancel()
				for st.Read() && !st.Closed {
				}
				if taken = seq.Take(); taken {
					kit.Check(len(seq.Taken[0].Values) == 1 && string(seq.Taken[0].Values[0].Value) == "new" && string(seq.Taken[0].Label) == "A", "the wrong update was handed over")
					answer := seq.Seal(0, nil, false)
					if late {
						seq.Seal(0, []sim.Put{{Label: "B", Count: 1}}, false)
					}
					for _, f := range answer {
						f()
					}
				}
				st.Drain()
				kit.Check(!seq.Take(), "the update was handed over twice")
				kit.Check(st.Closed, "the server never ended the stream")
				kit.NoErr(st.Refused, "%s of the server fails: the client refused a response", hit)
				told := len(st.Responses) > 0 && taken && st.Err == nil
				kit.Check(hit != "" || told, "no storage operation failed, but %v", st)
				kit.Check(hit == "" || told || st.Err != nil, "%s of the server fails, but the client is told nothing: %v", hit, st)
			}
			r.Outcome(fmt.Sprintf("update: %s fails: %s, handed over: %v", hit, res.Kind, taken))
			sim.CheckOwner(w, c, "A")
			// The owner comes to know everything there is.
			n, seq.Fault = k, nil
			srv := w.Server(w.Size())
			for i := 0; ; i++ {
				got := sim.Do(w.Public, srv, c, sim.Action{Op: "sync", Label: "A"})
				kit.Check(got.Kind == "done", "after %s failed in an update, synchronising is %v", hit, got)
				if got.Updates == 0 {
					break
				}
				kit.Check(i < 10, "synchronising never ends")
			}
			sim.CheckOwner(w, c, "A")
			kit.Check(sim.OwnerCurrent(w, c, "A"), "after %s failed in an update, the owner doesn't learn all versions", hit)
			if hit == "" {
				break
			}
		}
	}
}

func TestCheck(t *testing.T) {
	r := kit.Start("C24", "fault_enumeration", "every history of batches up to the depth x every client that could have come about x every request x every single failing storage operation, or damaged record, of the server or the client")
	defer r.Finish()
	r.Sample(map[string]any{"history": "put A; put A twice; put nothing", "request": "owner monitoring of A", "failure": "the third storage read of the server"})
	letters := []sim.Step{
		{},
		{Put: []sim.Put{{Label: "A", Count: 1}}},
		{Put: []sim.Put{{Label: "A", Count: 2}}},
		{Put: []sim.Put{{Label: "A", Count: 1}, {Label: "B", Count: 1}}},
		{Remove: []string{"A"}},
	}
	var hs []history
	var walk func(o sim.Opts, depth int, dt int64, steps []sim.Step)
	walk = func(o sim.Opts, depth int, dt int64, steps []sim.Step) {
		if len(steps) > 0 {
			hs = append(hs, history{o, 5000, slices.Clone(steps)})
		}
		if len(steps) == depth {
			return
		}
		for _, l := range letters {
			if len(steps) > 0 {
				l.DT = dt
			}
			if len(l.Remove) > 0 && len(steps) < 2 {
				continue
			}
			walk(o, depth, dt, append(slices.Clone(steps), l))
		}
	}
	walk(sim.Opts{Window: 1000}, kit.Pick(r, 4, 5), 600, nil)
	for _, m := range []structs.DeploymentMode{structs.ThirdPartyManagement, structs.ThirdPartyAuditing} {
		walk(sim.Opts{Window: 1000, Mode: m, Lag: 1 << 40, Lifetime: 1500}, 3, 600, nil)
	}
	r.Count("histories", int64(len(hs)))
	r.Parallel(len(hs), func(i int) { explore(t, r, hs[i], kit.Pick(r, 5, 12), len(hs[i].Steps) <= 3) })
	onDisk(t, r)
	r.Assume("the store returns what was written, or an error; a damaged record may crash the server")
}
