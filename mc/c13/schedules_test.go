package c13

import (
	"fmt"
	"slices"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"katiemc/kit"
	"katiemc/sim"

	"github.com/Bren2010/katie/tree/transparency/structs"
)

// actor is a client with an update to make.
type actor struct {
	Label  string
	Values int
	Sync   bool // doesn't know of the label's latest version
}

type setup struct {
	Actors []actor
	Mode   structs.DeploymentMode
}

// attempt is what is known about an actor's update.
type attempt struct {
	actor
	phone     *sim.Phone
	st        *sim.Stream
	values    []string
	submitted int
	pos       []uint64 // entries its values are in
	failed    bool
	cancelled bool
	abandoned bool // cancelled, and nobody reads the stream anymore
}

// run executes a schedule and finishes everything that is under way after it.
// It returns the events that are possible after the schedule, unless there
// can't be more.
func run(t *testing.T, r *kit.Run, s setup, sched []string) (enabled []string) {
	r.Trace()
	r.Try(func() any { return map[string]any{"setup": s, "schedule": sched} }, func() {
		enabled = nil
		kit.Bubble(t, func() {
			w := sim.NewWorld(sim.Config(sim.Opts{Window: 1000, Mode: s.Mode}))
			w.Run([]sim.Step{{Put: []sim.Put{{Label: "A", Count: 1}, {Label: "B", Count: 1}}}, {DT: 500}})
			seq := sim.NewSequencer(w)
			var as []*attempt
			for _, a := range s.Actors {
				x := &attempt{actor: a, phone: sim.NewPhone()}
				for _, op := range []sim.Action{{Op: "search", Label: a.Label, Search: -1}, {Op: "init", Label: a.Label}} {
					res := sim.Do(w.Public, seq.Server(), x.phone, op)
					kit.Check(res.Kind == "done", "%v: %v", op, res)
				}
				as = append(as, x)
			}
			seq.Seal(400, []sim.Put{{Label: "A", Count: 1}}, true)
			for i, x := range as {
				if !x.Sync && x.Label == "A" {
					res := sim.Do(w.Public, seq.Server(), x.phone, sim.Action{Op: "sync", Label: "A"})
					kit.Check(res.Kind == "done", "synchronising: %v", res)
				}
				for j := range x.Values {
					x.values = append(x.values, fmt.Sprintf("actor %d value %d", i, j))
				}
			}
			// owner finds who made a submitted request.
			owner := func(label, first string) *attempt {
				for _, x := range as {
					if x.Label == label && len(x.values) > 0 && x.values[0] == first {
						return x
					}
				}
				return nil
			}
			take := func() bool {
				if !seq.Take() {
					return false
				}
				q := seq.Taken[len(seq.Taken)-1]
				kit.Check(len(q.Values) > 0, "a request without values was submitted")
				x := owner(string(q.Label), string(q.Values[0].Value))
				kit.Check(x != nil && len(q.Values) == len(x.values), "a request for %q with %d values was submitted", q.Label, len(q.Values))
				for j, v := range q.Values {
					kit.Check(string(v.Value) == x.values[j], "value %d was submitted as %q, not %q", j, v.Value, x.values[j])
				}
				x.submitted++
				kit.Check(x.submitted == 1, "an update was submitted twice")
				kit.Check(x.st != nil, "an update was submitted before it was asked for")
				return true
			}
			seal := func(answer bool) []func() {
				pos := w.Size()
				late := seq.Seal(300, nil, answer)
				for _, q := range seq.Sealed {
					x := owner(string(q.Label), string(q.Values[0].Value))
					x.pos = append(x.pos, pos)
				}
				for _, q := range seq.Rejected {
					owner(string(q.Label), string(q.Values[0].Value)).failed = true
				}
				return late
			}
			start := func(x *attempt) {
				srv := seq.Server()
				st, res := sim.StartUpdate(w.Public, srv, x.phone, x.Label, x.values)
				kit.Check(st != nil, "starting an update: %v", res)
				x.st = st
			}
			unanswered := []func(){}
			for _, e := range sched {
				r.Transition()
				kind, arg, _ := strings.Cut(e, " ")
				i := 0
				fmt.Sscan(arg, &i)
				switch kind {
				case "start":
					start(as[i])
				case "read":
					as[i].st.Read()
				case "cancel", "abandon":
					as[i].st.Cancel()
					as[i].cancelled = true
					as[i].abandoned = kind == "abandon"
				case "take":
					take()
				case "seal":
					seal(true)
				case "sealquietly":
					unanswered = append(unanswered, seal(false)...)
				case "answer":
					if len(unanswered) == 0 {
						break
					}
					unanswered[0]()
					unanswered = unanswered[1:]
				case "fail":
					if len(seq.Taken) == 0 {
						break
					}
					q := seq.Taken[0]
					owner(string(q.Label), string(q.Values[0].Value)).failed = true
					seq.Fail()
				}
				// One event at a time, so that a schedule has one outcome.
				synctest.Wait()
			}
			// What could happen next?
			for i, x := range as {
				if x.st == nil {
					enabled = append(enabled, fmt.Sprint("start ", i))
				} else {
					if !x.abandoned && !x.st.Closed && len(x.st.Responses) < 3 {
						enabled = append(enabled, fmt.Sprint("read ", i))
					}
					if !x.cancelled && !x.st.Closed {
						enabled = append(enabled, fmt.Sprint("cancel ", i), fmt.Sprint("abandon ", i))
					}
				}
			}
			enabled = append(enabled, "take")
			if len(seq.Taken) > 0 {
				enabled = append(enabled, "seal", "sealquietly", "fail")
			}
			if len(unanswered) > 0 {
				enabled = append(enabled, "answer")
			}
			// Everything comes to an end.
			for _, x := range as {
				if x.st == nil {
					start(x)
				}
			}
			for round := 0; ; round++ {
				kit.Check(round < 20, "updates do not come to an end")
				for _, x := range as {
					if x.abandoned {
						synctest.Wait()
						continue
					}
					x.st.Drain()
					kit.Check(!x.cancelled || x.st.Closed, "a cancelled update is still going on: %v", x.st)
				}
				for take() {
				}
				sealed := len(seq.Taken) > 0
				if sealed {
					unanswered = append(unanswered, seal(false)...)
				}
				if !sealed && len(unanswered) == 0 {
					break
				}
				for _, f := range unanswered {
					f()
				}
				unanswered = nil
			}
			time.Sleep(time.Hour)
			for _, x := range as {
				judge(w, x)
				r.Outcome(fmt.Sprintf("submitted %d sequenced %d failed %v cancelled %v responses %d error %v", x.submitted, len(x.pos), x.failed, x.cancelled, len(x.st.Responses), x.st.Err != nil))
			}
		})
	})
	return enabled
}

// judge checks the outcome of an update.
func judge(w *sim.World, x *attempt) {
	st := x.st
	kit.Check(st.Closed || x.abandoned, "the stream was not closed: %v", st)
	kit.Check(st.Refused == nil, "the client refused a response: %v", st)
	var all []string
	for _, v := range w.Model().Labels[x.Label] {
		all = append(all, v.Value)
	}
	n := 0
	for i := range all {
		if len(x.values) > 0 && i+len(x.values) <= len(all) && slices.Equal(all[i:i+len(x.values)], x.values) {
			n++
		}
	}
	kit.Check(n == len(x.pos) && n <= 1, "the values are %d times in the log", n)
	sim.CheckOwner(w, x.phone, x.Label)
	if x.cancelled {
		return
	}
	switch {
	case x.failed:
		kit.Check(st.Err != nil, "sequencing failed, but the server reports no error: %v", st)
	default:
		kit.Check(x.submitted == 1 && n == 1, "the update was not sequenced: %v", st)
		kit.Check(st.Err == nil, "the update was sequenced, but: %v", st)
		got := 0
		for _, r := range st.Responses {
			if r.Position == x.pos[0] {
				got++
			}
		}
		kit.Check(got == 1, "the update was answered %d times", got)
		kit.Check(sim.OwnerGreatest(sim.OwnerState(w.Public, x.phone, x.Label)) >= w.Models[x.pos[0]+1].GreatestAt(x.Label, x.pos[0]), "the owner doesn't know of its own versions: %v", st)
	}
}

func schedules(t *testing.T, r *kit.Run) {
	setups := []setup{
		{Actors: []actor{{"A", 1, true}}},
		{Actors: []actor{{"A", 2, false}, {"B", 1, false}}},
		{Actors: []actor{{"A", 1, false}, {"A", 2, true}}},
		{Actors: []actor{{"A", 3, false}, {"A", 1, true}}, Mode: structs.ThirdPartyManagement},
	}
	for i, s := range setups {
		depth := kit.Pick(r, 7, 9)
		if i == 0 {
			depth += 2
		}
		level := [][]string{{}}
		for d := 0; d <= depth && len(level) > 0; d++ {
			next := make([][][]string, len(level))
			r.Parallel(len(level), func(k int) {
				if r.Expired() {
					return
				}
				r.State(fmt.Sprint(s, level[k]))
				for _, e := range run(t, r, s, level[k]) {
					// Events that cannot be told apart from nothing happening.
					next[k] = append(next[k], append(slices.Clone(level[k]), e))
				}
			})
			level = slices.Concat(next...)
			r.Count(fmt.Sprintf("schedules_setup%d", i), int64(len(level)))
		}
	}
}
