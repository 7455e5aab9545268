package c11

import (
	"fmt"
	"testing"
	"time"

	"katiemc/kit"
	"katiemc/ref"
	"katiemc/sim"
)

// many has a client look a label up at every entry, each time with a new
// version, and monitor at some sizes only, with hundreds of entries to monitor.
// Or only at some entries, whose paths then have fewer entries in common. The
// client may own the label too, as far as it was told.
func many(t *testing.T, r *kit.Run, o sim.Opts, start int64, every int, owned bool, sizes []int) {
	if r.Expired() {
		return
	}
	r.Trace()
	var at string
	r.Try(func() any {
		return map[string]any{"options": o, "start": start, "every": every, "owned": owned, "at": at}
	}, func() {
		kit.Bubble(t, func() {
			w := sim.NewWorld(sim.Config(o))
			time.Sleep(time.Duration(start) * time.Millisecond)
			nd := &node{sim.NewPhone(), map[string]int64{}}
			for i := 0; len(sizes) > 0; i++ {
				at = fmt.Sprintf("size %d", i+1)
				step := sim.Step{DT: 300}
				if i%every == 0 {
					step.Put = []sim.Put{{Label: "A", Count: 1}}
				}
				kit.NoErr(w.Apply(step), "sequencing")
				if owned {
					op := "init"
					if sim.OwnerState(w.Public, nd.phone, "A") != nil {
						op = "sync"
					}
					res := sim.Do(w.Public, w.Server(w.Size()), nd.phone, sim.Action{Op: op, Label: "A"})
					r.Outcome("many: " + op + " " + res.Kind)
					kit.Check(res.Kind == "done" || op == "init" && res.Kind == "unable", "%s: %v", op, res)
					sim.CheckOwner(w, nd.phone, "A")
				}
				res := sim.Do(w.Public, w.Server(w.Size()), nd.phone, sim.Action{Op: "search", Label: "A", Search: -1})
				kit.Check(res.Kind == "done" && res.Answer.Kind == "value" && int(res.Answer.Version) == i/every, "searching: %v", res)
				nd.looked["A"] = int64(i / every)
				check(w, nd)
				r.Transition()
				r.State(fmt.Sprint(o, start, every, owned, nd.key()))
				if i+1 != sizes[0] {
					continue
				}
				sizes = sizes[1:]
				dle := ref.RightmostTrue(ref.Distinguished(w.Model().Times, w.Config.ReasonableMonitoringWindow))
				d := &node{nd.phone.Copy(), nd.looked}
				for k := 0; ; k++ {
					n := 0
					if ls := sim.LabelState(w.Public, d.phone, "A"); ls != nil {
						n = len(ls.Contact)
					}
					at = fmt.Sprintf("monitoring %d entries at size %d, request %d", n, i+1, k)
					res := sim.Do(w.Public, w.Server(w.Size()), d.phone, sim.Action{Op: "monitor"})
					r.Transition()
					if res.Kind == "nothing" || res.Kind == "unable" && dle < 0 {
						break
					}
					r.Outcome("many: " + res.Kind)
					kit.Check(res.Kind == "done" && k < 100, "%v", res)
					check(w, d)
					sim.CheckOwner(w, d.phone, "A")
				}
				// Every entry up to the rightmost distinguished one is taken care of.
				ls := sim.LabelState(w.Public, d.phone, "A")
				for i := 0; ls != nil && i < len(ls.Contact); i++ {
					e := ls.Contact[i]
					kit.Check(dle < 0 || e.Position > uint64(dle), "no label is recommended for monitoring, but %q at entry %d is covered by the distinguished entry %d", "A", e.Position, dle)
				}
				if owned && dle >= 0 && sim.OwnerState(w.Public, d.phone, "A") != nil {
					kit.Check(sim.OwnerState(w.Public, d.phone, "A").Starting == uint64(dle), "the owner stopped monitoring before the distinguished entry %d: %+v", dle, sim.OwnerState(w.Public, d.phone, "A"))
				}
			}
		})
	})
}
