package c12

import (
	"fmt"
	"maps"
	"slices"
	"testing"
	"time"

	"katiemc/kit"
	"katiemc/ref"
	"katiemc/sim"

	"github.com/Bren2010/katie/tree/transparency/structs"
)

// lie is what an operator does to an honest history of label A between two
// entries: it hides a version, shows another value for it, or adds one that
// the owner doesn't know about (yet).
type lie struct {
	Updates  []uint64 // entry of each version
	Version  uint32
	From, To uint64
	Kind     string // none, hide, swap, foreign, early
}

func value(v uint32) string { return fmt.Sprintf("A#%d", v) }

func contents(n uint64, l *lie) []map[uint32]string {
	out := make([]map[uint32]string, n)
	for x := uint64(0); x < n; x++ {
		out[x] = map[uint32]string{}
		for v, at := range l.Updates {
			if at <= x {
				out[x][uint32(v)] = value(uint32(v))
			}
		}
		if x < l.From || x > l.To {
			continue
		}
		_, there := out[x][l.Version]
		switch {
		case l.Kind == "hide":
			delete(out[x], l.Version)
		case l.Kind == "swap" && there, l.Kind == "foreign" && !there:
			out[x][l.Version] = l.Kind
		case l.Kind == "early" && !there:
			out[x][l.Version] = value(l.Version)
		}
	}
	return out
}

// client is an owner and the values it was shown in the distinguished entries
// it went past.
type client struct {
	phone *sim.Phone
	shown map[uint32]string
}

func (c *client) key() string { return fmt.Sprintf("%s|%v", c.phone.Dump(), c.shown) }

// expected is the version the owner expects in entry x.
func expected(o *structs.LabelOwnerState, x uint64) int {
	g := o.VerAtStarting
	for _, at := range o.UpcomingVers {
		if at <= x {
			g++
		}
	}
	return g
}

// past checks that entry x has what the owner expects.
func past(l *sim.Liar, c *client, x uint64, g int) {
	has := l.Has[x]
	_, more := has[uint32(g+1)]
	kit.Check(!more, "the owner expects version %d in the distinguished entry %d and goes past it, but the entry has %v", g, x, has)
	if g < 0 {
		return
	}
	v, there := has[uint32(g)]
	kit.Check(there, "the owner expects version %d in the distinguished entry %d and goes past it, but the entry has %v", g, x, has)
	if was, ok := c.shown[uint32(g)]; ok {
		kit.Check(was == v, "the owner was shown %q as version %d and goes past the distinguished entry %d, which has %v", was, g, x, has)
	}
	c.shown[uint32(g)] = v
}

// claimed checks that a label was not cut back before the owner claimed it.
func claimed(l *sim.Liar, times []uint64, lifetime uint64, o *structs.LabelOwnerState) {
	for _, x := range ref.Path(o.Starting, uint64(len(times))) {
		if x > o.Starting || lifetime > 0 && times[len(times)-1]-times[x] >= lifetime {
			continue
		}
		g := 0
		for ; g <= len(l.Has[x]); g++ {
			if _, ok := l.Has[x][uint32(g)]; !ok {
				break
			}
		}
		kit.Check(g-1 <= o.VerAtStarting, "the owner claims the label in entry %d with version %d, but entry %d before it has %v", o.Starting, o.VerAtStarting, x, l.Has[x])
	}
}

type op struct {
	sim.Action
	Stop  int
	Claim bool // the operator claims the versions that the owner is told later
}

func exploreLie(t *testing.T, r *kit.Run, o sim.Opts, start int64, dts []int64, n uint64, li *lie, ops []op, max int) {
	if r.Expired() {
		return
	}
	r.Trace()
	var at string
	r.Try(func() any {
		return map[string]any{"opts": o, "start": start, "dts": dts, "size": n, "lie": li, "at": at}
	}, func() {
		kit.Bubble(t, func() {
			time.Sleep(time.Duration(start) * time.Millisecond)
			times := make([]uint64, n)
			for x := range times {
				time.Sleep(time.Duration(dts[x%len(dts)]) * time.Millisecond)
				times[x] = uint64(time.Now().UnixMilli())
			}
			l := sim.NewLiar(sim.Config(o), "A", times, contents(n, li))
			l.Index = li.Updates
			nodes := map[string]*client{"": {sim.NewPhone(), map[uint32]string{}}}
			for size := uint64(1); size <= n; size++ {
				l.Size = size
				dist := ref.Distinguished(times[:size], o.Window)
				next := map[string]*client{}
				var work []*client
				push := func(c *client) {
					if k := c.key(); next[k] == nil && len(next) < max {
						next[k] = c
						work = append(work, c)
					}
				}
				for _, k := range slices.Sorted(maps.Keys(nodes)) {
					push(nodes[k])
				}
				for len(work) > 0 {
					nd := work[0]
					work = work[1:]
					r.State(fmt.Sprint(o, start, dts, n, li, size, nd.key()))
					for _, op := range ops {
						before := sim.OwnerState(l.Public, nd.phone, "A")
						at = fmt.Sprintf("size %d, %v (operator stops after %d, claims %v) by an owner that knows %+v", size, op, op.Stop, op.Claim, before)
						r.Transition()
						c := &client{nd.phone.Copy(), maps.Clone(nd.shown)}
						l.Owner, l.Stop, l.Claim = before, op.Stop, op.Claim
						res := sim.Do(l.Public, l, c.phone, op.Action)
						r.Outcome("lying log: " + op.Op + " " + res.Kind)
						if li.Kind == "none" && op.Stop < 0 {
							kit.Check(res.Kind != "refused", "%v at size %d of an honest log: %v", op, size, res)
						}
						if res.Kind == "unable" || res.Kind == "nothing" {
							continue
						}
						after := sim.OwnerState(l.Public, c.phone, "A")
						switch {
						case after == nil:
						case before == nil:
							past(l, c, after.Starting, after.VerAtStarting)
							claimed(l, times[:size], o.Lifetime, after)
						default:
							for x := before.Starting + 1; x <= after.Starting; x++ {
								if dist[x] {
									past(l, c, x, expected(before, x))
								}
							}
							for i := len(before.UpcomingVers); op.Op == "sync" && i < len(after.UpcomingVers); i++ {
								learned(l, dist, after, i)
							}
						}
						push(c)
					}
				}
				nodes = next
			}
		})
	})
}

// learned checks what an owner may conclude from being told of the i-th
// upcoming version.
func learned(l *sim.Liar, dist []bool, o *structs.LabelOwnerState, i int) {
	ver := uint32(o.VerAtStarting + 1 + i)
	pos := o.UpcomingVers[i]
	kit.Check(pos < l.Size && pos > o.Starting, "the owner learned that version %d appeared in entry %d, it is at %+v", ver, pos, o)
	if i > 0 {
		kit.Check(pos >= o.UpcomingVers[i-1], "the owner learned versions out of order: %+v", o)
	}
	last := i
	for last+1 < len(o.UpcomingVers) && o.UpcomingVers[last+1] == pos {
		last++
	}
	has := l.Has[pos]
	if !dist[pos] {
		kit.Check(has[ver] == l.Told(ver), "the owner learned that version %d (%q) appeared in entry %d, which has %v", ver, l.Told(ver), pos, has)
		_, more := has[uint32(o.VerAtStarting+1+last)+1]
		kit.Check(!more, "the owner learned that entry %d has versions up to %d, but it has %v", pos, o.VerAtStarting+1+last, has)
	}
	// Nothing unknown came before.
	if i > 0 && o.UpcomingVers[i-1] == pos {
		return
	}
	before := o.Starting
	if i > 0 {
		before = o.UpcomingVers[i-1]
	}
	if x := pos - 1; !dist[x] && x > before {
		_, early := l.Has[x][ver]
		kit.Check(!early, "the owner learned that version %d appeared in entry %d, but it was in entry %d already: %v", ver, pos, x, l.Has[x])
	}
}
