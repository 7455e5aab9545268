package c11

import (
	"fmt"
	"maps"
	"slices"
	"testing"
	"time"

	"katiemc/kit"
	"katiemc/ref"
	"katiemc/sim"
)

// lie is what an operator does to an honest history of label A: between two
// entries it hides a version or shows another value for it.
type lie struct {
	Updates  []uint64 // entry of each version
	Version  uint32
	From, To uint64
	Swap     bool
}

func value(v uint32) string { return fmt.Sprintf("A#%d", v) }

func contents(n uint64, l *lie) []map[uint32]string {
	out := make([]map[uint32]string, n)
	for x := uint64(0); x < n; x++ {
		out[x] = map[uint32]string{}
		for v, at := range l.Updates {
			if at > x {
				continue
			}
			ver := uint32(v)
			switch {
			case ver != l.Version || x < l.From || x > l.To:
				out[x][ver] = value(ver)
			case l.Swap:
				out[x][ver] = "swapped"
			}
		}
	}
	return out
}

// ladder is the set of versions that shows that ver exists and versions up to
// it are in place: 0, 1, 3, 7, ... and the bisection towards ver.
func ladder(ver uint32) []uint32 {
	out := []uint32{}
	lo, hi := uint32(0), uint32(1)
	for v := uint32(0); ; v = 2*v + 1 {
		if v > ver {
			hi = v
			break
		}
		out = append(out, v)
		lo = v
	}
	for lo+1 < hi {
		mid := lo + (hi-lo)/2
		if mid <= ver {
			out = append(out, mid)
			lo = mid
		} else {
			hi = mid
		}
	}
	return out
}

// lookup is an accepted search: from then on every entry the client is shown
// on the way to the next distinguished entry must still have the version.
type lookup struct {
	Size    uint64
	Version uint32
	Value   string
	Known   map[uint32]string // values of the versions in its ladder
	Later   bool              // another lookup of the label was accepted since
}

type client struct {
	phone   *sim.Phone
	lookups []lookup
}

func (c *client) key() string { return fmt.Sprintf("%s|%v", c.phone.Dump(), c.lookups) }

// holds reports whether the log at size n is one that the lookup does not give
// away as changed: see the property. The entry that the search ended at is any
// one with the version, but not one to the right of a greater version unless
// the operator lied about something in between (which can lead a search there).
func holds(l *sim.Liar, li *lie, dist []bool, n uint64, k lookup) bool {
	for x := uint64(0); x < k.Size; x++ {
		if l.Has[x][k.Version] == k.Value {
			ok := true
			if !dist[x] {
				for _, y := range ref.RightPath(x, n) {
					ok = ok && shows(l.Has[y], k, y)
					if dist[y] {
						break
					}
				}
			}
			if ok {
				return true
			}
		}
		honest := li.From > li.To || li.To < x || li.From >= k.Size
		greater := false
		for v := range l.Has[x] {
			greater = greater || v > k.Version
		}
		if greater && honest {
			break
		}
	}
	return false
}

func shows(has map[uint32]string, k lookup, y uint64) bool {
	for v := range has {
		if v < k.Version || v == k.Version && has[v] != k.Value {
			continue
		}
		if y < k.Size || k.Later {
			return true
		}
		ok := true
		for _, w := range ladder(v) {
			val, there := has[w]
			ok = ok && there
			if known, any := k.Known[w]; any && v == k.Version {
				ok = ok && known == val
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// unsettled reports whether an owner is still after a version it looked up:
// owner monitoring takes several steps, and until it has been through the next
// distinguished entry either the version is still monitored or that entry is
// refused.
func unsettled(l *sim.Liar, phone *sim.Phone, k lookup, max int) bool {
	d := phone.Copy()
	defer func(stop int) { l.Stop = stop }(l.Stop)
	l.Stop = -1
	for _, e := range sim.LabelState(l.Public, d, "A").Contact {
		if e.Version >= k.Version {
			return true
		}
	}
	for range max {
		l.Owner = sim.OwnerState(l.Public, d, "A")
		switch sim.Do(l.Public, l, d, sim.Action{Op: "monitor"}).Kind {
		case "refused", "unserved":
			return true
		case "done":
		default:
			return false
		}
	}
	return false
}

// lieop is what a client does and after how many proofs the operator ends owner
// monitoring (-1 for never).
type lieop struct {
	sim.Action
	Stop int
}

func exploreLie(t *testing.T, r *kit.Run, o sim.Opts, start int64, dts []int64, n uint64, li *lie, ops []lieop, max int) {
	if r.Expired() {
		return
	}
	r.Trace()
	var at string
	r.Try(func() any {
		return map[string]any{"opts": o, "start": start, "dts": dts, "size": n, "lie": li, "at": at}
	}, func() {
		kit.Bubble(t, func() {
			time.Sleep(time.Duration(start) * time.Millisecond)
			times := make([]uint64, n)
			for x := range times {
				time.Sleep(time.Duration(dts[x%len(dts)]) * time.Millisecond)
				times[x] = uint64(time.Now().UnixMilli())
			}
			c := sim.Config(o)
			l := sim.NewLiar(c, "A", times, contents(n, li))
			l.Index = li.Updates
			honest := li.From > li.To
			nodes := map[string]*client{"": {phone: sim.NewPhone()}}
			for size := uint64(1); size <= n; size++ {
				l.Size = size
				dist := ref.Distinguished(times[:size], c.ReasonableMonitoringWindow)
				next := map[string]*client{}
				for _, k := range slices.Sorted(maps.Keys(nodes)) {
					if len(next) < max {
						next[k] = nodes[k]
					}
				}
				for _, k := range slices.Sorted(maps.Keys(nodes)) {
					nd := nodes[k]
					for _, op := range ops {
						at = fmt.Sprintf("size %d, %v (operator stops after %d) by a client with lookups %v", size, op, op.Stop, nd.lookups)
						r.Transition()
						c := &client{nd.phone.Copy(), slices.Clone(nd.lookups)}
						l.Owner = sim.OwnerState(l.Public, nd.phone, "A")
						l.Stop = op.Stop
						res := sim.Do(l.Public, l, c.phone, op.Action)
						r.Outcome("lying log: " + op.Op + " " + res.Kind)
						if honest && l.Owner == nil {
							kit.Check(res.Kind != "refused" && res.Kind != "unserved", "%v at size %d of an honest log by a client with lookups %v: %v", op, size, nd.lookups, res)
						}
						if res.Kind != "done" || res.Answer.Kind == "notfound" {
							continue
						}
						if op.Op == "search" {
							for i := range c.lookups {
								c.lookups[i].Later = true
							}
							k := lookup{Size: size, Version: res.Answer.Version, Value: res.Answer.Value, Known: map[uint32]string{}}
							for _, v := range ladder(k.Version) {
								for x := int(size) - 1; x >= 0; x-- {
									if val, ok := l.Has[x][v]; ok {
										k.Known[v] = val
										break
									}
								}
							}
							c.lookups = append(c.lookups, k)
						} else if op.Op == "monitor" {
							owner := l.Owner != nil
							for _, k := range c.lookups {
								if owner && !holds(l, li, dist, size, k) && unsettled(l, c.phone, k, int(size)) {
									r.Outcome("lying log: an owner finds out when monitoring again")
								} else if !holds(l, li, dist, size, k) {
									kit.Failf("a client that looked up %v accepts monitoring at size %d, but the log does not show this version any more: %v (distinguished: %v)", k, size, l.Has[:size], dist)
								}
							}
							r.Outcome("lying log: accepted lookups still hold")
						}
						if len(next) < max && len(c.lookups) <= 2 {
							next[c.key()] = c
						}
					}
				}
				nodes = next
				for _, k := range slices.Sorted(maps.Keys(nodes)) {
					r.State(fmt.Sprint(o, dts, n, li, size, k))
				}
			}
		})
	})
}
