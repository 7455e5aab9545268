package c09

import (
	"fmt"
	"slices"
	"testing"
	"time"

	"katiemc/kit"
	"katiemc/sim"

	katiemath "github.com/Bren2010/katie/tree/transparency/math"
)

// world is what an operator put into each entry of a log: the versions of one
// label and their values, told by the letter.
type world struct {
	Opts sim.Opts
	DT   int64
	Has  []string // e.g. "ab" for version 0 = a, version 1 = b; "-" for none
}

func (w world) contents() []map[uint32]string {
	var out []map[uint32]string
	for _, s := range w.Has {
		m := map[uint32]string{}
		for v, c := range s {
			if c != '-' {
				m[uint32(v)] = fmt.Sprintf("%d%c", v, c)
			}
		}
		out = append(out, m)
	}
	return out
}

// claim lets an operator claim every version and value with as much of a proof
// as there is, in every search of every client of a log.
func claim(t *testing.T, r *kit.Run, c world) {
	if r.Expired() {
		return
	}
	r.Trace()
	var at string
	r.Try(func() any { return map[string]any{"log": c, "at": at} }, func() {
		kit.Bubble(t, func() {
			has := c.contents()
			base := uint64(time.Now().UnixMilli())
			var times []uint64
			for x := range has {
				times = append(times, base+uint64(c.DT)*uint64(x))
			}
			time.Sleep(time.Duration(c.DT) * time.Millisecond * time.Duration(len(has)))
			l := sim.NewLiar(sim.Config(c.Opts), "A", times, has)
			n := l.Size
			// Whatever a version may be claimed to be.
			var values []string
			versions := uint32(0)
			honest := true
			for x, m := range has {
				for v, s := range m {
					versions = max(versions, v+1)
					if !slices.Contains(values, s) {
						values = append(values, s)
					}
					if x+1 < len(has) {
						honest = honest && has[x+1][v] == s
					}
				}
				for v := range uint32(len(m)) {
					honest = honest && m[v] != ""
				}
			}
			slices.Sort(values)
			values = append(values, "other")
			phones := []*sim.Phone{sim.NewPhone()}
			for size := uint64(1); size <= n; size++ {
				ph := sim.NewPhone()
				l.Size = size
				if sim.Do(l.Public, l, ph, sim.Action{Op: "search", Label: "A", Search: -1}).Kind == "done" {
					phones = append(phones, ph)
				}
			}
			l.Size = n
			somewhere := func(f func(m map[uint32]string) bool) bool { return slices.ContainsFunc(has, f) }
			for i, ph := range phones {
				r.State(fmt.Sprint(c, i))
				for target := range versions + 3 {
					for _, value := range values {
						l.Cheat = &sim.Cheat{Target: target, Value: value}
						for _, q := range []int64{-1, int64(target)} {
							at = fmt.Sprintf("search for version %d by client %d, claim: version %d is %q", q, i, target, value)
							p := ph.Copy()
							before := p.Dump()
							r.Transition()
							res := sim.Do(l.Public, l, p, sim.Action{Op: "search", Label: "A", Search: q})
							r.Outcome("claim " + res.Kind + " " + res.Answer.Kind)
							if res.Kind != "done" {
								kit.Check(p.Dump() == before, "the client refused, but changed what it retains")
								continue
							}
							a := res.Answer
							st := sim.State(l.Public, p)
							kit.Check(st.TreeHead.TreeSize == n, "the client is at size %d after an answer for size %d", st.TreeHead.TreeSize, n)
							switch a.Kind {
							case "value":
								kit.Check(somewhere(func(m map[uint32]string) bool { return m[a.Version] == a.Value }), "the client accepted %v, which is nowhere in the log: %v", a, has)
								if honest {
									kit.Check(q >= 0 || int(a.Version) == len(has[n-1])-1, "the client accepted %v as the greatest version: %v", a, has)
									kit.Check(has[n-1][a.Version] == a.Value, "the client accepted %v: %v", a, has)
								} else if q < 0 {
									onPath := false
									for _, x := range katiemath.Frontier(n) {
										_, ok := has[x][a.Version]
										onPath = onPath || ok
									}
									kit.Check(onPath, "the client accepted %v as the greatest version, but no entry it looks at has it: %v", a, has)
								}
							case "notfound":
								v := uint32(max(0, q))
								kit.Check(somewhere(func(m map[uint32]string) bool {
									for u := range v + 1 {
										if m[u] == "" {
											return true
										}
									}
									return false
								}), "the client accepted that version %d is not found: %v", v, has)
								if honest {
									kit.Check(has[n-1][v] == "", "the client accepted that version %d is not found: %v", v, has)
								}
							case "expired":
								kit.Check(c.Opts.Lifetime > 0 && times[n-1]-times[0] >= c.Opts.Lifetime, "the client accepted that version %d is expired, nothing is: %v", q, times)
							default:
								kit.Failf("the client accepted %v", a)
							}
						}
					}
				}
			}
		})
	})
}

func claims(t *testing.T, r *kit.Run) {
	var cs []world
	o := sim.Opts{Window: 1000}
	expiring := sim.Opts{Window: 300, Lifetime: 700}
	// Honest logs of up to seven versions.
	for size := 1; size <= kit.Pick(r, 6, 8); size++ {
		var rec func(has []string)
		rec = func(has []string) {
			if len(has) == size {
				for _, dt := range []int64{0, 400, 1000} {
					cs = append(cs, world{o, dt, slices.Clone(has)})
				}
				cs = append(cs, world{expiring, 250, slices.Clone(has)})
				return
			}
			last := ""
			if len(has) > 0 {
				last = has[len(has)-1]
			}
			for _, add := range []string{"", "x", "xxxx"} {
				if len(last)+len(add) <= kit.Pick(r, 6, 9) {
					rec(append(has, last+add))
				}
			}
		}
		rec(nil)
	}
	// Anything at all in every entry.
	alphabet := []string{"", "x", "y", "xx", "-x", "xxx", "x-x", "yx"}
	depth := kit.Pick(r, 3, 4)
	tot := 1
	for range depth {
		tot *= len(alphabet)
	}
	for i := range tot {
		has := make([]string, depth)
		for j, k := 0, i; j < depth; j, k = j+1, k/len(alphabet) {
			has[j] = alphabet[k%len(alphabet)]
		}
		for _, dt := range []int64{0, 400, 1000} {
			cs = append(cs, world{o, dt, has})
		}
		cs = append(cs, world{expiring, 250, has}, world{expiring, 400, has})
	}
	r.Count("logs_with_claims", int64(len(cs)))
	r.Parallel(len(cs), func(i int) { claim(t, r, cs[i]) })
}
