package c10

import (
	"fmt"
	"math"
	"testing"
	"time"

	"katiemc/kit"
	"katiemc/sim"
	"katiemc/toy"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

func contents(n int) (out []map[uint32]string) {
	for range n {
		out = append(out, map[uint32]string{0: "first"})
	}
	return out
}

// present tells if a client whose clock shows now may go by a log whose
// rightmost entry has the given timestamp.
func present(ts, now, ahead, behind uint64) bool {
	if ts > now {
		return ts-now <= ahead
	}
	return now-ts <= behind
}

type clockCase struct {
	Ahead, Behind uint64
	Times         []uint64
}

// clock shows a client all states of a log, one after another, at different
// times.
func clock(t *testing.T, r *kit.Run, c clockCase, sleeps []int64) {
	if r.Expired() {
		return
	}
	r.Trace()
	at := ""
	r.Try(func() any { return map[string]any{"clock": c, "at": at} }, func() {
		kit.Bubble(t, func() {
			cfg := sim.Config(sim.Opts{Window: 1000})
			cfg.MaxAhead, cfg.MaxBehind = c.Ahead, c.Behind
			start := time.Now()
			time.Sleep(10 * time.Second)
			l := sim.NewLiar(cfg, "A", c.Times, contents(len(c.Times)))
			rules := *l.Public
			rules.MaxAhead, rules.MaxBehind = math.MaxUint64, math.MaxUint64
			l.Rules = &rules
			ordered := true
			for i := range c.Times {
				ordered = ordered && (i == 0 || c.Times[i-1] <= c.Times[i])
			}
			type state struct {
				ph   *sim.Phone
				size uint64
			}
			states := []state{{sim.NewPhone(), 0}}
			for k, d := range append([]int64{0}, sleeps...) {
				time.Sleep(time.Duration(d) * time.Millisecond)
				now := uint64(time.Now().UnixMilli())
				var next []state
				for _, s := range states {
					for size := max(1, s.size); size <= uint64(len(c.Times)); size++ {
						for _, op := range operations[:5] {
							l.Size = size
							ph := s.ph.Copy()
							before := ph.Dump()
							at = fmt.Sprintf("%v at %v, client at size %d, log of %d", op, time.Since(start), s.size, size)
							r.Transition()
							res := sim.Do(l.Public, l, ph, op)
							if res.Kind == "unserved" && ordered {
								kit.Failf("a log ending at %d, whose limits allow any time (the clock shows %d), does not answer: %v", c.Times[size-1], now, res.Err)
							}
							if res.Kind == "unserved" || res.Kind == "unable" || res.Kind == "nothing" {
								continue
							}
							ts := c.Times[size-1]
							if ok := present(ts, now, c.Ahead, c.Behind); res.Kind == "refused" {
								kit.Check(!ok || !ordered, "the client, whose clock shows %d, refused a log that ends at %d (limits %d ahead, %d behind): %v", now, ts, c.Ahead, c.Behind, res.Err)
								kit.Check(ph.Dump() == before, "the client refused, but changed what it retains")
								r.Outcome("clock: refused")
								continue
							} else {
								kit.Check(ok, "the client, whose clock shows %d, accepted a log that ends at %d (limits %d ahead, %d behind)", now, ts, c.Ahead, c.Behind)
							}
							r.Outcome("clock: accepted")
							seen := map[uint64]uint64{}
							for _, p := range []*sim.Phone{s.ph, ph} {
								if st := sim.State(l.Public, p); st != nil {
									for x, e := range st.LogEntries {
										seen[x] = e.Timestamp
									}
								}
							}
							for x, a := range seen {
								for y, b := range seen {
									kit.Check(x >= y || a <= b, "the client accepted a log in which time goes back: %v", seen)
								}
							}
							if k == 0 && op.Op == "search" && op.Search < 0 {
								next = append(next, state{ph, size})
							}
						}
					}
				}
				states = append(states, next...)
				r.State(fmt.Sprint(c, d))
			}
		})
	})
}

func clocks(t *testing.T, r *kit.Run) {
	const base = 946684800000 + 10000 // when the client starts
	var cs []clockCase
	for _, lim := range [][2]uint64{{1000, 1500}, {0, 1500}, {1000, 0}, {0, 0}, {math.MaxUint64, 1500}, {1000, math.MaxUint64}} {
		a, b := lim[0], lim[1]
		domain := []uint64{base - 1501, base - 1500, base - 1, base, base + 1, base + 1000, base + 1001}
		for _, x := range append([]uint64{0, 1, 1 << 63, math.MaxUint64 - 1, math.MaxUint64, base - 1499 + 2501}, domain...) {
			cs = append(cs, clockCase{a, b, []uint64{x}}, clockCase{a, b, []uint64{base - 2000, x}}, clockCase{a, b, []uint64{base - 1, base, x}})
			for _, y := range domain {
				cs = append(cs, clockCase{a, b, []uint64{x, y}})
				for _, z := range domain {
					cs = append(cs, clockCase{a, b, []uint64{x, y, z}})
				}
			}
		}
	}
	r.Count("clock_cases", int64(len(cs)))
	r.Parallel(len(cs), func(i int) { clock(t, r, cs[i], []int64{1, 499, 1000, 1, 1000, 1}) })
}

// auditorCase is a log whose heads come with heads of the auditor.
type auditorCase struct {
	Start, Lag uint64
	Times      []uint64 // after the start
	First      uint64   // size at which the client starts, 0 for none
	FirstHead  uint64   // and that of the auditor
	Size       uint64
}

func auditor(t *testing.T, r *kit.Run, c auditorCase) {
	if r.Expired() {
		return
	}
	r.Trace()
	at := ""
	r.Try(func() any { return map[string]any{"auditor": c, "at": at} }, func() {
		kit.Bubble(t, func() {
			cfg := sim.Config(sim.Opts{Window: 1000, Mode: structs.ThirdPartyAuditing, Lag: 1})
			cfg.MaxAuditorLag, cfg.AuditorStartPos = c.Lag, c.Start
			base := uint64(time.Now().UnixMilli())
			var times []uint64
			for _, x := range c.Times {
				times = append(times, base+x)
			}
			time.Sleep(10 * time.Second)
			l := sim.NewLiar(cfg, "A", times, contents(len(times)))
			ph := sim.NewPhone()
			if c.First > 0 {
				l.Size = c.First
				l.Auditor = func(uint64) *structs.AuditorTreeHead {
					return l.AuditorHead(sim.AuditorKey, times[c.First-1], c.FirstHead, c.FirstHead)
				}
				res := sim.Do(l.Public, l, ph, operations[0])
				kit.Check(res.Kind == "done", "the client refuses the first head: %v", res)
			}
			r.State(fmt.Sprint(c))
			l.Size = c.Size
			rightmost := times[c.Size-1]
			for _, ts := range []uint64{rightmost, rightmost + 1, rightmost - c.Lag, rightmost - c.Lag - 1, rightmost - min(c.Lag, 1), 0, math.MaxUint64, rightmost + c.Lag} {
				for size := uint64(1); size <= c.Size+1; size++ {
					for rootOf := uint64(1); rootOf <= c.Size; rootOf++ {
						for _, key := range []suites.SigningPrivateKey{sim.AuditorKey, sim.ServerKey, toy.SigKey("someone else")} {
							var claimed *structs.AuditorTreeHead
							l.Auditor = func(uint64) *structs.AuditorTreeHead { return claimed }
							claimed = l.AuditorHead(key, ts, size, rootOf)
							ok := ts <= rightmost && rightmost-ts <= c.Lag && size <= c.Size && rootOf == size && key == sim.AuditorKey
							ok = ok && (c.First == 0 || c.FirstHead >= c.Start)
							for _, op := range operations {
								p := ph.Copy()
								before := p.Dump()
								at = fmt.Sprintf("%v, auditor head of %d at %d with the root of %d by %q", op, size, ts, rootOf, key)
								r.Transition()
								res := sim.Do(l.Public, l, p, op)
								if res.Kind == "done" {
									st := sim.State(l.Public, p)
									kit.Check(ok, "the client accepted an auditor head of size %d at time %d, signed over the root of %d by %q, in a log of %d entries that ends at %d, allowed lag %d, start position %d, previous auditor head of size %d", size, ts, rootOf, key, c.Size, rightmost, c.Lag, c.Start, c.FirstHead)
									kit.Check(st.AuditorTreeHead != nil && string(sim.Encode(st.AuditorTreeHead)) == string(sim.Encode(claimed)), "the client retains another auditor head than the one it accepted")
									r.Outcome("auditor: accepted")
								} else if res.Kind == "refused" {
									kit.Check(!ok, "the client refused a proper auditor head: %v", res.Err)
									kit.Check(p.Dump() == before, "the client refused, but changed what it retains")
									r.Outcome("auditor: refused")
								}
							}
						}
					}
				}
			}
		})
	})
}

func auditors(t *testing.T, r *kit.Run) {
	var cs []auditorCase
	for _, lag := range []uint64{0, 1, 300, 1 << 62, math.MaxUint64} {
		for start := range uint64(5) {
			for _, times := range [][]uint64{{0, 400, 800, 1200}, {0, 0, 1, 1}} {
				for size := uint64(1); size <= 4; size++ {
					cs = append(cs, auditorCase{start, lag, times, 0, 0, size})
					for first := uint64(1); first < size; first++ {
						for h := uint64(1); h <= first; h++ {
							cs = append(cs, auditorCase{start, lag, times, first, h, size})
						}
					}
				}
			}
		}
	}
	r.Count("auditor_cases", int64(len(cs)))
	r.Parallel(len(cs), func(i int) { auditor(t, r, cs[i]) })
}
