package c10

import (
	"fmt"
	"testing"
	"time"

	"katiemc/kit"
	"katiemc/sim"

	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// direct hands responses to the client as structures, where parts may be
// missing or present that the encoding doesn't allow.
func direct(t *testing.T, r *kit.Run) {
	r.Trace()
	at := ""
	r.Try(func() any { return map[string]any{"at": at} }, func() {
		kit.Bubble(t, func() {
			time.Sleep(10 * time.Second)
			for _, mode := range []structs.DeploymentMode{structs.ContactMonitoring, structs.ThirdPartyAuditing} {
				opts := sim.Opts{Window: 1000, Mode: mode}
				if mode == structs.ThirdPartyAuditing {
					opts.Lag = 1 << 40
				}
				b := build(sim.Config(opts), "aaa", 400)
				honest := func(n uint64) *structs.AuditorTreeHead {
					return b.l.AuditorHead(sim.AuditorKey, b.l.Times[n-1], n, n)
				}
				if mode == structs.ThirdPartyAuditing {
					b.l.Auditor = honest
				}
				for first := uint64(0); first < 3; first++ {
					ph := sim.NewPhone()
					if first > 0 {
						b.l.Size = first
						kit.Check(sim.Do(b.l.Public, b.l, ph, operations[0]).Kind == "done", "the first search")
					}
					for size := max(1, first); size <= 3; size++ {
						b.l.Size = size
						for _, given := range []bool{false, true} {
							for _, op := range operations[:3] {
								at = fmt.Sprintf("mode %d, %v, client at size %d, log of %d, auditor head: %v", mode, op, first, size, given)
								old := b.l.Auditor
								if given {
									b.l.Auditor = honest
								} else {
									b.l.Auditor = nil
								}
								c, err := transparency.NewClient(b.l.Public, ph.Copy())
								kit.NoErr(err, "creating a client")
								req, verify, err := (sim.Query{Label: op.Label, Version: op.Search}).Request(c)
								kit.NoErr(err, "preparing a search")
								res, err := b.l.Search(t.Context(), req)
								b.l.Auditor = old
								kit.NoErr(err, "searching")
								r.Transition()
								err = verify(res)
								ok := size == first || given == (mode == structs.ThirdPartyAuditing)
								accepted := err == nil || sim.Classify(err).Kind != "refused"
								kit.Check(ok == accepted, "accepted: %v (%v), want %v", accepted, err, ok)
							}
						}
					}
				}
			}
		})
	})
}
