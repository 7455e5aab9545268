//go:build hookldb

package c22

import (
	"fmt"
	"os"
	"testing"

	"katiemc/kit"
	"katiemc/ldb"
	"katiemc/sim"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/syndtr/goleveldb/leveldb"
)

// onDisk has a log in the on-disk store grow between any two reads from the
// database while a request is served.
func onDisk(t *testing.T, r *kit.Run) {
	for _, mode := range []structs.DeploymentMode{structs.ContactMonitoring, structs.ThirdPartyAuditing} {
		for _, behind := range []int{0, 1} {
			if behind > 0 && mode != structs.ThirdPartyAuditing {
				continue
			}
			for before := 1; before <= 3; before++ {
				for _, op := range []sim.Action{{Op: "search", Label: "A", Search: -1}, {Op: "search", Label: "A", Search: 0}, {Op: "search", Label: "B", Search: -1}, {Op: "init", Label: "A"}, {Op: "sync", Label: "A"}, {Op: "monitor"}} {
					for seen := 0; seen <= before; seen++ {
						n := diskCase(r, mode, behind, before, seen, op, 0)
						for k := 1; k <= n; k++ {
							if r.Expired() {
								return
							}
							diskCase(r, mode, behind, before, seen, op, k)
						}
					}
				}
			}
		}
	}
}

// diskCase serves one request of a client that saw the log at an earlier size
// (0 for never) and lets the log grow by an entry, and the auditor sign it,
// before the k-th read. It returns the number of reads.
func diskCase(r *kit.Run, mode structs.DeploymentMode, behind, before, seen int, op sim.Action, k int) (reads int) {
	r.Transition()
	desc := fmt.Sprintf("on disk, mode %d, auditor %d entries behind: %v at size %d by a client at size %d, growing before read %d", mode, behind, op, before, seen, k)
	r.State(desc)
	r.Try(func() any { return desc }, func() {
		reads = 0
		dir, err := os.MkdirTemp("", "c22-")
		kit.NoErr(err, "creating a directory")
		defer os.RemoveAll(dir)
		store, err := db.NewLDBTransparencyStore(dir)
		kit.NoErr(err, "opening the store")
		defer ldb.Close(store)
		leveldb.ReadHook = nil
		defer func() { leveldb.ReadHook = nil }()

		w := sim.NewWorld(sim.Config(sim.Opts{Mode: mode, Lag: 1 << 40}))
		w.Store = store
		w.Behind = behind
		ph := sim.NewPhone()
		for i := range before {
			kit.NoErr(w.Apply(sim.Step{Put: []sim.Put{{Label: "A", Count: 1}}}), "sequencing")
			if i+1 == seen {
				for _, op := range []sim.Action{{Op: "search", Label: "A", Search: 0}, {Op: "init", Label: "A"}} {
					srv, err := transparency.NewTree(w.Config, store.Clone(), nil)
					kit.NoErr(err, "opening the log")
					res := sim.Do(w.Public, srv, ph, op)
					kit.Check(res.Kind == "done", "%v: %v", op, res)
				}
			}
		}
		busy := false
		leveldb.ReadHook = func([]byte) {
			if busy {
				return
			}
			reads++
			if reads == k {
				busy = true
				kit.NoErr(w.Apply(sim.Step{Put: []sim.Put{{Label: "A", Count: 1}}}), "sequencing")
				busy = false
			}
		}
		c := ph.Copy()
		srv, err := transparency.NewTree(w.Config, store.Clone(), nil)
		kit.NoErr(err, "opening the log")
		res := sim.Do(w.Public, srv, c, op)
		leveldb.ReadHook = nil
		for int(w.Size()) <= before {
			kit.NoErr(w.Apply(sim.Step{Put: []sim.Put{{Label: "A", Count: 1}}}), "sequencing")
		}
		judge(r, w, uint64(before), ph, c, op, res)
	})
	return reads
}
