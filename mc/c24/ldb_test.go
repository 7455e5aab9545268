//go:build hookldb

package c24

import (
	"fmt"
	"os"
	"testing"
	"time"

	"katiemc/kit"
	"katiemc/ldb"
	"katiemc/sim"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/syndtr/goleveldb/leveldb"
)

// failing makes the k-th operation of the database fail during f, and returns
// its name, or "" if there is no such operation.
func failing(k int, f func()) (hit string) {
	n := 0
	leveldb.Fail = func(op string) error {
		if n++; n == k {
			hit = op
			return sim.ErrFault
		}
		return nil
	}
	defer func() { leveldb.Fail = nil }()
	f()
	return
}

// onDisk has the operations of the on-disk database fail one after another,
// while requests are served and while entries are added.
func onDisk(t *testing.T, r *kit.Run) {
	diskReads(r)
	for _, mode := range []structs.DeploymentMode{structs.ContactMonitoring, structs.ThirdPartyAuditing} {
		for size := 1; size <= kit.Pick(r, 3, 5); size++ {
			for seen := 0; seen <= size; seen++ {
				diskRequests(r, mode, size, seen)
			}
		}
	}
	a, b := sim.Item{Label: "A", Tag: "a"}, sim.Item{Label: "B", Tag: "b"}
	batches := []sim.Batch{{}, {Add: []sim.Item{a}}, {Add: []sim.Item{a, a, b}}, {Remove: []string{"A"}}, {Add: []sim.Item{b}, Remove: []string{"A"}}}
	depth := kit.Pick(r, 2, 3)
	var walk func(h []sim.Batch)
	walk = func(h []sim.Batch) {
		for _, x := range batches {
			diskMutate(r, h, x, batches)
			if len(h) < depth {
				walk(append(h[:len(h):len(h)], x))
			}
		}
	}
	walk(nil)
}

func scratch() (store db.TransparencyStore, done func()) {
	dir, err := os.MkdirTemp("", "c24-")
	kit.NoErr(err, "creating a directory")
	store, err = db.NewLDBTransparencyStore(dir)
	kit.NoErr(err, "opening the store")
	return store, func() {
		ldb.Close(store)
		os.RemoveAll(dir)
	}
}

// diskReads reads each kind of record, present and absent, with each operation
// of the database failing: the store may not take a failure for an absence.
func diskReads(r *kit.Run) {
	store, done := scratch()
	defer done()
	fill := func(s db.TransparencyStore) {
		kit.NoErr(s.PutTreeHead([]byte("head")), "writing")
		kit.NoErr(s.PutAuditorTreeHead([]byte("auditor")), "writing")
		kit.NoErr(s.PutIndex([]byte("a"), []byte("index")), "writing")
		kit.NoErr(s.PutVersion([]byte("a"), 1, []byte("version")), "writing")
		kit.NoErr(s.Put(1, []byte("entry")), "writing")
		kit.NoErr(s.LogStore().Put(1, []byte("chunk")), "writing")
		kit.NoErr(s.PrefixStore().Put("1", []byte("tile")), "writing")
	}
	for _, state := range []string{"empty", "pending", "committed"} {
		switch state {
		case "pending":
			fill(store)
		case "committed":
			kit.NoErr(store.Commit(), "committing")
		}
		for _, s := range []struct {
			name string
			db.TransparencyStore
		}{{"store", store}, {"read-only clone", store.Clone()}} {
			for _, get := range []struct {
				name string
				f    func() (string, error)
			}{
				{"GetTreeHead", func() (string, error) { a, b, err := s.GetTreeHead(); return fmt.Sprintf("%q %q", a, b), err }},
				{"BatchGetIndex", func() (string, error) {
					a, err := s.BatchGetIndex([][]byte{[]byte("a"), []byte("b"), []byte("a")})
					return fmt.Sprintf("%q", a), err
				}},
				{"GetVersion", func() (string, error) { a, err := s.GetVersion([]byte("a"), 1); return fmt.Sprintf("%q", a), err }},
				{"GetVersion of none", func() (string, error) { a, err := s.GetVersion([]byte("a"), 2); return fmt.Sprintf("%q", a), err }},
				{"BatchGet", func() (string, error) { a, err := s.BatchGet([]uint64{0, 1, 2}); return fmt.Sprintf("%q", a), err }},
				{"LogStore.BatchGet", func() (string, error) {
					a, err := s.LogStore().BatchGet([]uint64{0, 1, 2})
					return fmt.Sprintf("%q", a), err
				}},
				{"PrefixStore.BatchGet", func() (string, error) {
					a, err := s.PrefixStore().BatchGet([]string{"0", "1", "2"})
					return fmt.Sprintf("%q", a), err
				}},
			} {
				at := fmt.Sprintf("%s of a %s in which everything is %s", get.name, s.name, state)
				r.Try(func() any { return at }, func() {
					want, err := get.f()
					kit.NoErr(err, "%s", at)
					for k := 1; ; k++ {
						var got string
						var err error
						hit := failing(k, func() { got, err = get.f() })
						r.Transition()
						r.State(fmt.Sprint(at, k))
						if hit == "" {
							kit.Check(err == nil && got == want, "it is %v, %v, and was %v", got, err, want)
							break
						}
						r.Outcome("reading from disk: " + hit + " fails")
						kit.Check(err != nil, "operation %d (%s) of the database failed, and %v was reported", k, hit, got)
					}
				})
			}
		}
	}
}

func diskRequests(r *kit.Run, mode structs.DeploymentMode, size, seen int) {
	if r.Expired() {
		return
	}
	at := ""
	desc := fmt.Sprintf("on disk, mode %d, size %d, client at size %d", mode, size, seen)
	r.Try(func() any { return desc + at }, func() {
		store, done := scratch()
		defer done()
		w := sim.NewWorld(sim.Config(sim.Opts{Mode: mode, Lag: 1 << 40}))
		w.Store = store
		ph := sim.NewPhone()
		for i := range size {
			step := sim.Step{Put: []sim.Put{{Label: "A", Count: 1}}}
			if i == 1 {
				step.Put = append(step.Put, sim.Put{Label: "B", Count: 2})
			}
			kit.NoErr(w.Apply(step), "sequencing")
			if i+1 == seen {
				for _, op := range []sim.Action{{Op: "search", Label: "A", Search: 0}, {Op: "init", Label: "A"}} {
					srv, err := transparency.NewTree(w.Config, store.Clone(), nil)
					kit.NoErr(err, "opening the log")
					res := sim.Do(w.Public, srv, ph, op)
					kit.Check(res.Kind == "done", "%v: %v", op, res)
				}
			}
		}
		serve := func(c *sim.Phone, op sim.Action) outcome {
			srv, err := transparency.NewTree(w.Config, store.Clone(), nil)
			if err != nil {
				return outcome{sim.Result{Kind: "unserved", Err: err}, state(w, c)}
			}
			return do(w, srv, c, op)
		}
		for _, op := range actions {
			want := serve(ph.Copy(), op)
			if want.res.Kind == "unable" || want.res.Kind == "nothing" {
				continue
			}
			for k := 1; ; k++ {
				at = fmt.Sprintf(": operation %d of the database fails during %v", k, op)
				r.Transition()
				r.State(desc + at)
				var got outcome
				c := ph.Copy()
				hit := failing(k, func() { got = serve(c, op) })
				if hit == "" {
					kit.Check(same(got, want), "%v became %v, not %v", op, got, want)
					break
				}
				r.Outcome("on disk, " + op.Op + ": " + hit + " fails: " + got.res.Kind)
				switch got.res.Kind {
				case "unserved":
					kit.Check(op.Op == "sync" || got.after == state(w, ph), "%v failed and changed what the client stored", op)
				case "done":
					kit.Check(same(got, want), "%v became %v although %s failed, it should be %v", op, got, hit, want)
				default:
					kit.Failf("%s of the database fails: %v is %v", hit, op, got.res)
				}
				if op.Op != "sync" {
					again := serve(c, op)
					kit.Check(same(again, want) || got.res.Kind == "done", "%s failed during %v; after that it became %v, not %v", hit, op, again, want)
				}
			}
		}
	})
}

// diskMutate adds an entry to a log with one operation of the database failing
// and then goes on. With a window of zero every entry is distinguished, so that
// the clock decides nothing.
func diskMutate(r *kit.Run, h []sim.Batch, last sim.Batch, nexts []sim.Batch) {
	for k := 1; ; k++ {
		stop := false
		for i, next := range nexts {
			for _, reopen := range []bool{false, true} {
				if r.Expired() || stop {
					return
				}
				if reopen && i > 0 {
					continue
				}
				at := fmt.Sprintf("on disk: %v, then %v with operation %d of the database failing, then %v (by a new server: %v)", h, last, k, next, reopen)
				r.Try(func() any { return at }, func() {
					stop = true
					r.Transition()
					store, done := scratch()
					defer done()
					led := sim.NewLedger(sim.Config(sim.Opts{}))
					open := func() *transparency.Tree {
						t, err := transparency.NewTree(led.Config, store, nil)
						kit.NoErr(err, "opening the log")
						return t
					}
					tree := open()
					apply := func(b sim.Batch) {
						why := led.Refuses(b, uint64(time.Now().UnixMilli()))
						add, remove, _ := led.Inputs(b)
						au, err := tree.Mutate(add, remove)
						if why != "" {
							kit.Check(err != nil, "%v was accepted, but %s", b, why)
							return
						}
						kit.NoErr(err, "%v", b)
						led.Accept(b, au.Timestamp, au)
					}
					for _, b := range h {
						apply(b)
					}
					if led.Refuses(last, uint64(time.Now().UnixMilli())) != "" {
						return
					}
					before := ldb.Dump(store)
					add, remove, _ := led.Inputs(last)
					var err error
					hit := failing(k, func() { _, err = tree.Mutate(add, remove) })
					if hit == "" {
						return
					}
					stop = false
					r.State(at)
					r.Outcome("on disk, adding an entry: " + hit + " fails")
					kit.Check(err != nil, "%v reports success although operation %d (%s) of the database failed", last, k, hit)
					kit.Check(ldb.Dump(store) == before, "%v failed at operation %d (%s) and changed the database", last, k, hit)
					led.CheckHead(tree.TreeHead())
					if reopen {
						tree = open()
					}
					apply(next)
					led.Check(store, "A", "B")
					apply(last)
					led.Check(store, "A", "B")
				})
			}
		}
		if stop {
			return
		}
	}
}
