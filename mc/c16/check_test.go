// C16: storage backends behave as the key-value contract requires.
package c16

import (
	"bytes"
	"fmt"
	"maps"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"katiemc/kit"
	"katiemc/ldb"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/db/memory"
)

// A cell is one record of the store.
type cell struct {
	Kind string // index, version, entry, log, prefix, head, auditor
	Name string
	Num  uint64
}

func (c cell) String() string { return fmt.Sprintf("%s(%q,%d)", c.Kind, c.Name, c.Num) }

type op struct {
	Do    string // put, nil, delete, commit, reopen
	Cell  cell
	Value string
}

func (o op) String() string {
	switch o.Do {
	case "commit", "reopen":
		return o.Do
	case "put":
		return fmt.Sprintf("put %v=%q", o.Cell, o.Value)
	}
	return fmt.Sprintf("%s %v", o.Do, o.Cell)
}

// scribble destroys a slice that was handed in or out.
func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0xa5
	}
}

func put(s db.TransparencyStore, c cell, v []byte) error {
	name := []byte(c.Name)
	defer scribble(name)
	switch c.Kind {
	case "index":
		return s.PutIndex(name, v)
	case "version":
		return s.PutVersion(name, uint32(c.Num), v)
	case "entry":
		return s.Put(c.Num, v)
	case "log":
		return s.LogStore().Put(c.Num, v)
	case "prefix":
		return s.PrefixStore().Put(c.Name, v)
	case "head":
		return s.PutTreeHead(v)
	}
	return s.PutAuditorTreeHead(v)
}

func del(s db.TransparencyStore, c cell) error {
	name := []byte(c.Name)
	defer scribble(name)
	switch c.Kind {
	case "index":
		return s.DeleteIndex(name)
	case "version":
		return s.DeleteVersion(name, uint32(c.Num))
	case "entry":
		return s.Delete(c.Num)
	case "log":
		return s.LogStore().Delete(c.Num)
	}
	return s.PrefixStore().Delete(c.Name)
}

type model map[cell]string

// readAll reads every cell, each kind in one request with a doubled key, and
// compares with the model.
func readAll(s db.TransparencyStore, cells []cell, m model, who string) {
	want := func(c cell, got []byte, present bool) {
		w, ok := m[c]
		if !ok {
			kit.Check(!present, "%s reads %v as %q, but it is absent", who, c, got)
			return
		}
		kit.Check(present, "%s reads %v as absent, but it is %q", who, c, w)
		kit.Check(string(got) == w, "%s reads %v as %q, but it is %q", who, c, got, w)
		scribble(got)
	}
	by := map[string][]cell{}
	for _, c := range cells {
		by[c.Kind] = append(by[c.Kind], c)
	}
	if cs := by["index"]; len(cs) > 0 {
		var labels [][]byte
		for _, c := range append(slices.Clone(cs), cs[0]) {
			labels = append(labels, []byte(c.Name))
		}
		out, err := s.BatchGetIndex(labels)
		kit.NoErr(err, "%s: BatchGetIndex", who)
		kit.Check(len(out) == len(labels), "%s: BatchGetIndex returned %d results for %d labels", who, len(out), len(labels))
		for i, c := range append(slices.Clone(cs), cs[0]) {
			want(c, out[i], out[i] != nil)
		}
	}
	for _, c := range by["version"] {
		out, err := s.GetVersion([]byte(c.Name), uint32(c.Num))
		kit.NoErr(err, "%s: GetVersion", who)
		want(c, out, out != nil)
	}
	for _, k := range []string{"entry", "log"} {
		cs := by[k]
		if len(cs) == 0 {
			continue
		}
		var keys []uint64
		for _, c := range append(slices.Clone(cs), cs[0]) {
			keys = append(keys, c.Num)
		}
		get := s.BatchGet
		if k == "log" {
			get = s.LogStore().BatchGet
		}
		for range 2 { // twice: what was handed out must not be aliased
			out, err := get(keys)
			kit.NoErr(err, "%s: BatchGet of %s", who, k)
			n := 0
			for _, c := range cs {
				v, ok := out[c.Num]
				want(c, v, ok)
				if ok {
					n++
				}
			}
			kit.Check(len(out) == n, "%s: BatchGet of %s returned other keys: %v", who, k, slices.Collect(maps.Keys(out)))
		}
	}
	if cs := by["prefix"]; len(cs) > 0 {
		var keys []string
		for _, c := range append(slices.Clone(cs), cs[0]) {
			keys = append(keys, c.Name)
		}
		for range 2 {
			out, err := s.PrefixStore().BatchGet(keys)
			kit.NoErr(err, "%s: BatchGet of prefix", who)
			n := 0
			for _, c := range cs {
				v, ok := out[c.Name]
				want(c, v, ok)
				if ok {
					n++
				}
			}
			kit.Check(len(out) == n, "%s: BatchGet of prefix returned other keys", who)
		}
	}
	if len(by["head"]) > 0 {
		for range 2 {
			h, a, err := s.GetTreeHead()
			kit.NoErr(err, "%s: GetTreeHead", who)
			want(by["head"][0], h, h != nil)
			if h != nil { // without a tree head there is nothing to audit
				want(by["auditor"][0], a, a != nil)
			}
		}
	}
}

// backend is one store under test.
type backend struct {
	kind string
	dir  string
	s    db.TransparencyStore
}

func open(kind string) *backend {
	b := &backend{kind: kind}
	if kind == "memory" {
		b.s = memory.NewTransparencyStore()
		return b
	}
	dir, err := os.MkdirTemp("", "c16-")
	kit.NoErr(err, "MkdirTemp")
	b.dir = dir
	b.s, err = ldb.Open(dir)
	kit.NoErr(err, "opening a new store")
	return b
}

func (b *backend) close() {
	if b.kind == "leveldb" {
		ldb.Close(b.s)
		if filepath.Dir(b.dir) == filepath.Clean(os.TempDir()) {
			os.RemoveAll(b.dir)
		}
	}
}

// run applies the operations, comparing every record after each one. fresh
// says that the store is empty, and checks reopening at the end.
func run(r *kit.Run, b *backend, cells []cell, ops []op, start model) {
	committed, pending := maps.Clone(start), maps.Clone(start)
	buffered := b.kind == "leveldb"
	var old db.TransparencyStore
	var oldModel model
	if buffered {
		old, oldModel = b.s.Clone(), nil
	}
	for _, o := range ops {
		switch o.Do {
		case "put":
			v := []byte(o.Value)
			kit.NoErr(put(b.s, o.Cell, v), "%v", o)
			scribble(v)
			pending[o.Cell] = o.Value
		case "nil":
			kit.Check(put(b.s, o.Cell, nil) != nil, "%v: a nil value is accepted", o)
		case "delete":
			kit.NoErr(del(b.s, o.Cell), "%v", o)
			delete(pending, o.Cell)
		case "commit":
			kit.NoErr(b.s.Commit(), "%v", o)
			committed = maps.Clone(pending)
			readAll(b.s.Clone(), cells, committed, "a new reader")
		case "reopen":
			ldb.Close(b.s)
			var err error
			b.s, err = ldb.Open(b.dir)
			kit.NoErr(err, "reopening")
			pending = maps.Clone(committed)
			old = b.s.Clone()
		}
		readAll(b.s, cells, pending, "the writer")
		if buffered {
			readAll(old, cells, committed, "an old reader")
			readAll(b.s.Clone(), cells, committed, "a new reader")
		}
		if r != nil {
			r.Transition()
			r.State(fmt.Sprint(b.kind, committed, pending))
		}
	}
	_ = oldModel
}

func cellsFor(u int) []cell {
	return []cell{
		{"index", fmt.Sprint("l", u), 0}, {"version", fmt.Sprint("l", u), 1}, {"entry", "", uint64(u)*10 + 1},
		{"log", "", uint64(u)*10 + 1}, {"prefix", fmt.Sprint(u*10 + 1), 0}, {"head", "", 0}, {"auditor", "", 0},
	}
}

func TestCheck(t *testing.T) {
	r := kit.Start("C16", "model_checking", "every sequence of put/delete/nil-put/commit/reopen operations up to the depth over one record of each kind, and over keys chosen to collide if encodings were ambiguous; all records read by the writer, old and new readers after each operation; state = (committed records, pending records)")

	// 1. Every sequence over one record of each kind, on long-lived stores
	// with a fresh key universe per sequence.
	D := kit.Pick(r, 4, 5)
	var next atomic.Int64
	opsFor := func(cells []cell) []op {
		ops := []op{{Do: "commit"}}
		for _, c := range cells {
			ops = append(ops, op{"put", c, "a"})
			if c.Kind != "auditor" {
				ops = append(ops, op{"put", c, "bc"})
			}
			if c.Kind != "head" && c.Kind != "auditor" {
				ops = append(ops, op{"delete", c, ""})
			}
		}
		return append(ops, op{"put", cells[0], ""}, op{"put", cells[2], ""}, op{"nil", cells[0], ""}, op{"nil", cells[1], ""}, op{"nil", cells[2], ""}, op{"nil", cells[3], ""}, op{"nil", cells[4], ""})
	}
	A := len(opsFor(cellsFor(0)))
	for _, kind := range []string{"memory", "leveldb"} {
		total := 1
		for range D {
			total *= A
		}
		pool := sync.Pool{New: func() any { return open(kind) }}
		chunk := A * A
		r.Parallel(total/chunk, func(ci int) {
			b := pool.Get().(*backend)
			for i := ci * chunk; i < (ci+1)*chunk; i++ {
				pick := func(u int) ([]cell, []op) {
					cells := cellsFor(u)
					all := opsFor(cells)
					ops := make([]op, D)
					for j, k := 0, i; j < D; j, k = j+1, k/A {
						ops[j] = all[k%A]
					}
					return cells, ops
				}
				_, ops := pick(0)
				r.Try(func() any { return map[string]any{"backend": kind, "operations": fmt.Sprint(ops)} }, func() {
					cells, ops := pick(int(next.Add(1)))
					head, aud := "h0", "a0"
					kit.NoErr(b.s.PutTreeHead([]byte(head)), "PutTreeHead")
					kit.NoErr(b.s.PutAuditorTreeHead([]byte(aud)), "PutAuditorTreeHead")
					kit.NoErr(b.s.Commit(), "Commit")
					run(nil, b, cells, ops, model{cells[5]: head, cells[6]: aud})
				})
				r.Transitions(int64(D))
				r.Trace()
				committed, pending := model{}, model{}
				for _, o := range ops {
					switch o.Do {
					case "put":
						pending[o.Cell] = o.Value
					case "delete":
						delete(pending, o.Cell)
					case "commit":
						committed = maps.Clone(pending)
					}
				}
				r.State(fmt.Sprint(kind, committed, pending))
			}
			pool.Put(b)
		})
	}

	// 2. Fresh stores, where everything starts absent, with reopening.
	D2 := kit.Pick(r, 2, 3)
	for _, kind := range []string{"memory", "leveldb"} {
		cells := cellsFor(1)
		all := opsFor(cells)
		if kind == "leveldb" {
			all = append(all, op{Do: "reopen"})
		}
		total := 1
		for range D2 {
			total *= len(all)
		}
		r.Parallel(total, func(i int) {
			var ops []op
			for j, k := 0, i; j < D2; j, k = j+1, k/len(all) {
				ops = append(ops, all[k%len(all)])
			}
			if kind == "leveldb" {
				ops = append(ops, op{Do: "reopen"}, op{"put", cells[1], "z"}, op{Do: "commit"}, op{Do: "reopen"})
			} else {
				ops = append(ops, op{Do: "commit"})
			}
			r.Trace()
			r.Try(func() any { return map[string]any{"backend": kind, "operations": fmt.Sprint(ops)} }, func() {
				b := open(kind)
				defer b.close()
				readAll(b.s, cells, model{}, "the writer of a new store")
				run(r, b, cells, ops, model{})
			})
		})
	}

	// 3. Keys that would collide if record kinds or their parts ran into each
	// other: every pair of records, one written and one deleted.
	var crowd []cell
	names := []string{"", "0", "\x01", "\x01\x23", "\x01:", "\x01:\x02", "ree-head", "1", "p", "i", "v", "l1", "\x00", "\x01\x00", ":", "head", "uditor-tree-head", "31"}
	for _, n := range names {
		crowd = append(crowd, cell{"index", n, 0}, cell{"prefix", n, 0})
	}
	for _, n := range []string{"", "\x01", "\x01\x23", "\x01\x00", "1", "\x12", "\x01\x01"} {
		for _, v := range []uint64{0, 1, 2, 3, 0x10, 0x11, 16, 17, 0x23, 0x100, 0x123, 256, 1<<32 - 1, 1 << 31} {
			if c := (cell{"version", n, v}); !slices.Contains(crowd, c) {
				crowd = append(crowd, c)
			}
		}
	}
	for _, v := range []uint64{0, 1, 2, 10, 11, 16, 0x10, 100, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<64 - 1, 1 << 63, 1<<53 + 1, 1 << 53} {
		for _, k := range []string{"entry", "log"} {
			if c := (cell{k, "", v}); !slices.Contains(crowd, c) {
				crowd = append(crowd, c)
			}
		}
	}
	// Long names that differ in their length, or their last byte, only.
	for _, n := range []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255} {
		long := strings.Repeat("n", n)
		for _, name := range []string{long, long[1:] + "o"} {
			crowd = append(crowd, cell{"index", name, 0}, cell{"prefix", name, 0}, cell{"version", name, 7})
		}
	}
	crowd = append(crowd, cell{"head", "", 0}, cell{"auditor", "", 0})
	for _, kind := range []string{"memory", "leveldb"} {
		r.Parallel(len(crowd), func(i int) {
			r.Trace()
			r.Try(func() any { return map[string]any{"backend": kind, "record": crowd[i].String()} }, func() {
				b := open(kind)
				defer b.close()
				// Alone in the store.
				kit.NoErr(put(b.s, crowd[i], []byte("only")), "put")
				m := model{crowd[i]: "only"}
				readAll(b.s, crowd, m, "the writer")
				kit.NoErr(b.s.Commit(), "Commit")
				readAll(b.s.Clone(), crowd, m, "a reader")
				// Last one written, then the only one missing.
				for j, c := range crowd {
					if i != j {
						v := fmt.Sprint("v", j)
						kit.NoErr(put(b.s, c, []byte(v)), "put")
						m[c] = v
					}
				}
				readAll(b.s, crowd, m, "the writer")
				if i%2 == 0 {
					kit.NoErr(b.s.Commit(), "Commit")
				}
				if c := crowd[i]; c.Kind != "head" && c.Kind != "auditor" {
					kit.NoErr(del(b.s, c), "delete")
					delete(m, c)
				}
				readAll(b.s, crowd, m, "the writer")
				kit.NoErr(b.s.Commit(), "Commit")
				readAll(b.s.Clone(), crowd, m, "a reader")
				r.Transitions(int64(len(crowd) + 2))
				r.State(fmt.Sprint(kind, "crowd", i))
			})
		})
	}

	// 3b. Stores of thousands of records, with values of many sizes.
	sizes := []int{0, 1, 127, 128, 255, 256, 1000, 4095, 4096, 32767, 32768, 65535, 65536, 300000}
	per := kit.Pick(r, 150, 500)
	for _, kind := range []string{"memory", "leveldb"} {
		r.Parallel(len(sizes), func(i int) {
			r.Trace()
			r.Try(func() any { return map[string]any{"backend": kind, "size of most records": sizes[i]} }, func() {
				b := open(kind)
				defer b.close()
				m := model{}
				var cells []cell
				n := per
				if sizes[i] > 10000 {
					n = 20
				}
				for round := range 3 {
					for k := range n {
						for _, c := range []cell{
							{"index", fmt.Sprint("x", k), 0}, {"version", fmt.Sprint("x", k/16), uint64(k)}, {"entry", "", uint64(k)},
							{"log", "", uint64(k)*16 + 7}, {"prefix", fmt.Sprint(k/7, "/", k), 0},
						} {
							if round == 0 {
								cells = append(cells, c)
							}
							if k%3 == round-1 {
								kit.NoErr(del(b.s, c), "delete %v", c)
								delete(m, c)
								continue
							}
							size := sizes[i]
							if k%4 == round {
								size = k
							}
							v := fmt.Sprint(c, round)
							for len(v) < size {
								v += v
							}
							v = v[:size]
							kit.NoErr(put(b.s, c, []byte(v)), "put %v", c)
							m[c] = v
						}
						if k%64 == 63 {
							kit.NoErr(b.s.Commit(), "Commit")
						}
					}
					r.Transitions(int64(len(cells)))
					readAll(b.s, cells, m, "the writer")
					kit.NoErr(b.s.Commit(), "Commit")
					readAll(b.s.Clone(), cells, m, "a reader")
					if kind == "leveldb" {
						ldb.Close(b.s)
						var err error
						b.s, err = ldb.Open(b.dir)
						kit.NoErr(err, "opening the store again")
						readAll(b.s, cells, m, "after opening it again, the writer")
					}
					r.State(fmt.Sprint(kind, "large", i, round))
				}
			})
		})
	}

	// 4. The auditor's and the service operator's stores.
	as := memory.NewAuditorStore()
	r.Try(func() any { return "auditor store" }, func() {
		raw, err := as.GetState()
		kit.Check(err == nil && raw == nil, "new auditor store holds %q, %v", raw, err)
		for _, v := range []string{"x", "", "yy", "zzzz"} {
			b := []byte(v)
			kit.NoErr(as.PutState(b), "PutState")
			scribble(b)
			for range 2 {
				raw, err := as.GetState()
				kit.Check(err == nil && raw != nil && string(raw) == v, "auditor store returns %q, %v for %q", raw, err, v)
				scribble(raw)
			}
		}
	})
	labels := []string{"", "a", "b", "ab"}
	MD := kit.Pick(r, 4, 6)
	type inc struct {
		Label string
		Count int
	}
	var incs []inc
	for _, l := range labels {
		for c := 0; c <= 3; c++ {
			incs = append(incs, inc{l, c})
		}
	}
	total := 1
	for range MD {
		total *= len(incs)
	}
	r.Parallel(total, func(i int) {
		seq := make([]inc, MD)
		for j, k := 0, i; j < MD; j, k = j+1, k/len(incs) {
			seq[j] = incs[k%len(incs)]
		}
		r.Trace()
		r.Transitions(int64(MD))
		r.Try(func() any { return map[string]any{"increments": seq} }, func() {
			s := memory.NewManagedLogStore()
			counts := map[string]int{}
			for j, x := range seq {
				l := []byte(x.Label)
				prev, err := s.IncrementGreatestVersion(l, x.Count)
				scribble(l)
				kit.NoErr(err, "IncrementGreatestVersion")
				kit.Check(prev == counts[x.Label]-1, "increment %d returned %d, but the greatest version was %d", j, prev, counts[x.Label]-1)
				counts[x.Label] += x.Count
			}
		})
	})
	// Long labels, which differ in their length or last byte only.
	r.Try(func() any { return "service operator store, long labels" }, func() {
		s := memory.NewManagedLogStore()
		counts := map[string]int{}
		for round := range 3 {
			for n := range 256 {
				long := strings.Repeat("n", n)
				for _, l := range []string{long, long + "o", long + "\x00"} {
					if len(l) > 255 {
						continue
					}
					prev, err := s.IncrementGreatestVersion([]byte(l), round+n%3)
					kit.NoErr(err, "IncrementGreatestVersion")
					kit.Check(prev == counts[l]-1, "the increment for a label of %d bytes returned %d, but the greatest version was %d", len(l), prev, counts[l]-1)
					counts[l] += round + n%3
				}
			}
		}
	})
	r.Sample(map[string]any{"operations": fmt.Sprint(opsFor(cellsFor(0))[:8])})
	r.Assume("goleveldb keeps what it was told to write (its own crash behaviour is covered by C15)")
	_ = bytes.Equal
	r.Finish()
}
