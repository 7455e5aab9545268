// Package c27 has the real server, client and auditor work on logs of
// astronomic size, most of which is computed when it's read.
package c27

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"maps"
	"math/bits"
	"reflect"
	"slices"
	"time"

	"katiemc/kit"
	"katiemc/ref"
	"katiemc/sim"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// run is a number of consecutive log entries that are all equal.
type run struct {
	start, end uint64
	leaf       []byte
	time       uint64
	entry      []byte
}

// giant is a log: a few entries that were really added, and long runs of
// entries that change nothing between them.
type giant struct {
	c      structs.PrivateConfig
	public *structs.PublicConfig
	runs   []run
	memo   map[[2]uint64]ref.Node
	same   map[string][]ref.Node // of equal leaves
	st     *store
	labels map[string][]sim.Version
	gone   map[string]bool
	heads  map[uint64]*structs.TreeHead
	added  []auditor.InsertedVrfOutput
	update *structs.AuditorUpdate // of the latest entry that was really added
	audit  *sim.AuditorDisk
	cm     map[string][]byte // commitments by VRF output
}

func newGiant(c structs.PrivateConfig) *giant {
	g := &giant{
		c: c, public: c.Public(), memo: map[[2]uint64]ref.Node{}, same: map[string][]ref.Node{},
		labels: map[string][]sim.Version{}, gone: map[string]bool{}, heads: map[uint64]*structs.TreeHead{}, cm: map[string][]byte{},
	}
	g.st = &store{g: g, m: map[string][]byte{}, log: map[uint64][]byte{}}
	return g
}

func (g *giant) size() uint64 {
	if len(g.runs) == 0 {
		return 0
	}
	return g.runs[len(g.runs)-1].end
}

func (g *giant) at(x uint64) *run {
	i, _ := slices.BinarySearchFunc(g.runs, x, func(r run, x uint64) int {
		if r.end <= x {
			return -1
		}
		return 1
	})
	kit.Check(i < len(g.runs) && g.runs[i].start <= x, "there is no entry %d", x)
	return &g.runs[i]
}

// complete is the head of the complete subtree of 2^level entries.
func (g *giant) complete(level uint, idx uint64) ref.Node {
	r := g.at(idx << level)
	if (idx+1)<<level-1 < r.end { // all equal
		ns := g.same[string(r.leaf)]
		if ns == nil {
			ns = []ref.Node{{Leaf: true, Val: r.leaf}}
		}
		for uint(len(ns)) <= level {
			ns = append(ns, ref.HashLog(ns[len(ns)-1], ns[len(ns)-1]))
		}
		g.same[string(r.leaf)] = ns
		return ns[level]
	}
	k := [2]uint64{uint64(level), idx}
	n, ok := g.memo[k]
	if !ok {
		n = ref.HashLog(g.complete(level-1, 2*idx), g.complete(level-1, 2*idx+1))
		g.memo[k] = n
	}
	return n
}

func (g *giant) subtrees(n uint64) (out []ref.Node) {
	var pos uint64
	for b := 63; b >= 0; b-- {
		if n>>uint(b)&1 == 1 {
			out = append(out, g.complete(uint(b), pos>>uint(b)))
			pos += 1 << uint(b)
		}
	}
	return out
}

func (g *giant) root(n uint64) []byte { return ref.RollUp(g.subtrees(n)) }

// add has the real log add an entry.
func (g *giant) add(dt int64, puts []sim.Put, remove []string) {
	time.Sleep(time.Duration(dt) * time.Millisecond)
	var add []transparency.LabelValue
	w := sim.World{Config: g.c, Public: g.public}
	next := map[string]int{}
	for l, vs := range g.labels {
		next[l] = len(vs)
	}
	for _, l := range remove {
		next[l] = 0
	}
	for _, p := range puts {
		for range p.Count {
			v := w.Value(p.Label, next[p.Label], g.size())
			add = append(add, transparency.LabelValue{Label: []byte(p.Label), Value: w.UpdateValue(p.Label, next[p.Label], v)})
			next[p.Label]++
		}
	}
	g.mutate(add, remove)
}

func (g *giant) mutate(add []transparency.LabelValue, remove []string) {
	n := g.size()
	if g.audit != nil && n > 0 {
		g.audit.Raw = g.auditorState()
	}
	tree, err := transparency.NewTree(g.c, g.st, nil)
	kit.NoErr(err, "opening the log at size %d", n)
	var gone [][]byte
	for _, l := range remove {
		gone = append(gone, []byte(l))
	}
	g.update, err = tree.Mutate(add, gone)
	kit.NoErr(err, "adding entry %d", n)
	for _, l := range remove {
		delete(g.labels, l)
		g.gone[l] = true
	}
	for _, a := range add {
		l := string(a.Label)
		g.labels[l] = append(g.labels[l], sim.Version{Pos: n, Value: string(a.Value.Value)})
	}
	for _, e := range g.update.Added {
		g.cm[string(e.VrfOutput)] = e.Commitment
		g.added = append(g.added, auditor.InsertedVrfOutput{Pos: n, VrfOutput: e.VrfOutput})
	}
	raw := g.st.m[fmt.Sprintf("e%d", n)]
	kit.Check(raw != nil, "entry %d is not stored", n)
	leaf := sha256.Sum256(raw)
	g.runs = append(g.runs, run{n, n + 1, leaf[:], g.update.Timestamp, bytes.Clone(raw)})
	kit.Check(g.update.Timestamp == uint64(time.Now().UnixMilli()), "entry %d has timestamp %d", n, g.update.Timestamp)
	want := g.head(n + 1)
	kit.Check(bytes.Equal(sim.Encode(tree.TreeHead()), sim.Encode(want)), "the head of size %d is %x, not %x", n+1, sim.Encode(tree.TreeHead()), sim.Encode(want))
	g.heads[n+1] = want
	if g.audit != nil {
		g.process()
	}
	g.signed()
}

// jump goes on to a larger size, without anything happening.
func (g *giant) jump(size uint64) {
	r := &g.runs[len(g.runs)-1]
	kit.Check(size >= r.end, "jumping back")
	r.end = size
	g.memo = map[[2]uint64]ref.Node{}
	g.st.log = map[uint64][]byte{} // is computed from here on
	h := g.head(size)
	g.heads[size] = h
	g.st.m["head"] = sim.Encode(h)
	g.signed()
}

func (g *giant) head(n uint64) *structs.TreeHead {
	sig, err := sim.ServerKey.Sign(sim.Encode(&structs.TreeHeadTBS{Config: g.public, TreeSize: n, Root: g.root(n)}))
	kit.NoErr(err, "signing")
	return &structs.TreeHead{TreeSize: n, Signature: sig}
}

func (g *giant) auditorHead(n uint64) *structs.AuditorTreeHead {
	ts := g.at(n - 1).time
	sig, _ := sim.AuditorKey.Sign(sim.Encode(&structs.AuditorTreeHeadTBS{Config: g.public, Timestamp: ts, TreeSize: n, Root: g.root(n)}))
	return &structs.AuditorTreeHead{Timestamp: ts, TreeSize: n, Signature: sig}
}

// signed has the auditor publish a head, a little behind.
func (g *giant) signed() {
	if g.c.Mode == structs.ThirdPartyAuditing {
		g.st.m["auditor"] = sim.Encode(g.auditorHead(max(1, g.size()-1)))
	}
}

// frontier is the path from the root of the log to its last entry.
func frontier(n uint64) (out []uint64) {
	for lo := uint64(0); lo < n; {
		x := ref.Root(lo, n)
		out = append(out, x)
		lo = x + 1
	}
	return out
}

// auditorState is the state the auditor has reached at this size.
func (g *giant) auditorState() []byte {
	n := g.size()
	e := sim.MustDecode(g.at(n-1).entry, func(b *bytes.Buffer) (*structs.LogEntry, error) { return structs.NewLogEntry(g.c.Suite, b) })
	dist := g.distinguished(n)
	s := &auditor.AuditorState{TreeHead: *g.auditorHead(n), FullSubtrees: ref.Vals(g.subtrees(n)), PrefixTree: e.PrefixTree, Inserted: []auditor.InsertedVrfOutput{}}
	for _, x := range frontier(n) {
		s.Timestamps = append(s.Timestamps, g.at(x).time)
	}
	for _, i := range g.added {
		if len(dist) == 0 || i.Pos > dist[len(dist)-1] {
			s.Inserted = append(s.Inserted, i)
		}
	}
	slices.SortFunc(s.Inserted, func(a, b auditor.InsertedVrfOutput) int { return bytes.Compare(a.VrfOutput, b.VrfOutput) })
	raw, err := s.Marshal()
	kit.NoErr(err, "encoding an auditor's state")
	got := sim.MustDecode(raw, func(b *bytes.Buffer) (*auditor.AuditorState, error) { return auditor.NewAuditorState(g.c.Suite, b) })
	kit.Check(reflect.DeepEqual(s, got), "the auditor's state is decoded as %+v: %+v", got, s)
	return raw
}

func (g *giant) process() {
	a, err := auditor.NewAuditor(g.public, sim.AuditorKey, g.audit)
	kit.NoErr(err, "opening an auditor")
	kit.NoErr(a.Process(sim.MustDecode(sim.Encode(g.update), func(b *bytes.Buffer) (*structs.AuditorUpdate, error) {
		return structs.NewAuditorUpdate(g.c.Suite, b)
	})), "auditing entry %d", g.size()-1)
	h, err := a.Commit()
	kit.NoErr(err, "auditing entry %d", g.size()-1)
	want := g.auditorHead(g.size())
	kit.Check(bytes.Equal(sim.Encode(h), sim.Encode(want)), "the auditor signs %x, not %x", sim.Encode(h), sim.Encode(want))
	kit.Check(bytes.Equal(g.audit.Raw, g.auditorState()), "the auditor's state is %x, not %x", g.audit.Raw, g.auditorState())
}

// distinguished lists the distinguished entries of the first n.
func (g *giant) distinguished(n uint64) (out []uint64) {
	var rec func(lo, hi, left, right uint64)
	rec = func(lo, hi, left, right uint64) {
		if lo >= hi || right-left < g.c.ReasonableMonitoringWindow {
			return
		}
		x := ref.Root(lo, hi)
		t := g.at(x).time
		rec(lo, x, left, t)
		out = append(out, x)
		rec(x+1, hi, t, right)
	}
	rec(0, n, 0, g.at(n-1).time)
	return out
}

func (g *giant) greatestAt(label string, x uint64) int {
	v := -1
	for i, e := range g.labels[label] {
		if e.Pos <= x {
			v = i
		}
	}
	return v
}

// expect is what a search may find.
func (g *giant) expect(label string, version int64) []sim.Answer {
	vs := g.labels[label]
	if g.gone[label] {
		out := []sim.Answer{{Kind: "notfound"}, {Kind: "expired"}, {Kind: "refused"}}
		v := version
		if v < 0 {
			v = int64(len(vs)) - 1
		}
		if v >= 0 && v < int64(len(vs)) {
			out = append(out, sim.Answer{Kind: "value", Version: uint32(v), Value: vs[v].Value})
		}
		return out
	}
	if version < 0 {
		version = int64(len(vs)) - 1
		if version < 0 {
			return []sim.Answer{{Kind: "notfound"}}
		}
		return []sim.Answer{{Kind: "value", Version: uint32(version), Value: vs[version].Value}}
	}
	if version >= int64(len(vs)) {
		return []sim.Answer{{Kind: "notfound"}}
	}
	v := vs[version]
	value, lost := sim.Answer{Kind: "value", Version: uint32(version), Value: v.Value}, sim.Answer{Kind: "expired"}
	n := g.size()
	last := g.at(n - 1).time
	expired := func(x uint64) bool {
		return g.c.MaximumLifetime > 0 && last-g.at(x).time >= g.c.MaximumLifetime
	}
	if !expired(0) {
		return []sim.Answer{value}
	}
	for _, x := range g.distinguished(n) {
		if !expired(x) {
			if v.Pos > x || g.greatestAt(label, x) == int(version) {
				return []sim.Answer{value}
			}
			break
		}
	}
	// The last entry where it's current.
	end := n
	if version+1 < int64(len(vs)) {
		end = vs[version+1].Pos
	}
	if (end == v.Pos || expired(end-1)) && expired(v.Pos) {
		return []sim.Answer{lost}
	}
	return []sim.Answer{value, lost}
}

// server serves the log as it is now.
func (g *giant) server(ch chan<- transparency.UpdateRequest) *transparency.Tree {
	t, err := transparency.NewTree(g.c, g.st.Clone(), ch)
	kit.NoErr(err, "opening the log at size %d", g.size())
	return t
}

// store is the storage of the log.
type store struct {
	g   *giant
	m   map[string][]byte
	log map[uint64][]byte
	ops int
}

var _ db.TransparencyStore = &store{}

func (s *store) get(k string) []byte { s.ops++; return bytes.Clone(s.m[k]) }
func (s *store) put(k string, v []byte) error {
	s.m[k] = append([]byte{}, v...)
	return nil
}
func (s *store) del(k string) error {
	delete(s.m, k)
	return nil
}

// Clone is for a server, which sees later changes.
func (s *store) Clone() db.TransparencyStore { return s }

func (s *store) GetTreeHead() ([]byte, []byte, error) { return s.get("head"), s.get("auditor"), nil }
func (s *store) PutTreeHead(raw []byte) error         { return s.put("head", raw) }
func (s *store) PutAuditorTreeHead(raw []byte) error  { return s.put("auditor", raw) }
func (s *store) PutIndex(label, index []byte) error   { return s.put(fmt.Sprintf("i%x", label), index) }
func (s *store) DeleteIndex(label []byte) error       { return s.del(fmt.Sprintf("i%x", label)) }
func (s *store) Put(key uint64, data []byte) error    { return s.put(fmt.Sprintf("e%d", key), data) }
func (s *store) Delete(key uint64) error              { return s.del(fmt.Sprintf("e%d", key)) }
func (s *store) LogStore() db.LogStore                { return logStore{s} }
func (s *store) PrefixStore() db.PrefixStore          { return prefixStore{s} }
func (s *store) Commit() error                        { return nil }
func (s *store) DeleteVersion(label []byte, v uint32) error {
	return s.del(fmt.Sprintf("v%x/%d", label, v))
}
func (s *store) PutVersion(label []byte, v uint32, data []byte) error {
	return s.put(fmt.Sprintf("v%x/%d", label, v), data)
}
func (s *store) GetVersion(label []byte, v uint32) ([]byte, error) {
	return s.get(fmt.Sprintf("v%x/%d", label, v)), nil
}
func (s *store) BatchGetIndex(labels [][]byte) ([][]byte, error) {
	out := make([][]byte, len(labels))
	for i, l := range labels {
		out[i] = s.get(fmt.Sprintf("i%x", l))
	}
	return out, nil
}
func (s *store) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	out := map[uint64][]byte{}
	for _, k := range keys {
		if v := s.get(fmt.Sprintf("e%d", k)); v != nil {
			out[k] = v
		} else if k < s.g.size() {
			out[k] = bytes.Clone(s.g.at(k).entry)
		}
	}
	return out, nil
}

type logStore struct{ s *store }

func (l logStore) Put(k uint64, v []byte) error {
	l.s.log[k] = bytes.Clone(v)
	return nil
}
func (l logStore) Delete(k uint64) error {
	l.s.log[k] = nil
	return nil
}
func (l logStore) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	out := map[uint64][]byte{}
	for _, id := range keys {
		l.s.ops++
		if d, ok := l.s.log[id]; ok {
			if d != nil {
				out[id] = bytes.Clone(d)
			}
			continue
		}
		lv := uint(bits.TrailingZeros64(^id))
		if lv%4 != 3 {
			continue
		}
		// The nodes three levels down, as far as they are complete.
		var d []byte
		for i := range uint64(8) {
			idx := id>>(lv+1)<<3 | i
			if k := lv - 3; idx < l.s.g.size()>>k {
				d = append(d, l.s.g.complete(k, idx).Val...)
			}
		}
		if d != nil {
			out[id] = d
		}
	}
	return out, nil
}

type prefixStore struct{ s *store }

func (p prefixStore) Put(k string, v []byte) error { return p.s.put("p"+k, v) }
func (p prefixStore) Delete(k string) error        { return p.s.del("p" + k) }
func (p prefixStore) BatchGet(keys []string) (map[string][]byte, error) {
	out := map[string][]byte{}
	for _, k := range keys {
		v := p.s.get("p" + k)
		if v == nil {
			// Where nothing happens the tree stays as it was.
			var ver, ctr uint64
			if n, _ := fmt.Sscanf(k, "%x:%x", &ver, &ctr); n == 2 && ver > 0 && ver <= p.s.g.size() {
				v = p.s.get(fmt.Sprintf("p%x:%x", p.s.g.at(ver-1).start+1, ctr))
			}
		}
		if v != nil {
			out[k] = v
		}
	}
	return out, nil
}

// checkView compares what a client retains with the log.
func (g *giant) checkView(ph *sim.Phone) {
	st := sim.State(g.public, ph)
	if st == nil {
		return
	}
	n := st.TreeHead.TreeSize
	kit.Check(g.heads[n] != nil && bytes.Equal(sim.Encode(&st.TreeHead), sim.Encode(g.heads[n])), "the client retains a tree head of size %d that was never published", n)
	for x, e := range st.LogEntries {
		kit.Check(x < n && bytes.Equal(sim.Encode(&e), g.at(x).entry), "the client retains an entry %d that is not in the log", x)
	}
	kit.Check(slices.EqualFunc(st.FullSubtrees, ref.Vals(g.subtrees(n)), bytes.Equal), "the client retains subtrees that are not those of the log of size %d", n)
	kit.Check((st.AuditorTreeHead != nil) == (g.c.Mode == structs.ThirdPartyAuditing), "auditor's head retained: %v", st.AuditorTreeHead)
	dist := g.distinguished(n)
	for _, label := range slices.Sorted(maps.Keys(ph.Labels)) {
		vs := g.labels[label]
		ls := sim.LabelState(g.public, ph, label)
		for _, e := range ls.Contact {
			kit.Check(g.gone[label] || int(e.Version) < len(vs) && vs[e.Version].Pos <= e.Position && e.Position < n, "version %d of %q is monitored at entry %d of %d: %v", e.Version, label, e.Position, n, vs)
		}
		if o := ls.Owner; o != nil && !g.gone[label] {
			_, ok := slices.BinarySearch(dist, o.Starting)
			kit.Check(ok, "the owner of %q verified up to entry %d, which is not distinguished", label, o.Starting)
			kit.Check(o.VerAtStarting == g.greatestAt(label, o.Starting), "the owner of %q believes that version %d exists at entry %d, but it is %d", label, o.VerAtStarting, o.Starting, g.greatestAt(label, o.Starting))
			for i, x := range o.UpcomingVers {
				ver := o.VerAtStarting + 1 + i
				kit.Check(ver < len(vs) && vs[ver].Pos == x, "the owner of %q believes that version %d was added in entry %d: %v", label, ver, x, vs)
			}
		}
	}
}
