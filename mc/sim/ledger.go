package sim

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"maps"
	"slices"
	"strings"

	"katiemc/kit"
	"katiemc/ref"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// Item is one value to add.
type Item struct {
	Label string
	Tag   string // makes the value distinct
}

// Batch is what one call of Mutate is asked to do.
type Batch struct {
	Add    []Item   `json:",omitempty"`
	Remove []string `json:",omitempty"`
}

func (b Batch) String() string {
	var s []string
	short := func(l string) string {
		if len(l) > 8 {
			return fmt.Sprintf("%s..(%d bytes)", l[:4], len(l))
		}
		return l
	}
	for _, a := range b.Add {
		s = append(s, "+"+short(a.Label))
	}
	for _, l := range b.Remove {
		s = append(s, "-"+short(l))
	}
	return "[" + strings.Join(s, " ") + "]"
}

// Ledger is the reference model of a log that is written by Mutate: what each
// entry must contain.
type Ledger struct {
	Config structs.PrivateConfig
	Times  []uint64
	Roots  [][]byte // prefix tree root by entry
	Now    ref.Map  // contents of the last prefix tree
	Labels map[string][]Version
	Gone   map[string]bool // labels that were removed at some point
}

func NewLedger(c structs.PrivateConfig) *Ledger {
	return &Ledger{Config: c, Now: ref.Map{}, Labels: map[string][]Version{}, Gone: map[string]bool{}}
}

func (l *Ledger) Copy() *Ledger {
	c := *l
	c.Times = slices.Clone(l.Times)
	c.Roots = slices.Clone(l.Roots)
	c.Now = l.Now.Clone()
	c.Gone = maps.Clone(l.Gone)
	c.Labels = map[string][]Version{}
	for k, v := range l.Labels {
		c.Labels[k] = slices.Clone(v)
	}
	return &c
}

// VRF is the output for a label-version pair.
func VRF(c structs.PrivateConfig, label string, ver int) []byte {
	out, _ := c.VrfKey.Prove(Encode(&structs.VrfInput{Label: []byte(label), Version: uint32(ver)}))
	return out
}

// Refuses says why the batch must be refused at time now, or "".
func (l *Ledger) Refuses(b Batch, now uint64) string {
	n := len(l.Times)
	if n > 0 && now < l.Times[n-1] {
		return "clock is behind"
	}
	dist := ref.Distinguished(append(slices.Clone(l.Times), now), l.Config.ReasonableMonitoringWindow)
	prev := ref.RightmostTrue(dist[:n])
	for _, x := range b.Remove {
		vs := l.Labels[x]
		if len(vs) > 0 && (prev < 0 || vs[len(vs)-1].Pos > uint64(prev)) {
			return fmt.Sprintf("%q was modified after distinguished entry %d", x, prev)
		}
	}
	count := map[string]int{}
	for _, a := range b.Add {
		if len(a.Label) > 255 {
			return "label is too long"
		}
		count[a.Label]++
	}
	for x, k := range count {
		start := len(l.Labels[x])
		if slices.Contains(b.Remove, x) {
			start = 0
		}
		if !ref.Announceable(start, k) {
			return fmt.Sprintf("the owner of %q could not be told about %d versions at once", x, k)
		}
	}
	return ""
}

// Inputs renders the batch as arguments of Mutate and says which versions it
// must create.
func (l *Ledger) Inputs(b Batch) (add []transparency.LabelValue, remove [][]byte, made map[string][]Version) {
	w := &World{Config: l.Config, Public: l.Config.Public()}
	made = map[string][]Version{}
	n := uint64(len(l.Times))
	gone := map[string]bool{}
	for _, x := range b.Remove {
		remove = append(remove, []byte(x))
		gone[x] = true
	}
	count := map[string]int{}
	for _, a := range b.Add {
		if _, ok := count[a.Label]; !ok && !gone[a.Label] {
			count[a.Label] = len(l.Labels[a.Label])
		}
		ver := count[a.Label]
		count[a.Label]++
		short := a.Label
		if len(short) > 8 {
			short = fmt.Sprintf("%x", sha256.Sum256([]byte(short)))[:8]
		}
		v := fmt.Sprintf("%s%s#%d@%d", short, a.Tag, ver, n)
		u := structs.UpdateValue{Value: []byte(v)}
		if len(a.Label) <= 255 {
			u = w.UpdateValue(a.Label, ver, v)
		}
		add = append(add, transparency.LabelValue{Label: []byte(a.Label), Value: u})
		made[a.Label] = append(made[a.Label], Version{n, v})
	}
	return
}

// Accept checks what the log reported about an accepted batch and moves on.
func (l *Ledger) Accept(b Batch, now uint64, au *structs.AuditorUpdate) {
	_, _, made := l.Inputs(b)
	n := len(l.Times)
	var wantAdd, wantRemove []string
	for _, x := range slices.Compact(slices.Sorted(slices.Values(b.Remove))) {
		for v := range l.Labels[x] {
			wantRemove = append(wantRemove, string(VRF(l.Config, x, v)))
		}
		if len(l.Labels[x]) > 0 {
			l.Gone[x] = true
		}
		delete(l.Labels, x)
	}
	for x, vs := range made {
		for _, v := range vs {
			wantAdd = append(wantAdd, string(VRF(l.Config, x, len(l.Labels[x]))))
			l.Labels[x] = append(l.Labels[x], v)
		}
	}
	slices.Sort(wantAdd)
	slices.Sort(wantRemove)
	kit.Check(au != nil, "entry %d: Mutate returned neither an error nor a description", n)
	kit.Check(au.Timestamp == now, "entry %d: the description says timestamp %d, the time is %d", n, au.Timestamp, now)
	var gotAdd, gotRemove []string
	for _, e := range au.Removed {
		gotRemove = append(gotRemove, string(e.VrfOutput))
		kit.Check(bytes.Equal(l.Now[string(e.VrfOutput)], e.Commitment), "entry %d: a removed entry is described with commitment %x, it had %x", n, e.Commitment, l.Now[string(e.VrfOutput)])
		delete(l.Now, string(e.VrfOutput))
	}
	for _, e := range au.Added {
		gotAdd = append(gotAdd, string(e.VrfOutput))
		l.Now[string(e.VrfOutput)] = bytes.Clone(e.Commitment)
	}
	kit.Check(slices.Equal(gotAdd, wantAdd), "entry %d: added prefix entries %x, want %x", n, gotAdd, wantAdd)
	kit.Check(slices.Equal(gotRemove, wantRemove), "entry %d: removed prefix entries %x, want %x", n, gotRemove, wantRemove)
	l.Times = append(l.Times, now)
	l.Roots = append(l.Roots, l.Now.Root())
}

// LogRoot is the root of the log as it must be.
func (l *Ledger) LogRoot(size int) []byte {
	var leaves [][]byte
	for x := range size {
		h := sha256.Sum256(Encode(&structs.LogEntry{Timestamp: l.Times[x], PrefixTree: l.Roots[x]}))
		leaves = append(leaves, h[:])
	}
	return ref.LogRoot(leaves)
}

// CheckHead verifies that a tree head is the one the log must have.
func (l *Ledger) CheckHead(h *structs.TreeHead) {
	n := len(l.Times)
	if n == 0 {
		kit.Check(h == nil, "an empty log has a tree head of size %d", sizeOf(h))
		return
	}
	kit.Check(h != nil && h.TreeSize == uint64(n), "the tree head has size %d, want %d", sizeOf(h), n)
	tbs := Encode(&structs.TreeHeadTBS{Config: l.Config.Public(), TreeSize: uint64(n), Root: l.LogRoot(n)})
	kit.Check(l.Config.SignatureKey.Public().Verify(tbs, h.Signature), "the tree head of size %d does not sign the root that the history determines", n)
}

func sizeOf(h *structs.TreeHead) uint64 {
	if h == nil {
		return 0
	}
	return h.TreeSize
}

// Check verifies that a store holds exactly the modelled log: every entry,
// every version of every label, and nothing beyond.
func (l *Ledger) Check(st db.TransparencyStore, extra ...string) {
	cfg := l.Config
	tree, err := transparency.NewTree(cfg, st, nil)
	kit.NoErr(err, "opening the log")
	l.CheckHead(tree.TreeHead())
	n := len(l.Times)
	if n == 0 {
		return
	}
	var keys []uint64
	for x := range n {
		keys = append(keys, uint64(x))
	}
	es, err := st.BatchGet(keys)
	kit.NoErr(err, "reading the log entries")
	for x := range n {
		want := Encode(&structs.LogEntry{Timestamp: l.Times[x], PrefixTree: l.Roots[x]})
		kit.Check(bytes.Equal(es[uint64(x)], want), "entry %d is %x, want %x", x, es[uint64(x)], want)
	}
	labels := slices.Sorted(maps.Keys(l.Labels))
	for _, x := range extra {
		if !slices.Contains(labels, x) {
			labels = append(labels, x)
		}
	}
	for _, x := range labels {
		vs := l.Labels[x]
		for v := -1; v <= len(vs)+1; v++ {
			q := Query{x, int64(v)}
			a := searchTree(cfg, tree, q)
			switch {
			case l.Gone[x] && a.Kind != "value":
				// Older entries still prove the removed versions, so such a
				// search may end in an error.
			case v < 0 && len(vs) > 0:
				want := Answer{Kind: "value", Version: uint32(len(vs) - 1), Value: vs[len(vs)-1].Value}
				kit.Check(Acceptable(a, []Answer{want}), "%v in a log of %d entries: got %v, want %v", q, n, a, want)
			case v >= 0 && v < len(vs):
				want := Answer{Kind: "value", Version: uint32(v), Value: vs[v].Value}
				kit.Check(Acceptable(a, []Answer{want}), "%v in a log of %d entries: got %v, want %v", q, n, a, want)
			default:
				kit.Check(a.Kind != "value", "%v in a log of %d entries: got %v, but there is no such version", q, n, a)
			}
		}
	}
}

func searchTree(cfg structs.PrivateConfig, tree *transparency.Tree, q Query) Answer {
	pub := cfg.Public()
	c, err := transparency.NewClient(pub, NewPhone())
	kit.NoErr(err, "creating a client")
	req, verify, err := q.Request(c)
	kit.NoErr(err, "%v: preparing the request", q)
	res, err := tree.Search(context.Background(), req)
	if err != nil {
		return Classify(err)
	}
	return Verify(&World{Config: cfg, Public: pub}, q, req, verify, Encode(res))
}
