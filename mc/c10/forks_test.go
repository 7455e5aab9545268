package c10

import (
	"bytes"
	"fmt"
	"slices"
	"testing"
	"time"

	"katiemc/kit"
	"katiemc/sim"
	"katiemc/toy"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/tree/log"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// branch is one of several logs that an operator runs and signs. Each entry is
// told by a letter: "." adds nothing, "a" adds a version of the label, "," adds
// nothing a moment later.
type branch struct {
	path string
	l    *sim.Liar
	has  []map[uint32]string
}

func build(cfg structs.PrivateConfig, path string, dt int64) *branch {
	base := uint64(time.Now().UnixMilli())
	var times []uint64
	var has []map[uint32]string
	m := map[uint32]string{0: "first"}
	for x, c := range path {
		now := base + uint64(dt)*uint64(x)
		if c == ',' {
			now++
		}
		if c == 'a' {
			n := map[uint32]string{}
			for k, v := range m {
				n[k] = v
			}
			n[uint32(len(m))] = fmt.Sprintf("value of %s", path[:x+1])
			m = n
		}
		times = append(times, now)
		has = append(has, m)
	}
	l := sim.NewLiar(cfg, "A", times, has)
	l.Index = []uint64{0}
	for x, c := range path {
		if c == 'a' {
			l.Index = append(l.Index, uint64(x))
		}
	}
	return &branch{path, l, has}
}

// node is a state of one of the logs: the branch, published up to a size.
type node struct {
	name string // letters of its entries
	b    *branch
}

func (n node) size() uint64 { return uint64(len(n.name)) }

// family is every log of a bounded length, in every state.
type family struct {
	cfg    structs.PrivateConfig
	nodes  []node
	byHead map[string]node
}

func newFamily(cfg structs.PrivateConfig, letters string, depth int, dt int64, auditor func(l *sim.Liar) func(uint64) *structs.AuditorTreeHead) *family {
	f := &family{cfg: cfg, byHead: map[string]node{}}
	seen := map[string]bool{}
	var rec func(path string)
	rec = func(path string) {
		if len(path) < depth {
			for _, c := range letters {
				rec(path + string(c))
			}
			return
		}
		b := build(cfg, path, dt)
		if auditor != nil {
			b.l.Auditor = auditor(b.l)
		}
		for n := 1; n <= depth; n++ {
			if !seen[path[:n]] {
				seen[path[:n]] = true
				x := node{path[:n], b}
				f.nodes = append(f.nodes, x)
				f.byHead[string(sim.Encode(b.l.Head(uint64(n))))] = x
			}
		}
	}
	rec("")
	slices.SortFunc(f.nodes, func(a, b node) int {
		if len(a.name) != len(b.name) {
			return len(a.name) - len(b.name)
		}
		return bytes.Compare([]byte(a.name), []byte(b.name))
	})
	return f
}

// where the client believes to be: nil for nowhere.
func (f *family) where(ph *sim.Phone) *node {
	st := sim.State(f.cfg.Public(), ph)
	if st == nil {
		return nil
	}
	n, ok := f.byHead[string(sim.Encode(&st.TreeHead))]
	kit.Check(ok, "the client retains a tree head of size %d that was never signed", st.TreeHead.TreeSize)
	return &n
}

// view compares what the client retains with the log it believes in.
func (f *family) view(ph *sim.Phone) {
	n := f.where(ph)
	if n == nil {
		kit.Check(len(ph.Labels) == 0, "labels are retained without a view of the log")
		return
	}
	l := n.b.l
	st := sim.State(l.Public, ph)
	for x, e := range st.LogEntries {
		kit.Check(x < n.size(), "the client retains entry %d of a log of %d", x, n.size())
		want := l.Entry(x)
		kit.Check(bytes.Equal(sim.Encode(&e), sim.Encode(&want)), "the client retains an entry %d that is not in the log", x)
	}
	root, err := log.Root(f.cfg.Suite, n.size(), st.FullSubtrees)
	kit.Check(err == nil && bytes.Equal(root, l.Root(n.size())), "the client retains subtrees that are not those of the log of size %d: %v", n.size(), err)
	if f.cfg.Mode == structs.ThirdPartyAuditing {
		a := st.AuditorTreeHead
		kit.Check(a != nil, "the client retains no auditor head")
		ok := a.TreeSize > 0 && a.TreeSize <= n.size()
		ok = ok && sim.AuditorKey.Public().Verify(sim.Encode(&structs.AuditorTreeHeadTBS{Config: l.Public, Timestamp: a.Timestamp, TreeSize: a.TreeSize, Root: l.Root(a.TreeSize)}), a.Signature)
		kit.Check(ok, "the client retains a head of size %d that the auditor didn't sign", a.TreeSize)
	}
	ls := sim.LabelState(l.Public, ph, "A")
	if ls == nil {
		return
	}
	for _, e := range ls.Contact {
		_, ok := n.b.has[min(e.Position, n.size()-1)][e.Version]
		kit.Check(e.Position < n.size() && ok, "version %d is monitored at entry %d of %v", e.Version, e.Position, n.name)
	}
	for _, v := range ls.Versions {
		if v.Commitment == nil {
			continue
		}
		value, ok := n.b.has[n.size()-1][v.Version]
		kit.Check(ok && bytes.Equal(v.Commitment, l.Commitment(v.Version, value)), "the client retains a commitment for version %d that is not in %v", v.Version, n.name)
	}
}

func extends(a *node, b node) bool {
	return a == nil || len(b.name) >= len(a.name) && b.name[:len(a.name)] == a.name
}

// judge gives the client a response and checks what becomes of its view.
// honest: the response is the proper one to the request.
// never: it must be refused.
func (f *family) judge(r *kit.Run, ph *sim.Phone, op sim.Action, from node, raw []byte, honest, never bool) *sim.Phone {
	pub := f.cfg.Public()
	before := ph.Dump()
	old := f.where(ph)
	c := ph.Copy()
	a, err := sim.Ask(pub, c, op)
	kit.Check(err == nil && a != nil, "the client asked before, but now it doesn't: %v", err)
	r.Transition()
	ans, err := a.Judge(raw)
	if err != nil {
		kit.Check(c.Dump() == before, "the response was refused (%v), but changed what the client retains", err)
		kit.Check(!honest || !extends(old, from), "the client refused the proper response of a log that extends its own: %v", err)
		r.Outcome(a.Kind + " refused")
		return nil
	}
	kit.Check(!never, "the client accepted a tree head that is not larger than the one it has")
	if op.Op == "sync" && !(honest && extends(old, from)) {
		// What an owner is told about its versions is proven when the owner
		// monitors the label, which C12 covers.
		now := f.where(c)
		kit.Check(now != nil && extends(old, *now), "the client went from %v to %v", old, now)
		c.Labels = nil
		f.view(c)
		r.Outcome(a.Kind + " done, to be monitored")
		return nil
	}
	f.view(c)
	now := f.where(c)
	kit.Check(now != nil, "the client accepted a response without retaining a tree head")
	kit.Check(extends(old, *now), "the client went from %v to %v", old, now)
	f.answer(*now, op, ans)
	r.Outcome(a.Kind + " " + ans.Kind)
	return c
}

// answer compares what a search found with the log.
func (f *family) answer(n node, op sim.Action, ans sim.Answer) {
	if op.Op != "search" {
		return
	}
	truth := n.b.has[n.size()-1]
	v := uint32(len(truth) - 1)
	if op.Search >= 0 {
		v = uint32(op.Search)
	}
	want := sim.Answer{Kind: "notfound"}
	if s, ok := truth[v]; ok {
		want = sim.Answer{Kind: "value", Version: v, Value: s}
	}
	kit.Check(sim.Acceptable(ans, []sim.Answer{want}), "%v in %v: the client accepted %v, the truth is %v", op, n.name, ans, want)
}

// respond lets a node respond to a request of the client, as if it had come
// from a client that knows less, if last is given.
func (n node) respond(ph *sim.Phone, op sim.Action, last *uint64, pretend bool) []byte {
	l := *n.b.l
	l.Size = n.size()
	l.Owner = sim.OwnerState(l.Public, ph, "A")
	q := ph.Copy()
	a, err := sim.Ask(l.Public, q, op)
	if err != nil || a == nil {
		return nil
	}
	var raw []byte
	if pretend {
		raw, err = a.Call(relast{&l, last})
	} else {
		raw, err = a.Call(&l)
	}
	if err != nil {
		return nil
	}
	return raw
}

type forkSetting struct {
	Name    string
	Opts    sim.Opts
	Letters string
	Depth   int
	DT      int64
	Deep    bool // all tree heads with all responses
}

var operations = []sim.Action{
	{Op: "search", Label: "A", Search: -1}, {Op: "search", Label: "A", Search: 0}, {Op: "search", Label: "A", Search: 2},
	{Op: "monitor"}, {Op: "init", Label: "A"}, {Op: "sync", Label: "A"},
}

// heads that could be put in front of a proof.
func (f *family) heads() (out []structs.FullTreeHead) {
	out = append(out, structs.FullTreeHead{})
	add := func(n node, key suites.SigningPrivateKey, pub *structs.PublicConfig, size uint64, root []byte) {
		sig, _ := key.Sign(sim.Encode(&structs.TreeHeadTBS{Config: pub, TreeSize: size, Root: root}))
		h := structs.FullTreeHead{TreeHead: &structs.TreeHead{TreeSize: n.size(), Signature: sig}}
		if n.b.l.Auditor != nil {
			h.AuditorTreeHead = n.b.l.Auditor(n.size())
		}
		out = append(out, h)
	}
	for _, n := range f.nodes {
		l := n.b.l
		add(n, f.cfg.SignatureKey, l.Public, n.size(), l.Root(n.size()))
		add(n, toy.SigKey("someone else"), l.Public, n.size(), l.Root(n.size()))
		other := *l.Public
		other.MaxAhead++
		add(n, f.cfg.SignatureKey, &other, n.size(), l.Root(n.size()))
		add(n, f.cfg.SignatureKey, l.Public, n.size()+1, l.Root(n.size()))
		add(n, f.cfg.SignatureKey, l.Public, n.size(), bytes.Repeat([]byte{1}, f.cfg.Suite.HashSize()))
	}
	return out
}

func forks(t *testing.T, r *kit.Run) {
	lagged := func(back uint64) func(l *sim.Liar) func(uint64) *structs.AuditorTreeHead {
		return func(l *sim.Liar) func(uint64) *structs.AuditorTreeHead {
			return func(n uint64) *structs.AuditorTreeHead {
				m := n
				if n > back {
					m = n - back
				}
				return l.AuditorHead(sim.AuditorKey, l.Times[m-1], m, m)
			}
		}
	}
	settings := []forkSetting{
		{"plain", sim.Opts{Window: 1000}, ".a", kit.Pick(r, 5, 6), 400, false},
		{"plain", sim.Opts{Window: 1000}, ".a", kit.Pick(r, 3, 4), 700, true},
		{"moments", sim.Opts{Window: 1000}, ".,a", 3, 1000, true},
		{"lifetime", sim.Opts{Window: 700, Lifetime: 1 << 40}, ".a", 4, 400, false},
		{"audited", sim.Opts{Window: 1000, Mode: structs.ThirdPartyAuditing, Lag: 1 << 40}, ".a", 3, 700, true},
		{"audited late", sim.Opts{Window: 1000, Mode: structs.ThirdPartyAuditing, Lag: 1 << 40}, ".a", kit.Pick(r, 4, 5), 400, false},
	}
	const shards = 8
	r.Parallel(shards*len(settings), func(i int) {
		s := settings[i/shards]
		var aud func(l *sim.Liar) func(uint64) *structs.AuditorTreeHead
		if s.Opts.Mode == structs.ThirdPartyAuditing {
			aud = lagged(uint64(s.Depth % 2))
		}
		exploreForks(t, r, s, aud, i%shards, shards)
	})
}

func exploreForks(t *testing.T, r *kit.Run, s forkSetting, aud func(l *sim.Liar) func(uint64) *structs.AuditorTreeHead, shard, shards int) {
	if r.Expired() {
		return
	}
	r.Trace()
	at := ""
	r.Try(func() any { return map[string]any{"setting": s, "at": at} }, func() {
		kit.Bubble(t, func() {
			time.Sleep(time.Duration(s.DT) * time.Millisecond * time.Duration(s.Depth+1))
			f := newFamily(sim.Config(s.Opts), s.Letters, s.Depth, s.DT, aud)
			heads := f.heads()
			phones := map[string]*sim.Phone{"": sim.NewPhone()}
			queue := []*sim.Phone{phones[""]}
			for k := 0; k < len(queue); k++ {
				ph := queue[k]
				if r.Expired() {
					return
				}
				mine := k%shards == shard
				if mine {
					r.State(s.Name + fmt.Sprint(s.Depth) + ph.Dump())
				}
				old := f.where(ph)
				for _, op := range operations {
					for _, n := range f.nodes {
						raw := n.respond(ph, op, nil, false)
						if raw == nil {
							continue
						}
						name := "nowhere"
						if old != nil {
							name = old.name
						}
						at = fmt.Sprintf("%v, client at %s knows %s, response of %s", op, name, ph.Dump(), n.name)
						if extends(old, n) || mine {
							if c := f.judge(r, ph, op, n, raw, true, false); c != nil {
								if d := c.Dump(); phones[d] == nil {
									phones[d] = c
									queue = append(queue, c)
								}
							}
						}
						if mine {
							f.variants(r, ph, op, n, raw, heads, s.Deep, &at)
						}
					}
				}
			}
			r.Count("client_states_forks", int64(len(queue)/shards))
		})
	})
}

// variants of a response: made for another client, or with another tree head.
func (f *family) variants(r *kit.Run, ph *sim.Phone, op sim.Action, n node, raw []byte, heads []structs.FullTreeHead, deep bool, at *string) {
	here := *at
	parse := func(raw []byte) any {
		a, err := sim.Ask(f.cfg.Public(), ph.Copy(), op)
		kit.NoErr(err, "asking")
		m, err := a.Parse(raw)
		kit.NoErr(err, "decoding")
		return m
	}
	old := f.where(ph)
	try := func(what string, raw2 []byte) {
		if !bytes.Equal(raw, raw2) {
			*at = here + ", " + what
			h := head(parse(raw2)).TreeHead
			f.judge(r, ph, op, n, raw2, false, h != nil && old != nil && h.TreeSize <= old.size())
		}
	}
	for last := range n.size() + 1 {
		var p *uint64
		if last > 0 {
			p = &last
		}
		if raw := n.respond(ph, op, p, true); raw != nil {
			try(fmt.Sprintf("made for a client at size %d", last), raw)
			m := parse(raw)
			*head(m) = structs.FullTreeHead{}
			try(fmt.Sprintf("made for a client at size %d, without a head", last), sim.Encode(m.(marshaler)))
		}
	}
	for i, h := range heads {
		if !deep && i > 0 && i%5 != 1 {
			continue
		}
		m := parse(raw)
		*head(m) = h
		try(fmt.Sprintf("tree head %d (%v)", i, h), sim.Encode(m.(marshaler)))
	}
}
