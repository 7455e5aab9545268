// C17: the auditor signs only append-only, eligible changes and stays in step.
package c17

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"maps"
	"slices"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"katiemc/kit"
	"katiemc/ref"
	"katiemc/sim"
	"katiemc/toy"

	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

const knownKey = "surviving-leaf-outside-batch"

// item is one prefix tree entry that an update names.
type item struct {
	Key    string
	Commit []byte
}

// offer is an update shown to the auditor.
type offer struct {
	T        uint64
	Add, Rem []item
	Proof    ref.PProof
}

func (o offer) String() string {
	f := func(is []item) (s string) {
		for _, i := range is {
			s += fmt.Sprintf(" %x=%x", i.Key[:2], i.Commit[:2])
		}
		return
	}
	return fmt.Sprintf("at %d add%s remove%s", o.T, f(o.Add), f(o.Rem))
}

func (o offer) keys() (k []string) {
	for _, x := range slices.Concat(o.Add, o.Rem) {
		k = append(k, x.Key)
	}
	return
}

// encode is the wire encoding of the update.
func (o offer) encode() []byte {
	b := binary.BigEndian.AppendUint64(nil, o.T)
	for _, is := range [][]item{o.Add, o.Rem} {
		b = binary.BigEndian.AppendUint16(b, uint16(len(is)))
		for _, i := range is {
			b = append(append(b, i.Key...), i.Commit...)
		}
	}
	return append(b, o.Proof.Bytes()...)
}

// model is what the auditor must know.
type model struct {
	Window uint64
	Times  []uint64
	Roots  [][]byte
	Now    ref.Map
	Pos    map[string]int // entry in which a present key was added
}

func (m *model) copy() *model {
	c := *m
	c.Times, c.Roots, c.Now, c.Pos = slices.Clone(m.Times), slices.Clone(m.Roots), m.Now.Clone(), maps.Clone(m.Pos)
	return &c
}

func (m *model) name() string {
	return fmt.Sprint(m.Window, m.Times, m.Now, m.Pos)
}

func sorted(is []item) bool {
	for i := 1; i < len(is); i++ {
		if is[i-1].Key >= is[i].Key {
			return false
		}
	}
	return true
}

// refuses says why the update is not one that the auditor may sign.
func (m *model) refuses(o offer) string {
	n := len(m.Times)
	if n > 0 && o.T < m.Times[n-1] {
		return "it is back-dated"
	}
	if !sorted(o.Add) || !sorted(o.Rem) {
		return "it is not in order"
	}
	left := m.Now.Clone()
	prev := ref.RightmostTrue(ref.Distinguished(append(slices.Clone(m.Times), o.T), m.Window)[:n])
	for _, x := range o.Rem {
		c, ok := left[x.Key]
		if !ok || !bytes.Equal(c, x.Commit) {
			return "it removes an entry that is not there"
		}
		if prev < 0 || m.Pos[x.Key] > prev {
			return fmt.Sprintf("it removes an entry added in %d, the last distinguished entry is %d", m.Pos[x.Key], prev)
		}
		delete(left, x.Key)
	}
	for _, x := range o.Add {
		if _, ok := left[x.Key]; ok {
			return "it adds an entry that is there"
		}
	}
	return ""
}

// next is the model after the update; opaque is the root that the auditor can
// derive from the proof.
func (m *model) next(o offer) (c *model, opaque []byte) {
	c = m.copy()
	for _, x := range o.Rem {
		delete(c.Now, x.Key)
		delete(c.Pos, x.Key)
	}
	for _, x := range o.Add {
		c.Now[x.Key] = x.Commit
		c.Pos[x.Key] = len(m.Times)
	}
	c.Times = append(c.Times, o.T)
	c.Roots = append(c.Roots, c.Now.Root())
	var touched []string
	for _, k := range o.keys() {
		if !slices.Contains(touched, k) {
			touched = append(touched, k)
		}
	}
	return c, m.Now.AfterOpaque(touched, c.Now)
}

// root is the root of the log.
func (m *model) root() []byte { return logRoot(m.Times, m.Roots) }

func logRoot(times []uint64, roots [][]byte) []byte {
	var leaves [][]byte
	for x := range times {
		h := sha256.Sum256(sim.Encode(&structs.LogEntry{Timestamp: times[x], PrefixTree: roots[x]}))
		leaves = append(leaves, h[:])
	}
	return ref.LogRoot(leaves)
}

func config(window uint64) *structs.PublicConfig {
	c := sim.Config(sim.Opts{Mode: structs.ThirdPartyAuditing, Window: window, Lag: 1000})
	return c.Public()
}

// store is the auditor's database.
type store struct {
	raw  []byte
	fail error
	puts int
}

func (s *store) GetState() ([]byte, error) {
	if s.fail != nil {
		return nil, s.fail
	}
	return bytes.Clone(s.raw), nil
}

func (s *store) PutState(raw []byte) error {
	s.puts++
	if s.fail != nil {
		return s.fail
	}
	s.raw = bytes.Clone(raw)
	return nil
}

// signer counts signatures.
type signer struct {
	toy.SigKey
	n    int
	fail error
}

func (s *signer) Sign(m []byte) ([]byte, error) {
	if s.fail != nil {
		return nil, s.fail
	}
	s.n++
	return s.SigKey.Sign(m)
}

type aud struct {
	*auditor.Auditor
	st  *store
	key *signer
	cfg *structs.PublicConfig
}

func open(cfg *structs.PublicConfig, raw []byte) *aud {
	a := &aud{st: &store{raw: bytes.Clone(raw)}, key: &signer{SigKey: sim.AuditorKey}, cfg: cfg}
	a.reopen()
	return a
}

func (a *aud) reopen() {
	var err error
	a.Auditor, err = auditor.NewAuditor(a.cfg, a.key, a.st)
	kit.NoErr(err, "opening the auditor")
}

// offer hands over an update as received from the log.
func (a *aud) offer(raw []byte) error {
	au, err := sim.Decode(raw, func(b *bytes.Buffer) (*structs.AuditorUpdate, error) {
		return structs.NewAuditorUpdate(a.cfg.Suite, b)
	})
	if err != nil {
		return err
	}
	n := a.key.n
	err = a.Process(au)
	kit.Check(a.key.n == n, "processing an update produced a signature")
	return err
}

// sign has the auditor sign, and returns the head.
func (a *aud) sign(m *model, what string) *structs.AuditorTreeHead {
	h, err := a.Commit()
	if len(m.Times) == 0 {
		kit.Check(err != nil, "%s: the auditor signed an empty log", what)
		return nil
	}
	kit.NoErr(err, "%s: signing", what)
	return h
}

// signs reports whether h is the auditor's signature over the given log.
func signs(cfg *structs.PublicConfig, h *structs.AuditorTreeHead, times []uint64, roots [][]byte) bool {
	n := len(times)
	if h.TreeSize != uint64(n) || h.Timestamp != times[n-1] {
		return false
	}
	return cfg.AuditorPublicKey.Verify(sim.Encode(&structs.AuditorTreeHeadTBS{Config: cfg, Timestamp: times[n-1], TreeSize: uint64(n), Root: logRoot(times, roots)}), h.Signature)
}

// checkHead signs and compares with the model, in which the last entry has the
// given opaque root.
func (a *aud) checkHead(m *model, opaque []byte, what string) {
	h := a.sign(m, what)
	if h == nil {
		return
	}
	if signs(a.cfg, h, m.Times, m.Roots) {
		return
	}
	if n := len(m.Roots); opaque != nil && !bytes.Equal(opaque, m.Roots[n-1]) && signs(a.cfg, h, m.Times, append(slices.Clone(m.Roots[:n-1]), opaque)) {
		kit.FailKey(knownKey, "%s: the head is for another root than the log's: a removal leaves a leaf that is not part of the update to take the place of its parent", what)
	}
	kit.Failf("%s: the auditor signed (size %d, time %d), which is not the log of %d entries ending at time %d", what, h.TreeSize, h.Timestamp, len(m.Times), m.Times[len(m.Times)-1])
}

// opts are the ways in which the key may take part in an update.
func opts(m *model, key string, commit, other []byte, lean bool) (out [][2][]item) {
	add := []item{{key, commit}}
	out = append(out, [2][]item{}, [2][]item{add, nil})
	cur, ok := m.Now[key]
	if !ok {
		cur = other
	}
	rem := []item{{key, cur}}
	out = append(out, [2][]item{nil, rem}, [2][]item{add, rem})
	if lean {
		return
	}
	if ok {
		out = append(out, [2][]item{nil, {{key, other}}}, [2][]item{{{key, cur}}, nil}, [2][]item{{{key, cur}}, rem}, [2][]item{add, {{key, other}}})
	}
	return
}

// offers are all updates that the log could show next, with the proof an
// honest log would give for the named keys.
func offers(m *model, keys []string, dts []int64, lean bool) (out []offer) {
	n := len(m.Times)
	base := uint64(0)
	if n > 0 {
		base = m.Times[n-1]
	}
	chg := []offer{{}}
	for i, k := range keys {
		var nx []offer
		for _, o := range chg {
			for _, p := range opts(m, k, ref.Commit(10*n+i), ref.Commit(900+i), lean) {
				nx = append(nx, offer{Add: append(slices.Clone(o.Add), p[0]...), Rem: append(slices.Clone(o.Rem), p[1]...)})
			}
		}
		chg = nx
	}
	for _, o := range chg {
		o.Proof = m.Now.Prove(o.keys())
		for _, d := range dts {
			if d < 0 && base < uint64(-d) {
				continue
			}
			o.T = base + uint64(d)
			out = append(out, o)
		}
	}
	return
}

// explore visits every state of the model that accepted updates lead to, and
// shows the auditor every update in each of them.
func explore(r *kit.Run, cfg *structs.PublicConfig, m *model, raw []byte, keys []string, dts []int64, depth int, lean bool, path []string, walk func(m *model, raw []byte, path []string)) {
	if r.Expired() {
		return
	}
	r.State(m.name())
	for _, o := range offers(m, keys, dts, lean) {
		p := append(slices.Clone(path), o.String())
		var after []byte
		var nm *model
		r.Transition()
		r.Try(func() any {
			return map[string]any{"window": m.Window, "updates": p, "contents before": m.Now.String()}
		}, func() {
			after, nm = nil, nil
			a := open(cfg, raw)
			err := a.offer(o.encode())
			if why := m.refuses(o); why != "" {
				kit.Check(err != nil, "update %d was accepted, but %s", len(m.Times), why)
				r.Outcome("refused")
				if !lean {
					unchanged(a, m, raw)
				}
				return
			}
			kit.NoErr(err, "update %d", len(m.Times))
			n, opaque := m.next(o)
			kit.Check(bytes.Equal(a.st.raw, raw), "update %d was stored before it was signed", len(m.Times))
			a.checkHead(n, opaque, fmt.Sprintf("update %d", len(m.Times)))
			r.Outcome("accepted")
			nm, after = n, bytes.Clone(a.st.raw)
		})
		if nm != nil && depth > 1 {
			walk(nm, after, p)
		}
	}
}

// unchanged checks that a refusal left nothing behind.
func unchanged(a *aud, m *model, raw []byte) {
	kit.Check(bytes.Equal(a.st.raw, raw) && a.st.puts == 0, "a refused update changed the stored state")
	n := a.key.n
	h := a.sign(m, "after a refusal")
	if h != nil {
		kit.Check(signs(a.cfg, h, m.Times, m.Roots), "after a refusal the auditor's head is no longer the one of the log")
	}
	kit.Check(a.key.n == n && a.st.puts == 0, "after a refusal the auditor signed again")
	// The next correct update is still accepted, and with the same effect.
	o := offer{Add: []item{{ref.Key("0101"), ref.Commit(77)}}}
	if len(m.Times) > 0 {
		o.T = m.Times[len(m.Times)-1] + 3
	}
	o.Proof = m.Now.Prove(o.keys())
	if m.refuses(o) != "" {
		return
	}
	kit.NoErr(a.offer(o.encode()), "the correct update after a refusal")
	nm, _ := m.next(o)
	a.checkHead(nm, nil, "the correct update after a refusal")
	b := open(a.cfg, raw)
	kit.NoErr(b.offer(o.encode()), "the correct update without the refusal")
	b.checkHead(nm, nil, "the correct update without the refusal")
	kit.Check(bytes.Equal(a.st.raw, b.st.raw), "a refused update changed what the auditor keeps")
}

// full explores with a fixed alphabet to a depth.
func full(r *kit.Run, window uint64, keys []string, dts []int64, depth int, lean bool) {
	cfg := config(window)
	type node struct {
		m    *model
		raw  []byte
		path []string
	}
	// The first two levels are expanded one after the other, the subtrees in
	// parallel.
	seeds := []node{{&model{Window: window, Now: ref.Map{}, Pos: map[string]int{}}, nil, nil}}
	for range min(2, depth-1) {
		var nx []node
		for _, s := range seeds {
			explore(r, cfg, s.m, s.raw, keys, dts, 2, lean, s.path, func(m *model, raw []byte, path []string) {
				nx = append(nx, node{m, raw, path})
			})
		}
		seeds = nx
		depth--
	}
	r.Parallel(len(seeds), func(i int) {
		var rec func(d int) func(m *model, raw []byte, path []string)
		rec = func(d int) func(m *model, raw []byte, path []string) {
			return func(m *model, raw []byte, path []string) {
				explore(r, cfg, m, raw, keys, dts, d, lean, path, rec(d-1))
			}
		}
		rec(depth)(seeds[i].m, seeds[i].raw, seeds[i].path)
	})
}

// chain is an honest stream of updates with the models around them.
type chain struct {
	os []offer
	ms []*model
}

func honest(window uint64, salt int, spec []offer) chain {
	m := &model{Window: window, Now: ref.Map{}, Pos: map[string]int{}}
	c := chain{ms: []*model{m}}
	for i, o := range spec {
		for _, is := range [][]item{o.Add, o.Rem} {
			slices.SortFunc(is, func(a, b item) int { return strings.Compare(a.Key, b.Key) })
		}
		o.Proof = m.Now.Prove(o.keys())
		for j := range o.Rem {
			o.Rem[j].Commit = m.Now[o.Rem[j].Key]
		}
		for j := range o.Add {
			o.Add[j].Commit = ref.Commit(salt + 10*i + j)
		}
		if w := m.refuses(o); w != "" {
			panic(fmt.Sprint("not honest: ", i, w))
		}
		var op []byte
		m, op = m.next(o)
		if !bytes.Equal(op, m.Roots[i]) {
			panic("an honest stream in this list must stay within what a proof can show")
		}
		c.os, c.ms = append(c.os, o), append(c.ms, m)
	}
	return c
}

// streams shows the auditor every sequence from a pool of updates, in any
// order and repeated, without restarting it, and with restarts and signing at
// any point.
func streams(r *kit.Run, cfg *structs.PublicConfig, pool []offer, depth int, sign func(i int) bool, restart bool) {
	window := cfg.ReasonableMonitoringWindow
	var run func(seq []int)
	run = func(seq []int) {
		if r.Expired() {
			return
		}
		if len(seq) == depth {
			r.Trace()
			r.Try(func() any {
				var p []string
				for _, i := range seq {
					p = append(p, pool[i].String())
				}
				return map[string]any{"window": window, "updates": p, "restart": restart}
			}, func() {
				a := open(cfg, nil)
				m := &model{Window: window, Now: ref.Map{}, Pos: map[string]int{}}
				durable := m
				for i, s := range seq {
					o := pool[s]
					r.Transition()
					err := a.offer(o.encode())
					why := m.refuses(o)
					if why == "" && !proves(m, o) {
						why = "its proof is for another tree"
					}
					if why != "" {
						kit.Check(err != nil, "step %d was accepted, but %s", i, why)
					} else {
						kit.NoErr(err, "step %d", i)
						var opaque []byte
						m, opaque = m.next(o)
						if !bytes.Equal(opaque, m.Roots[len(m.Roots)-1]) {
							return
						}
					}
					if sign(i) {
						a.checkHead(m, nil, fmt.Sprint("step ", i))
						durable = m
					}
					if restart && i%2 == 1 {
						a.reopen()
						m = durable
					}
				}
				a.checkHead(m, nil, "the end")
				if len(m.Times) > 0 {
					a.reopen()
					a.checkHead(m, nil, "after a restart")
				}
				r.Outcome(fmt.Sprint("stream of ", len(m.Times)))
			})
			return
		}
		for i := range pool {
			run(append(slices.Clone(seq), i))
		}
	}
	r.Parallel(len(pool)*len(pool), func(i int) { run([]int{i / len(pool), i % len(pool)}) })
}

// proves reports whether the proof of the update is right for the contents.
func proves(m *model, o offer) bool {
	return bytes.Equal(o.Proof.Bytes(), m.Now.Prove(o.keys()).Bytes())
}

// variants are single changes of an update.
func variants(o offer, keys []string) (out []offer) {
	cl := func() offer {
		return offer{o.T, slices.Clone(o.Add), slices.Clone(o.Rem), o.Proof.Clone()}
	}
	put := func(f func(c *offer)) {
		c := cl()
		f(&c)
		out = append(out, c)
	}
	for _, t := range []uint64{0, 1, o.T - 1, o.T + 1, o.T / 2, o.T * 2, o.T + 1000, 1 << 40, 1 << 63, 1<<64 - 1} {
		put(func(c *offer) { c.T = t })
	}
	for side := range 2 {
		l := func(c *offer) *[]item {
			if side == 0 {
				return &c.Add
			}
			return &c.Rem
		}
		for i := range *l(&o) {
			at := i + side*len(o.Add)
			put(func(c *offer) { *l(c) = slices.Delete(*l(c), i, i+1) })
			put(func(c *offer) {
				*l(c) = slices.Delete(*l(c), i, i+1)
				c.Proof.Results = slices.Delete(c.Proof.Results, at, at+1)
			})
			put(func(c *offer) {
				*l(c) = slices.Insert(*l(c), i, (*l(c))[i])
				c.Proof.Results = slices.Insert(c.Proof.Results, at, c.Proof.Results[at])
			})
			put(func(c *offer) { (*l(c))[i].Commit = ref.Commit(555) })
			for _, k := range keys {
				put(func(c *offer) { (*l(c))[i].Key = k })
			}
			for j := range *l(&o) {
				put(func(c *offer) { s := *l(c); s[i], s[j] = s[j], s[i] })
				put(func(c *offer) {
					s, q := *l(c), c.Proof.Results
					b := side * len(o.Add)
					s[i], s[j] = s[j], s[i]
					q[b+i], q[b+j] = q[b+j], q[b+i]
				})
			}
			// The other list.
			put(func(c *offer) {
				x, q := (*l(c))[i], c.Proof.Results[at]
				*l(c) = slices.Delete(*l(c), i, i+1)
				c.Proof.Results = slices.Delete(c.Proof.Results, at, at+1)
				if side == 0 {
					c.Rem = append(c.Rem, x)
					c.Proof.Results = append(c.Proof.Results, q)
				} else {
					c.Add = append(c.Add, x)
					c.Proof.Results = slices.Insert(c.Proof.Results, len(c.Add)-1, q)
				}
			})
		}
	}
	for i := range o.Proof.Results {
		put(func(c *offer) { c.Proof.Results = slices.Delete(c.Proof.Results, i, i+1) })
		put(func(c *offer) { c.Proof.Results = append(c.Proof.Results, c.Proof.Results[i]) })
		for kind := byte(1); kind <= 3; kind++ {
			for _, d := range []int{0, 1, 2, 3, 4, 255} {
				for _, k := range keys {
					put(func(c *offer) { c.Proof.Results[i] = ref.PResult{Kind: kind, Depth: d, Leaf: k, Commit: ref.Commit(1)} })
				}
			}
		}
		put(func(c *offer) { c.Proof.Results[i].Commit = ref.Commit(556) })
	}
	for i := range o.Proof.Elements {
		put(func(c *offer) { c.Proof.Elements = slices.Delete(c.Proof.Elements, i, i+1) })
		put(func(c *offer) { c.Proof.Elements = slices.Insert(c.Proof.Elements, i, c.Proof.Elements[i]) })
		put(func(c *offer) { c.Proof.Elements[i] = ref.Commit(557) })
		put(func(c *offer) { c.Proof.Elements[i] = ref.Zero })
	}
	put(func(c *offer) { c.Proof.Elements = append(c.Proof.Elements, ref.Zero) })
	return
}

// altered shows every variant of every update of a chain, in place of it and
// after it.
func altered(r *kit.Run, cfg *structs.PublicConfig, c chain, keys []string) {
	r.Parallel(len(c.os), func(i int) {
		a := open(cfg, nil)
		for j := range i {
			kit.NoErr(a.offer(c.os[j].encode()), "honest update %d", j)
		}
		if i > 0 {
			a.checkHead(c.ms[i], nil, "honest stream")
		}
		base := a.st.raw
		m := c.ms[i]
		var list [][]byte
		byRaw := map[string]*offer{}
		for _, v := range variants(c.os[i], keys) {
			raw := v.encode()
			list = append(list, raw)
			byRaw[string(raw)] = &v
		}
		good := c.os[i].encode()
		for x := range good {
			for b := range 8 {
				f := bytes.Clone(good)
				f[x] ^= 1 << b
				list = append(list, f)
			}
			list = append(list, good[:x])
		}
		list = append(list, append(bytes.Clone(good), 0))
		for _, raw := range list {
			if r.Expired() {
				return
			}
			r.Distinct(fmt.Sprintf("%x|%x", base, raw))
			r.Transition()
			r.Try(func() any {
				return map[string]any{"window": m.Window, "update": fmt.Sprintf("%x", raw), "honest": fmt.Sprintf("%x", good), "entry": i, "contents before": m.Now.String()}
			}, func() {
				a := open(cfg, base)
				err := a.offer(raw)
				if err != nil {
					r.Outcome("altered, refused")
					unchanged(a, m, base)
					return
				}
				o := parse(raw)
				why := m.refuses(o)
				kit.Check(why == "", "an altered update was accepted, but %s", why)
				nm, opaque := m.next(o)
				a.checkHead(nm, opaque, "altered update")
				r.Outcome("altered, still true")
			})
		}
		r.Sample(map[string]any{"update": c.os[i].String(), "altered": len(list)})
	})
}

// parse reads an update back.
func parse(raw []byte) (o offer) {
	b := bytes.NewBuffer(raw)
	o.T = binary.BigEndian.Uint64(b.Next(8))
	for side := range 2 {
		n := int(binary.BigEndian.Uint16(b.Next(2)))
		for range n {
			x := b.Next(64)
			i := item{string(x[:32]), bytes.Clone(x[32:])}
			if side == 0 {
				o.Add = append(o.Add, i)
			} else {
				o.Rem = append(o.Rem, i)
			}
		}
	}
	var err error
	o.Proof, err = ref.ParsePProof(b.Bytes())
	kit.NoErr(err, "an accepted update does not parse")
	return
}

// faults fails the store and the signer at every step of a chain.
func faults(r *kit.Run, cfg *structs.PublicConfig, c chain) {
	broken := errors.New("injected failure")
	for i := range c.os {
		for mask := range 1 << 3 {
			r.Trace()
			r.Try(func() any {
				return map[string]any{"entry": i, "failures": mask, "window": cfg.ReasonableMonitoringWindow}
			}, func() {
				a := open(cfg, nil)
				for j := range i + 1 {
					kit.NoErr(a.offer(c.os[j].encode()), "honest update %d", j)
					if j < i && j%2 == 0 {
						a.checkHead(c.ms[j+1], nil, "honest stream")
					}
				}
				before := bytes.Clone(a.st.raw)
				for k := range 3 {
					// Attempt k fails in the store, or in the signer.
					if mask>>k&1 == 0 {
						a.st.fail = broken
					} else {
						a.key.fail = broken
					}
					h, err := a.Commit()
					kit.Check(err != nil && h == nil, "attempt %d to sign failed in the storage or the key, but returned a head", k)
					kit.Check(bytes.Equal(a.st.raw, before), "a failed attempt changed the stored state")
					a.st.fail, a.key.fail = nil, nil
					r.Transition()
				}
				a.st.fail = broken
				_, err := auditor.NewAuditor(cfg, a.key, a.st)
				kit.Check(err != nil, "an auditor was opened on a store that can not be read")
				a.st.fail = nil
				switch mask % 3 {
				case 0: // sign now
					a.checkHead(c.ms[i+1], nil, "after failures")
					kit.Check(!bytes.Equal(a.st.raw, before), "a head was issued without being stored")
				case 1: // go on
				case 2: // restart, which forgets what was not stored
					a.reopen()
					from := 0
					if before != nil {
						from = (i-1)/2*2 + 1
						if i == 0 {
							from = 0
						}
					}
					for j := from; j <= i; j++ {
						kit.NoErr(a.offer(c.os[j].encode()), "update %d after a restart", j)
					}
					a.checkHead(c.ms[i+1], nil, "after a restart")
				}
				for j := i + 1; j < len(c.os); j++ {
					kit.NoErr(a.offer(c.os[j].encode()), "honest update %d", j)
				}
				a.checkHead(c.ms[len(c.os)], nil, "the end")
				a.reopen()
				h1, h2 := a.sign(c.ms[len(c.os)], "reopened"), a.sign(c.ms[len(c.os)], "reopened")
				kit.Check(bytes.Equal(sim.Encode(h1), sim.Encode(h2)), "signing twice gives two heads")
				a.checkHead(c.ms[len(c.os)], nil, "reopened")
				r.Outcome("went on after failures")
			})
		}
	}
}

// endToEnd feeds the real log's updates to the auditor.
func endToEnd(t *testing.T, r *kit.Run, window uint64, hist []step, always bool) {
	if r.Expired() {
		return
	}
	synctest.Test(t, func(t *testing.T) {
		r.Trace()
		r.Try(func() any { return map[string]any{"window": window, "history": hist, "sign each": always} }, func() {
			cfg := sim.Config(sim.Opts{Mode: structs.ThirdPartyAuditing, Window: window, Lag: 1000})
			st := memory.NewTransparencyStore()
			tree, err := transparency.NewTree(cfg, st, nil)
			kit.NoErr(err, "opening the log")
			led := sim.NewLedger(cfg)
			a := open(cfg.Public(), nil)
			name := fmt.Sprint(window, always)
			for i, s := range hist {
				time.Sleep(time.Duration(s.DT) * time.Millisecond)
				now := uint64(time.Now().UnixMilli())
				add, remove, _ := led.Inputs(s.Batch)
				au, err := tree.Mutate(add, remove)
				if err != nil {
					r.Outcome("refused by the log")
					continue
				}
				before := led.Now.Clone()
				led.Accept(s.Batch, now, au)
				name += fmt.Sprint(s)
				r.State(name)
				r.Transition()
				kit.NoErr(a.offer(sim.Encode(au)), "update %d (%v)", i, s)
				m := &model{Times: led.Times, Roots: led.Roots}
				var touched []string
				for _, e := range slices.Concat(au.Added, au.Removed) {
					if !slices.Contains(touched, string(e.VrfOutput)) {
						touched = append(touched, string(e.VrfOutput))
					}
				}
				opaque := before.AfterOpaque(touched, led.Now)
				if always || i == len(hist)-1 || !bytes.Equal(opaque, led.Roots[len(led.Roots)-1]) {
					a.checkHead(m, opaque, fmt.Sprintf("update %d (%v)", i, s))
				}
			}
			r.Outcome("in step")
		})
	})
}

type step struct {
	DT    int64
	Batch sim.Batch
}

func (s step) String() string { return fmt.Sprintf("+%dms%v", s.DT, s.Batch) }

func TestCheck(t *testing.T) {
	r := kit.Start("C17", "model_checking", "every update an honest or dishonest log could offer, in every state that accepted updates lead to; every sequence from a pool of genuine, repeated and foreign updates; every single change and bit flip of an update; failures of the store and of the key; and the updates of the real log")
	K := ref.Key
	a, b, c := K("00"), K("01"), K("1")

	// All updates in all states.
	full(r, 1000, []string{a}, []int64{-1, 0, 400, 1000}, kit.Pick(r, 5, 6), false)
	full(r, 1000, []string{a, c}, []int64{-400, 0, 600, 1500}, kit.Pick(r, 3, 4), false)
	full(r, 3, []string{a, b}, []int64{0, 1, 2}, kit.Pick(r, 3, 4), false)
	full(r, 0, []string{a, c}, []int64{0, 5}, kit.Pick(r, 3, 4), false)
	full(r, 1000, []string{a, b, c}, []int64{0, 1000}, kit.Pick(r, 2, 3), false)
	full(r, 1000, []string{a}, []int64{0, 1000}, kit.Pick(r, 8, 9), true)
	full(r, 1<<63, []string{a, c}, []int64{0, 1 << 62}, 3, false)

	// Streams out of order, repeated, or from another log.
	ad := func(ks ...string) (o []item) {
		for _, k := range ks {
			o = append(o, item{Key: k})
		}
		return
	}
	keys := []string{a, b, c, K("110"), K("111")}
	c1 := honest(1000, 100, []offer{
		{T: 1000, Add: ad(a, b, c)},
		{T: 1500, Add: ad(K("110"))},
		{T: 2600},
		{T: 2600, Rem: ad(a, b)},
		{T: 4000, Add: ad(c), Rem: ad(c)},
		{T: 5000, Add: ad(a, b), Rem: ad(K("110"), c)},
	})
	c2 := honest(1000, 500, []offer{
		{T: 0},
		{T: 0, Add: ad(a, c)},
		{T: 1200, Add: ad(b)},
		{T: 1300, Rem: ad(a, c), Add: ad(a)},
		{T: 3000, Rem: ad(b), Add: ad(b, c)},
	})
	every := func(int) bool { return true }
	cfg := config(1000)
	d := kit.Pick(r, 5, 6)
	pool := slices.Concat(c1.os[:5], c2.os[:4])
	streams(r, cfg, pool, d, every, false)
	streams(r, cfg, pool, d, func(i int) bool { return i%2 == 0 }, true)
	streams(r, cfg, slices.Concat(c1.os[2:], c1.os[:2]), d+1, func(i int) bool { return false }, false)

	for _, ch := range []chain{c1, c2} {
		altered(r, cfg, ch, keys)
		faults(r, cfg, ch)
	}

	// The real log.
	hist(t, r)

	// Configurations the auditor must not work under.
	r.Try(func() any { return "configurations" }, func() {
		for _, mode := range []structs.DeploymentMode{structs.ContactMonitoring, structs.ThirdPartyManagement} {
			pc := sim.Config(sim.Opts{Window: 1000, Mode: mode})
			pub := pc.Public()
			pub.AuditorPublicKey = sim.AuditorKey.Public()
			_, err := auditor.NewAuditor(pub, sim.AuditorKey, &store{})
			kit.Check(err != nil, "an auditor was created in mode %v", mode)
		}
		_, err := auditor.NewAuditor(cfg, sim.ServerKey, &store{})
		kit.Check(err != nil, "an auditor was created with a key that is not the configured one")
		good := open(cfg, nil)
		kit.NoErr(good.offer(c1.os[0].encode()), "honest update")
		good.checkHead(c1.ms[1], nil, "honest update")
		raw := good.st.raw
		for n := range raw {
			_, err := auditor.NewAuditor(cfg, sim.AuditorKey, &store{raw: raw[:n:n]})
			kit.Check(err != nil || n == 0, "a state cut to %d of %d bytes was loaded", n, len(raw))
		}
		_, err = auditor.NewAuditor(cfg, sim.AuditorKey, &store{raw: append(bytes.Clone(raw), 0)})
		kit.Check(err != nil, "a state with a byte appended was loaded")
		r.Outcome("configuration refused")
	})
	r.Assume("signing under the toy suite is deterministic and stands in for the real ones, which C20 covers")
	r.Assume("the update whose removal leaves an unrelated leaf alone under a parent is a known finding (see C05); states behind it are not explored")
	r.Finish()
}

func hist(t *testing.T, r *kit.Run) {
	add := func(ls ...string) (o []sim.Item) {
		for _, l := range ls {
			o = append(o, sim.Item{Label: l})
		}
		return
	}
	batches := []sim.Batch{
		{Add: add("A")},
		{Add: add("A", "B", "A")},
		{Remove: []string{"A"}},
		{Remove: []string{"A", "B"}, Add: add("A")},
		{},
	}
	var hs [][]step
	var gen func(h []step)
	depth := kit.Pick(r, 4, 5)
	gen = func(h []step) {
		if len(h) == depth {
			hs = append(hs, h)
			return
		}
		for _, b := range batches {
			for _, dt := range []int64{0, 600, 1100} {
				if len(h) == 0 && dt != 0 {
					continue
				}
				if len(h) > 0 && dt == 0 && len(b.Remove) == 0 && r.Quick() {
					continue
				}
				gen(append(slices.Clone(h), step{dt, b}))
			}
		}
	}
	gen(nil)
	r.Parallel(len(hs), func(i int) { endToEnd(t, r, 1000, hs[i], i%2 == 0) })

	// Long logs and large updates.
	hs = nil
	for _, dt := range []int64{0, 90, 1100} {
		var one, many, wide []step
		for range 270 {
			one = append(one, step{dt, sim.Batch{Add: add("A")}})
		}
		for i := range 60 {
			b := sim.Batch{}
			for k := range i * 7 % 23 {
				b.Add = append(b.Add, sim.Item{Label: fmt.Sprint("l", k)})
			}
			if i%9 == 8 {
				b.Remove = []string{fmt.Sprint("l", i%23)}
			}
			many = append(many, step{dt, b})
		}
		for i := range 9 {
			b := sim.Batch{}
			for k := range 250 - i {
				b.Add = append(b.Add, sim.Item{Label: fmt.Sprint("l", k%(100+i))})
			}
			if i%3 == 2 {
				b = sim.Batch{Remove: []string{"l1", "l50", "l99"}}
			}
			wide = append(wide, step{dt, b})
		}
		// Labels of many versions that are replaced in a single update.
		times := func(l string, n int) (o []sim.Item) {
			for range n {
				o = append(o, sim.Item{Label: l})
			}
			return
		}
		swap := []step{{dt, sim.Batch{Add: append(times("A", 127), times("B", 3)...)}}, {1100, sim.Batch{}}}
		for _, n := range []int{127, 120, 63, 1, 100} {
			swap = append(swap, step{1100, sim.Batch{}}, step{1100, sim.Batch{Remove: []string{"A"}, Add: times("A", n)}}, step{1100, sim.Batch{Add: times("C", 2)}})
		}
		hs = append(hs, one, many, wide, swap)
	}
	r.Count("large histories", int64(len(hs)))
	r.Parallel(2*len(hs), func(i int) { endToEnd(t, r, kit.Pick(r, uint64(1000), 900), hs[i/2], i%2 == 0) })
}
