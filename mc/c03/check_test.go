// C03: the prefix tree is a versioned map with a canonical root.
package c03

import (
	"bytes"
	"errors"
	"fmt"
	"maps"
	"slices"
	"testing"

	"katiemc/kit"
	"katiemc/ref"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/prefix"
)

var cs = suites.KTSha256Ed25519{}

func clone(s *memory.PrefixStore) *memory.PrefixStore {
	c := memory.NewPrefixStore()
	maps.Copy(c.Data, s.Data)
	return c
}

type op struct {
	Add    map[string]int // key -> commitment number
	Remove []string
	Name   string
}

// hist is a node of the exploration tree.
type hist struct {
	store *memory.PrefixStore
	vers  []ref.Map // vers[i] = contents of version i (0 = empty)
	ops   []string
}

func marshal(p *prefix.PrefixProof) ref.PProof {
	buf := &bytes.Buffer{}
	kit.NoErr(p.Marshal(buf), "proof does not encode")
	out, err := ref.ParsePProof(buf.Bytes())
	kit.NoErr(err, "proof encoding")
	return out
}

// judge checks a search result against the reference contents.
func judge(r *kit.Run, m ref.Map, keys []string, proof *prefix.PrefixProof, commits [][]byte, what string) {
	r.Eval()
	kit.Check(len(commits) == len(keys) && len(proof.Results) == len(keys), "%s: wrong number of results", what)
	pe := make([]ref.PEntry, len(keys))
	re := make([]prefix.Entry, len(keys))
	dup := false
	for i, k := range keys {
		want, ok := m[k]
		kit.Check(proof.Results[i].Inclusion() == ok, "%s: key %x included=%v, map says %v", what, k, proof.Results[i].Inclusion(), ok)
		kit.Check(bytes.Equal(commits[i], want) && (commits[i] == nil) == !ok, "%s: key %x has commitment %x, map says %x", what, k, commits[i], want)
		pe[i] = ref.PEntry{Key: k, Commit: want}
		re[i] = prefix.Entry{VrfOutput: []byte(k), Commitment: want}
		dup = dup || slices.Contains(keys[:i], k)
	}
	root := m.Root()
	got, err := ref.EvalProof(pe, marshal(proof))
	kit.NoErr(err, "%s: proof is malformed", what)
	kit.Check(bytes.Equal(got, root), "%s: proof evaluates to %x, the version's root is %x", what, got, root)
	if !dup {
		kit.NoErr(prefix.Verify(cs, re, proof, root), "%s: honest proof refused", what)
	}
}

func search(r *kit.Run, h *hist, qs []prefix.PrefixSearch) {
	in := make([]prefix.PrefixSearch, len(qs))
	for i, q := range qs {
		in[i] = prefix.PrefixSearch{Version: q.Version, VrfOutputs: slices.Clone(q.VrfOutputs)}
	}
	res, err := prefix.NewTree(cs, h.store).Search(in)
	kit.NoErr(err, "Search")
	kit.Check(len(res) == len(qs), "Search returned %d results for %d searches", len(res), len(qs))
	for i, q := range qs {
		var ks []string
		for j, k := range q.VrfOutputs {
			kit.Check(bytes.Equal(in[i].VrfOutputs[j], k), "Search reordered the caller's list")
			ks = append(ks, string(k))
		}
		judge(r, h.vers[q.Version], ks, &res[i].Proof, res[i].Commitments, fmt.Sprintf("version %d", q.Version))
	}
}

func bs(keys []string) [][]byte {
	var o [][]byte
	for _, k := range keys {
		o = append(o, []byte(k))
	}
	return o
}

// apply runs one valid batch on a copy of the history.
func apply(r *kit.Run, h *hist, o op, perm int) *hist {
	r.Transition()
	ver := uint64(len(h.vers) - 1)
	cur := h.vers[ver]
	var add []prefix.Entry
	var keys []string
	addKeys := slices.Sorted(maps.Keys(o.Add))
	rem := slices.Clone(o.Remove)
	if perm == 1 {
		slices.Reverse(addKeys)
		slices.Reverse(rem)
	}
	for _, k := range addKeys {
		add = append(add, prefix.Entry{VrfOutput: []byte(k), Commitment: ref.Commit(o.Add[k])})
		keys = append(keys, k)
	}
	keys = append(keys, rem...)
	next := cur.Clone()
	for _, k := range rem {
		delete(next, k)
	}
	for _, k := range addKeys {
		next[k] = ref.Commit(o.Add[k])
	}
	n := &hist{store: clone(h.store), vers: append(slices.Clone(h.vers), next), ops: append(slices.Clone(h.ops), o.Name)}
	root, proof, commits, err := prefix.NewTree(cs, n.store).Mutate(ver, add, bs(rem))
	kit.NoErr(err, "Mutate")
	kit.Check(bytes.Equal(root, next.Root()), "Mutate returned root %x, the contents hash to %x", root, next.Root())
	kit.Check(len(commits) == len(rem), "Mutate returned %d removed commitments for %d removals", len(commits), len(rem))
	all := make([][]byte, 0, len(keys))
	for _, k := range addKeys {
		all = append(all, cur[k])
	}
	all = append(all, commits...)
	judge(r, cur, keys, proof, all, "prior-version proof")
	for k, v := range h.store.Data {
		kit.Check(bytes.Equal(n.store.Data[k], v), "Mutate changed a record of an earlier version")
	}
	return n
}

// refused runs an invalid batch.
func refused(r *kit.Run, h *hist, ver uint64, add []prefix.Entry, rem [][]byte, what string) {
	r.Eval()
	s := clone(h.store)
	_, _, _, err := prefix.NewTree(cs, s).Mutate(ver, add, rem)
	kit.Check(err != nil, "%s: accepted", what)
	kit.Check(maps.EqualFunc(s.Data, h.store.Data, bytes.Equal), "%s: refused, but the store changed", what)
	r.Outcome("refused")
}

type faultStore struct {
	*memory.PrefixStore
	fail, n int
}

var errFault = errors.New("injected fault")

func (f *faultStore) Put(k string, v []byte) error {
	if f.n++; f.n == f.fail {
		return errFault
	}
	return f.PrefixStore.Put(k, v)
}

func (f *faultStore) BatchGet(k []string) (map[string][]byte, error) {
	if f.n++; f.n == f.fail {
		return nil, errFault
	}
	return f.PrefixStore.BatchGet(k)
}

func combos(keys []string, cur ref.Map, tag int) []op {
	out := []op{{Name: "", Add: map[string]int{}}}
	for i, k := range keys {
		var next []op
		for _, o := range out {
			add := func(a, rm bool, s string) {
				n := op{Add: maps.Clone(o.Add), Remove: slices.Clone(o.Remove), Name: o.Name}
				if rm {
					n.Remove = append(n.Remove, k)
				}
				if a {
					n.Add[k] = tag*16 + i
				}
				if s != "" {
					n.Name += fmt.Sprintf("%s%d ", s, i)
				}
				next = append(next, n)
			}
			add(false, false, "")
			if _, ok := cur[k]; ok {
				add(false, true, "remove")
				add(true, true, "replace")
			} else {
				add(true, false, "add")
			}
		}
		out = next
	}
	return out
}

func explore(r *kit.Run, h *hist, keys, probes []string, depth int, set string) {
	if depth == 0 || r.Expired() {
		r.Trace()
		return
	}
	cur := h.vers[len(h.vers)-1]
	for _, o := range combos(keys, cur, len(h.vers)) {
		var n *hist
		ok := false
		r.Try(func() any {
			return map[string]any{"keys": hex(keys), "set": set, "ops": append(slices.Clone(h.ops), o.Name)}
		}, func() {
			n = apply(r, h, o, 0)
			if len(o.Add)+len(o.Remove) > 1 {
				apply(r, h, o, 1)
			}
			verify(r, n, keys, probes, depth == 1)
			ok = true
		})
		if ok {
			r.State(set + fmt.Sprint(n.ops))
			explore(r, n, keys, probes, depth-1, set)
		}
	}
}

func hex(ks []string) []string {
	var o []string
	for _, k := range ks {
		o = append(o, fmt.Sprintf("%x", k))
	}
	return o
}

func verify(r *kit.Run, h *hist, keys, probes []string, leaf bool) {
	all := append(slices.Clone(keys), probes...)
	var multi []prefix.PrefixSearch
	for v := 1; v < len(h.vers); v++ {
		multi = append(multi, prefix.PrefixSearch{Version: uint64(v), VrfOutputs: bs(all)})
	}
	// All versions in one request, then the newest alone in several shapes.
	search(r, h, multi)
	slices.Reverse(multi)
	search(r, h, multi)
	v := uint64(len(h.vers) - 1)
	rev := slices.Clone(all)
	slices.Reverse(rev)
	one := func(ks ...string) {
		search(r, h, []prefix.PrefixSearch{{Version: v, VrfOutputs: bs(ks)}})
	}
	one(rev...)
	one()
	for _, k := range all {
		one(k)
		if v > 1 {
			search(r, h, []prefix.PrefixSearch{{Version: v, VrfOutputs: bs([]string{k})}, {Version: v - 1, VrfOutputs: bs(all)}, {Version: v, VrfOutputs: bs(all[:2])}})
		}
	}
	for _, q := range []prefix.PrefixSearch{{Version: 0, VrfOutputs: bs(all)}, {Version: v + 1, VrfOutputs: bs(all)}, {Version: v, VrfOutputs: [][]byte{[]byte("short")}}} {
		_, err := prefix.NewTree(cs, h.store).Search([]prefix.PrefixSearch{q})
		kit.Check(err != nil, "search of a version that does not exist, or for a short key, succeeded")
	}
	if !leaf {
		return
	}
	cur := h.vers[v]
	c := ref.Commit(99)
	for _, k := range all {
		e := prefix.Entry{VrfOutput: []byte(k), Commitment: c}
		if _, ok := cur[k]; ok {
			refused(r, h, v, []prefix.Entry{e}, nil, "adding a present entry")
			refused(r, h, v, []prefix.Entry{{VrfOutput: []byte(k), Commitment: cur[k]}}, nil, "adding a present entry again")
			refused(r, h, v, nil, bs([]string{k, k}), "removing an entry twice")
			refused(r, h, v, []prefix.Entry{e, e}, bs([]string{k}), "adding twice, removing once")
		} else {
			refused(r, h, v, nil, bs([]string{k}), "removing an absent entry")
			refused(r, h, v, []prefix.Entry{e}, bs([]string{k}), "adding and removing an absent entry")
			refused(r, h, v, []prefix.Entry{e, {VrfOutput: []byte(k), Commitment: ref.Commit(98)}}, nil, "adding an entry twice")
		}
		refused(r, h, v, []prefix.Entry{{VrfOutput: []byte(k), Commitment: c[:31]}}, nil, "short commitment")
		refused(r, h, v, []prefix.Entry{{VrfOutput: []byte(k)[:31], Commitment: c}}, nil, "short key")
		refused(r, h, v, nil, [][]byte{[]byte(k)[:31]}, "short removal")
		// Invalid item next to valid ones.
		for _, k2 := range all {
			if k2 == k {
				continue
			}
			_, in1 := cur[k]
			_, in2 := cur[k2]
			e2 := prefix.Entry{VrfOutput: []byte(k2), Commitment: c}
			if !in1 && in2 {
				refused(r, h, v, []prefix.Entry{e, e2}, nil, "one absent, one present addition")
				refused(r, h, v, nil, bs([]string{k2, k}), "one present, one absent removal")
			}
		}
	}
}

func faults(r *kit.Run, h *hist, keys []string, set string) {
	for _, o := range combos(keys, h.vers[len(h.vers)-1], 20) {
		for f := 1; ; f++ {
			done := false
			r.Try(func() any {
				return map[string]any{"set": set, "ops": append(slices.Clone(h.ops), o.Name), "fault at": f}
			}, func() {
				r.Eval()
				done = true
				fs := &faultStore{PrefixStore: clone(h.store), fail: f}
				var add []prefix.Entry
				for k, c := range o.Add {
					add = append(add, prefix.Entry{VrfOutput: []byte(k), Commitment: ref.Commit(c)})
				}
				_, _, _, err := prefix.NewTree(cs, fs).Mutate(uint64(len(h.vers)-1), add, bs(o.Remove))
				if fs.n < f {
					kit.NoErr(err, "Mutate without fault")
					return
				}
				done = false
				kit.Check(err != nil, "a failed store call was reported as success")
				r.Outcome("fault reported")
				// The stored versions are intact and the batch can be retried.
				n := &hist{store: fs.PrefixStore, vers: h.vers, ops: h.ops}
				for v := 1; v < len(h.vers); v++ {
					search(r, n, []prefix.PrefixSearch{{Version: uint64(v), VrfOutputs: bs(keys)}})
				}
				search(r, apply(r, n, o, 0), []prefix.PrefixSearch{{Version: uint64(len(h.vers)), VrfOutputs: bs(keys)}})
			})
			if done {
				break
			}
		}
	}
}

func TestCheck(t *testing.T) {
	r := kit.Start("C03", "model_checking", "depth-first search over all sequences of batches; a state is a history of batches (storage layout depends on history); every batch of every state is run on the real tree and every stored version is searched and compared with a map")
	K := ref.Key
	sets := []struct {
		name         string
		keys, probes []string
		q, th        int
	}{
		{"dense", []string{K("00"), K("01"), K("10"), K("11")}, []string{K("001"), K("111")}, 3, 4},
		{"comb", []string{K("0"), K("10"), K("110"), K("1110")}, []string{K("1111"), K("1001")}, 3, 4},
		{"deep", []string{K("0000000"), K("0000000" + "1"), K("00000000" + "1"), K("1")}, []string{K("01"), K(ref.Zeros(20) + "1")}, 3, 4},
		{"mid", []string{K("0010"), K("0011"), K("0100"), K("0101")}, []string{K("0111"), K("1")}, 3, 4},
		{"deepest", []string{K(ref.Ones(254)), K(ref.Ones(253) + "0"), K(ref.Ones(100) + "0")}, []string{K(ref.Ones(200)), K("0")}, 3, 5},
		{"five", []string{K("000"), K("001"), K("010"), K("011"), K("1")}, []string{K("0001")}, 2, 3},
	}
	type job struct {
		set int
		o   op
	}
	var jobs []job
	for i, s := range sets {
		for _, o := range combos(s.keys, ref.Map{}, 1) {
			jobs = append(jobs, job{i, o})
		}
	}
	start := func() *hist { return &hist{store: memory.NewPrefixStore(), vers: []ref.Map{{}}} }
	r.Parallel(len(jobs), func(i int) {
		s, o := sets[jobs[i].set], jobs[i].o
		d := kit.Pick(r, s.q, s.th)
		h := start()
		var n *hist
		ok := false
		r.Try(func() any { return map[string]any{"keys": hex(s.keys), "set": s.name, "ops": []string{o.Name}} }, func() {
			n = apply(r, h, o, 0)
			verify(r, n, s.keys, s.probes, true)
			ok = true
		})
		if !ok {
			return
		}
		r.State(s.name + fmt.Sprint(n.ops))
		explore(r, n, s.keys, s.probes, d-1, s.name)
		faults(r, n, s.keys, s.name)
	})
	r.Try(func() any { return "empty tree" }, func() {
		h := start()
		refused(r, h, 0, nil, bs([]string{K("0")}), "removal from the empty tree")
		refused(r, h, 0, []prefix.Entry{{VrfOutput: []byte(K("0")), Commitment: ref.Commit(0)}}, bs([]string{K("0")}), "add+remove in the empty tree")
	})

	// Populations that exceed one storage tile: blocks of keys are toggled.
	var dense, dense2, comb []string
	for i := range 64 {
		dense = append(dense, K(fmt.Sprintf("%06b", i)))
		if i < 32 {
			dense2 = append(dense2, K(fmt.Sprintf("%06b1", i*2)))
		}
	}
	for i := range 60 {
		comb = append(comb, K(ref.Ones(8)+ref.Ones(i)+"01"))
	}
	blocks := [][]string{dense, dense2, comb, {K("0000001"), K("00000001")}, {K(ref.Ones(8) + ref.Ones(30) + "011")}, {}}
	depth := kit.Pick(r, 4, 5)
	var seqs [][]int
	var gen func(p []int)
	gen = func(p []int) {
		if len(p) == depth {
			seqs = append(seqs, slices.Clone(p))
			return
		}
		for b := range blocks {
			gen(append(p, b))
		}
	}
	gen(nil)
	var uni []string
	for _, b := range blocks {
		uni = append(uni, b...)
	}
	uni = append(uni, K("1010101"), K(ref.Ones(40)+"1"))
	r.Parallel(len(seqs), func(i int) {
		desc := func() any { return map[string]any{"toggle blocks": seqs[i]} }
		r.Try(desc, func() {
			h := start()
			for step, b := range seqs[i] {
				o := op{Add: map[string]int{}, Name: fmt.Sprint("block", b)}
				cur := h.vers[len(h.vers)-1]
				for j, k := range blocks[b] {
					if _, ok := cur[k]; ok {
						o.Remove = append(o.Remove, k)
						if j%3 == 2 {
							o.Add[k] = 1000 + step*100 + j
						}
					} else {
						o.Add[k] = step*100 + j
					}
				}
				h = apply(r, h, o, 0)
				r.State("blocks" + fmt.Sprint(h.ops))
			}
			var all []prefix.PrefixSearch
			for v := 1; v < len(h.vers); v++ {
				var few []string
				for j := v % 11; j < len(uni); j += 11 {
					few = append(few, uni[j])
				}
				all = append(all, prefix.PrefixSearch{Version: uint64(v), VrfOutputs: bs(few)})
			}
			search(r, h, all)
			search(r, h, []prefix.PrefixSearch{{Version: uint64(len(h.vers) - 1), VrfOutputs: bs(uni)}})
			for v := 1; v < len(h.vers); v++ {
				for j := range uni {
					if (j+v)%5 == 0 {
						search(r, h, []prefix.PrefixSearch{{Version: uint64(v), VrfOutputs: bs(uni[j : j+1])}})
					}
				}
			}
			r.Trace()
		})
	})
	r.Sample(map[string]any{"set": "dense", "universe": hex(sets[0].keys), "a history": "add0 add2 | remove0 add1 | replace2"})
	r.Assume("iteration order of Go maps inside the implementation is not controlled; every state is searched several times")
	r.Finish()
}
