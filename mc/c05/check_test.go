// C05: before/after evaluation reproduces both roots of a prefix tree change.
package c05

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"slices"
	"strings"
	"testing"

	"katiemc/kit"
	"katiemc/ref"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/prefix"
)

var cs = suites.KTSha256Ed25519{}

const knownKey = "surviving-leaf-outside-batch"

type item struct {
	Key    string
	Commit []byte
}

func ent(is []item) []prefix.Entry {
	var o []prefix.Entry
	for _, i := range is {
		o = append(o, prefix.Entry{VrfOutput: []byte(i.Key), Commitment: i.Commit})
	}
	return o
}

// net computes the contents after the described change; ok is whether the
// description is true of m.
func net(m ref.Map, add, rem []item) (ref.Map, bool) {
	next := m.Clone()
	seen := map[string]int{}
	for _, x := range rem {
		if c, ok := m[x.Key]; !ok || !bytes.Equal(c, x.Commit) || seen[x.Key]&1 != 0 {
			return nil, false
		}
		seen[x.Key] |= 1
		delete(next, x.Key)
	}
	for _, x := range add {
		if _, ok := next[x.Key]; ok || seen[x.Key]&2 != 0 {
			return nil, false
		}
		seen[x.Key] |= 2
		next[x.Key] = x.Commit
	}
	return next, true
}

func desc(m ref.Map, add, rem []item, p ref.PProof) func() any {
	return func() any {
		return map[string]any{"tree": m.String(), "add": fmt.Sprintf("%x", add), "remove": fmt.Sprintf("%x", rem), "results": fmt.Sprintf("%+v", p.Results), "elements": fmt.Sprintf("%x", p.Elements)}
	}
}

// judge evaluates the description; must says that it is honest and has to be
// accepted.
func judge(r *kit.Run, m ref.Map, add, rem []item, p ref.PProof, must bool) {
	r.Try(desc(m, add, rem, p), func() {
		r.Eval()
		buf := bytes.NewBuffer(p.Bytes())
		pp, err := prefix.NewPrefixProof(cs, buf)
		kit.NoErr(err, "decoding")
		before, after, err := prefix.EvaluateBeforeAfter(cs, ent(add), ent(rem), pp)
		if err != nil {
			kit.Check(!must, "honest description refused: %v", err)
			r.Outcome("refused")
			return
		}
		if !bytes.Equal(before, m.Root()) {
			kit.Check(!must, "honest description: wrong root before")
			r.Outcome("other root before")
			return
		}
		next, ok := net(m, add, rem)
		kit.Check(ok, "a false description evaluates from the genuine root")
		if bytes.Equal(after, next.Root()) {
			r.Outcome("both roots")
			return
		}
		var touched []string
		for _, x := range append(slices.Clone(add), rem...) {
			if !slices.Contains(touched, x.Key) {
				touched = append(touched, x.Key)
			}
		}
		if opaque := m.AfterOpaque(touched, next); !bytes.Equal(opaque, next.Root()) && bytes.Equal(after, opaque) {
			kit.FailKey(knownKey, "the root after the change is not the genuine one: a removal leaves a leaf that is not part of the batch to take the place of its parent")
		}
		kit.Failf("wrong root after the change")
	})
}

func commit(i int) []byte { return ref.Commit(i) }

func subsets(ks []string) []ref.Map {
	var out []ref.Map
	for mask := 0; mask < 1<<len(ks); mask++ {
		m := ref.Map{}
		for i, k := range ks {
			if mask>>i&1 == 1 {
				m[k] = commit(i)
			}
		}
		out = append(out, m)
	}
	return out
}

// large describes changes of up to as many entries as a proof can cover, to
// trees of hundreds of entries.
func large(r *kit.Run) {
	key := func(kind string, i int) string {
		h := sha256.Sum256([]byte(fmt.Sprint(kind, i)))
		return string(h[:])
	}
	type shape struct{ Add, Remove, Replace, Rest int }
	var shapes []shape
	ns := []int{0, 1, 63, 64, 127, 128, 200, 254, 255}
	for _, a := range ns {
		for _, b := range ns {
			for _, c := range []int{0, 1, 60, 120, 127} {
				for _, rest := range []int{0, 1, 50, 400} {
					if a+b+2*c <= 255 {
						shapes = append(shapes, shape{a, b, c, rest})
					}
				}
			}
		}
	}
	r.Parallel(len(shapes), func(i int) {
		s := shapes[i]
		m := ref.Map{}
		var init, add, rem []item
		fill := func(kind string, n int) (o []item) {
			for k := range n {
				o = append(o, item{key(kind, k), commit(k)})
			}
			return
		}
		rem = fill("remove", s.Remove)
		for k, x := range fill("replace", s.Replace) {
			rem = append(rem, x)
			add = append(add, item{x.Key, commit(k + 1)})
		}
		init = append(slices.Clone(rem), fill("rest", s.Rest)...)
		add = append(add, fill("add", s.Add)...)
		for _, x := range init {
			m[x.Key] = x.Commit
		}
		for _, order := range []string{"as is", "sorted", "reversed"} {
			a, b := slices.Clone(add), slices.Clone(rem)
			for _, l := range [][]item{a, b} {
				switch order {
				case "sorted":
					slices.SortFunc(l, func(x, y item) int { return strings.Compare(x.Key, y.Key) })
				case "reversed":
					slices.Reverse(l)
				}
			}
			r.Distinct(fmt.Sprint("large", s, order))
			var keys []string
			for _, x := range slices.Concat(a, b) {
				keys = append(keys, x.Key)
			}
			judge(r, m, a, b, m.Prove(keys), true)
			var p ref.PProof
			good := false
			r.Try(desc(m, a, b, p), func() {
				st := memory.NewPrefixStore()
				_, _, _, err := prefix.NewTree(cs, st).Mutate(0, ent(init), nil)
				kit.NoErr(err, "Mutate")
				var gone [][]byte
				for _, x := range b {
					gone = append(gone, []byte(x.Key))
				}
				root, proof, commits, err := prefix.NewTree(cs, st).Mutate(1, ent(a), gone)
				kit.NoErr(err, "Mutate")
				next, _ := net(m, a, b)
				kit.Check(bytes.Equal(root, next.Root()), "the server's root after %+v is wrong", s)
				for k, c := range commits {
					kit.Check(bytes.Equal(c, b[k].Commit), "removed commitment differs")
				}
				buf := &bytes.Buffer{}
				kit.NoErr(proof.Marshal(buf), "Marshal")
				p, err = ref.ParsePProof(buf.Bytes())
				kit.NoErr(err, "parse")
				good = true
			})
			if !good {
				continue
			}
			judge(r, m, a, b, p, true)
			// One entry described wrongly.
			for _, k := range []int{0, len(a) / 2, len(a) - 1} {
				if k >= 0 && k < len(a) {
					w := slices.Clone(a)
					w[k] = w[(k+1)%len(a)]
					judge(r, m, w, b, p, len(a) == 1)
				}
			}
			for _, k := range []int{0, len(b) / 2, len(b) - 1} {
				if k >= 0 && k < len(b) {
					w := slices.Clone(b)
					w[k].Commit = commit(999)
					judge(r, m, a, w, p, false)
				}
			}
		}
	})
	r.Count("large changes", int64(3*len(shapes)))
}

func TestCheck(t *testing.T) {
	r := kit.Start("C05", "exploration", "every tree over each key universe x every description assigning each key one of none/add/remove/replace with right and wrong commitments, doubled entries, both list orders, with the server's own proof, with the reference proof, and (up to 2 entries) with every claimed result; non-trivial = distinct (tree, description)")
	K := ref.Key
	uni := []struct {
		name   string
		keys   []string
		depths []int
	}{
		{"dense", []string{K("00"), K("01"), K("10"), K("11")}, []int{0, 1, 2, 3}},
		{"comb", []string{K("0"), K("10"), K("110"), K("1110")}, []int{0, 1, 2, 3, 4}},
		{"deep", []string{K("0000000"), K("00000001"), K("000000001"), K("1")}, []int{0, 1, 7, 8, 9}},
		{"pairs", []string{K("00001"), K("00000"), K("11110"), K("11111")}, []int{0, 1, 4, 5}},
		{"five", []string{K("000"), K("001"), K("010"), K("011"), K("1")}, []int{0, 1, 2, 3}},
	}
	type job struct {
		u int
		m ref.Map
	}
	var jobs []job
	for i, u := range uni {
		for _, m := range subsets(u.keys) {
			jobs = append(jobs, job{i, m})
		}
	}
	r.Parallel(len(jobs), func(i int) {
		u, m := uni[jobs[i].u], jobs[i].m
		// Store holding version 1 = m.
		store := memory.NewPrefixStore()
		var init []item
		for _, k := range m.Keys() {
			init = append(init, item{k, m[k]})
		}
		if _, _, _, err := prefix.NewTree(cs, store).Mutate(0, ent(init), nil); err != nil {
			panic(err)
		}
		type d struct{ add, rem []item }
		ds := []d{{}}
		for x, k := range u.keys {
			var next []d
			for _, o := range ds {
				put := func(a, rm []item) {
					next = append(next, d{append(slices.Clone(o.add), a...), append(slices.Clone(o.rem), rm...)})
				}
				a, right, wrong := item{k, commit(20 + x)}, item{k, commit(x)}, item{k, commit(40 + x)}
				put(nil, nil)
				put([]item{a}, nil)
				put([]item{right}, nil)
				put(nil, []item{right})
				put(nil, []item{wrong})
				put([]item{a}, []item{right})
				put([]item{a}, []item{wrong})
				if len(u.keys) < 5 {
					put([]item{a, a}, nil)
					put([]item{a, wrong}, nil)
					put(nil, []item{right, right})
				}
			}
			ds = next
		}
		for _, o := range ds {
			if r.Expired() {
				return
			}
			r.Distinct(fmt.Sprint(u.name, m, o))
			_, ok := net(m, o.add, o.rem)
			var keys []string
			for _, x := range o.add {
				keys = append(keys, x.Key)
			}
			for _, x := range o.rem {
				keys = append(keys, x.Key)
			}
			judge(r, m, o.add, o.rem, m.Prove(keys), ok)
			ra, rr := slices.Clone(o.add), slices.Clone(o.rem)
			slices.Reverse(ra)
			slices.Reverse(rr)
			var rk []string
			for _, x := range append(slices.Clone(ra), rr...) {
				rk = append(rk, x.Key)
			}
			judge(r, m, ra, rr, m.Prove(rk), ok)
			if !ok {
				continue
			}
			// The server's own proof and roots.
			var p ref.PProof
			good := false
			r.Try(desc(m, o.add, o.rem, p), func() {
				s := memory.NewPrefixStore()
				for k, v := range store.Data {
					s.Data[k] = v
				}
				var rem [][]byte
				for _, x := range o.rem {
					rem = append(rem, []byte(x.Key))
				}
				_, proof, commits, err := prefix.NewTree(cs, s).Mutate(1, ent(o.add), rem)
				kit.NoErr(err, "Mutate")
				for i, c := range commits {
					kit.Check(bytes.Equal(c, o.rem[i].Commit), "removed commitment differs")
				}
				buf := &bytes.Buffer{}
				kit.NoErr(proof.Marshal(buf), "Marshal")
				p, err = ref.ParsePProof(buf.Bytes())
				kit.NoErr(err, "parse")
				good = true
			})
			if good {
				judge(r, m, o.add, o.rem, p, true)
				if len(o.add)+len(o.rem) > 0 && len(p.Elements) > 0 {
					q := p.Clone()
					q.Elements[0] = commit(66)
					judge(r, m, o.add, o.rem, q, false)
					q = p.Clone()
					q.Elements = q.Elements[1:]
					judge(r, m, o.add, o.rem, q, false)
				}
			}
		}
		// Any claimed results for up to two entries.
		var single []struct {
			add bool
			it  item
			res ref.PResult
		}
		for x, k := range u.keys {
			for _, dd := range u.depths {
				res := []ref.PResult{{Kind: ref.Incl, Depth: dd}, {Kind: ref.NonParent, Depth: dd}, {Kind: ref.NonLeaf, Depth: dd, Leaf: k, Commit: commit(x)}}
				for y, k2 := range u.keys {
					if _, ok := m[k2]; ok && k2 != k {
						res = append(res, ref.PResult{Kind: ref.NonLeaf, Depth: dd, Leaf: k2, Commit: commit(y)})
					}
				}
				for _, rs := range res {
					for _, c := range [][]byte{commit(x), commit(20 + x)} {
						for _, a := range []bool{true, false} {
							single = append(single, struct {
								add bool
								it  item
								res ref.PResult
							}{a, item{k, c}, rs})
						}
					}
				}
			}
		}
		run := func(idx ...int) {
			var add, rem []item
			var p ref.PProof
			var keys []string
			var ds []int
			for _, a := range []bool{true, false} {
				for _, i := range idx {
					if s := single[i]; s.add == a {
						if a {
							add = append(add, s.it)
						} else {
							rem = append(rem, s.it)
						}
						p.Results = append(p.Results, s.res)
						keys, ds = append(keys, s.it.Key), append(ds, s.res.Depth)
					}
				}
			}
			p.Elements = m.BestElements(keys, ds)
			judge(r, m, add, rem, p, false)
		}
		for a := range single {
			run(a)
			if r.Quick() && len(u.keys) == 5 {
				continue
			}
			for b := range single {
				run(a, b)
			}
		}
	})
	large(r)
	r.Sample(map[string]any{"tree": jobs[9].m.String(), "remove": "first key", "add": "second key"})
	r.Finish()
}
