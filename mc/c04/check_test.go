// C04: prefix tree proofs cannot show false inclusion or non-inclusion.
package c04

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"slices"
	"testing"

	"katiemc/kit"
	"katiemc/ref"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/tree/prefix"
)

var cs = suites.KTSha256Ed25519{}

type claim struct {
	E ref.PEntry
	R ref.PResult
}

func true1(m ref.Map, c claim) bool {
	v, ok := m[c.E.Key]
	if c.R.Kind == ref.Incl {
		return ok && bytes.Equal(v, c.E.Commit)
	}
	return !ok
}

// verify runs the real decoder and verifier.
func verify(entries []ref.PEntry, p ref.PProof, root []byte) error {
	buf := bytes.NewBuffer(p.Bytes())
	pp, err := prefix.NewPrefixProof(cs, buf)
	kit.NoErr(err, "decoding a well-formed proof")
	kit.Check(buf.Len() == 0, "decoder left bytes over")
	es := make([]prefix.Entry, len(entries))
	for i, e := range entries {
		es[i] = prefix.Entry{VrfOutput: []byte(e.Key), Commitment: e.Commit}
	}
	return prefix.Verify(cs, es, pp, root)
}

func desc(m ref.Map, cl []claim, p ref.PProof, what string) func() any {
	return func() any {
		var c []string
		for _, x := range cl {
			c = append(c, fmt.Sprintf("%x commitment %x: kind %d depth %d leaf %x %x", x.E.Key, x.E.Commit, x.R.Kind, x.R.Depth, x.R.Leaf, x.R.Commit))
		}
		return map[string]any{"tree": m.String(), "claims": c, "elements": fmt.Sprintf("%x", p.Elements), "what": what}
	}
}

func attack(r *kit.Run, m ref.Map, root []byte, cl []claim, elements [][]byte, what string) {
	var es []ref.PEntry
	p := ref.PProof{Elements: elements}
	for _, c := range cl {
		es = append(es, c.E)
		p.Results = append(p.Results, c.R)
	}
	r.Try(desc(m, cl, p, what), func() {
		if verify(es, p, root) != nil {
			return
		}
		for _, c := range cl {
			if !true1(m, c) {
				kit.Failf("a proof verifies against the genuine root although key %x (inclusion claimed: %v) is not as claimed", c.E.Key, c.R.Kind == ref.Incl)
			}
		}
		r.Outcome("true claim verified")
	})
}

// options lists every result an adversary can claim for one key.
func options(m ref.Map, all ref.Map, key string, depths []int) []claim {
	var out []claim
	truth := all[key]
	for _, d := range depths {
		for _, c := range [][]byte{truth, ref.Commit(77)} {
			out = append(out, claim{ref.PEntry{Key: key, Commit: c}, ref.PResult{Kind: ref.Incl, Depth: d}})
		}
		nc := []byte(nil)
		out = append(out, claim{ref.PEntry{Key: key, Commit: nc}, ref.PResult{Kind: ref.NonParent, Depth: d}})
		leaves := m.Clone()
		leaves[key] = truth
		for _, k := range leaves.Keys() {
			out = append(out, claim{ref.PEntry{Key: key, Commit: nc}, ref.PResult{Kind: ref.NonLeaf, Depth: d, Leaf: k, Commit: leaves[k]}})
		}
		out = append(out, claim{ref.PEntry{Key: key, Commit: nc}, ref.PResult{Kind: ref.NonLeaf, Depth: d, Leaf: ref.Key("1100110011"), Commit: ref.Commit(5)}})
	}
	return out
}

func best(m ref.Map, cl []claim) [][]byte {
	var ks []string
	var ds []int
	for _, c := range cl {
		ks, ds = append(ks, c.E.Key), append(ds, c.R.Depth)
	}
	return m.BestElements(ks, ds)
}

func subsets(all ref.Map) []ref.Map {
	ks := all.Keys()
	var out []ref.Map
	for mask := 0; mask < 1<<len(ks); mask++ {
		m := ref.Map{}
		for i, k := range ks {
			if mask>>i&1 == 1 {
				m[k] = all[k]
			}
		}
		out = append(out, m)
	}
	return out
}

// large makes one false claim among as many true ones as a proof holds.
func large(r *kit.Run) {
	key := func(i int) string {
		h := sha256.Sum256([]byte(fmt.Sprint("large", i)))
		return string(h[:])
	}
	m := ref.Map{}
	for i := range 300 {
		m[key(i)] = ref.Commit(i)
	}
	root := m.Root()
	for _, n := range []int{64, 127, 128, 129, 254, 255} {
		// Present and absent keys in turn.
		var cl []claim
		for i := range n {
			k := key(i)
			if i%3 == 2 {
				k = key(1000 + i)
			}
			c := claim{ref.PEntry{Key: k, Commit: m[k]}, m.Lookup(k)}
			cl = append(cl, c)
		}
		elements := best(m, cl)
		var es []ref.PEntry
		p := ref.PProof{Elements: elements}
		for _, c := range cl {
			es = append(es, c.E)
			p.Results = append(p.Results, c.R)
		}
		r.Try(desc(m, cl, p, "honest"), func() {
			kit.NoErr(verify(es, p, root), "an honest proof of %d lookups is refused", n)
		})
		r.Parallel(n, func(i int) {
			d := cl[i].R.Depth
			ks := m.Keys()
			other := ks[i]
			for _, c := range []claim{
				{ref.PEntry{Key: cl[i].E.Key, Commit: ref.Commit(777)}, ref.PResult{Kind: ref.Incl, Depth: d}},
				{ref.PEntry{Key: cl[i].E.Key}, ref.PResult{Kind: ref.NonParent, Depth: d}},
				{ref.PEntry{Key: cl[i].E.Key}, ref.PResult{Kind: ref.NonLeaf, Depth: d, Leaf: other, Commit: m[other]}},
				{ref.PEntry{Key: cl[i].E.Key}, ref.PResult{Kind: ref.NonLeaf, Depth: d, Leaf: cl[i].E.Key, Commit: m[cl[i].E.Key]}},
				{ref.PEntry{Key: other, Commit: ref.Commit(777)}, ref.PResult{Kind: ref.Incl, Depth: d}},
				{ref.PEntry{Key: key(2000 + i), Commit: m[cl[i].E.Key]}, ref.PResult{Kind: ref.Incl, Depth: d}},
				{ref.PEntry{Key: cl[(i+1)%n].E.Key, Commit: ref.Commit(777)}, ref.PResult{Kind: ref.Incl, Depth: cl[(i+1)%n].R.Depth}},
			} {
				if c.R.Kind == ref.NonLeaf && c.R.Commit == nil {
					continue
				}
				r.Eval()
				r.Distinct(fmt.Sprint("large", n, i, c.R.Kind, c.E.Key))
				l := slices.Clone(cl)
				l[i] = c
				attack(r, m, root, l, elements, "one false claim among many")
				attack(r, m, root, l, best(m, l), "one false claim among many")
			}
		})
	}
}

func TestCheck(t *testing.T) {
	r := kit.Start("C04", "exploration", "every tree over each key universe; every ordered list of up to 2 (3 in small universes) distinct keys with every claimed result kind, depth, leaf and commitment, copath filled with the genuine hashes (the strongest choice without a hash collision), plus every single edit of every honest proof; non-trivial = distinct (tree, claim list)")
	K := ref.Key
	uni := []struct {
		name         string
		keys, probes []string
		depths       []int
		triples      bool
	}{
		{"two", []string{K("0"), K("1")}, []string{K("01")}, []int{0, 1, 2}, true},
		{"three", []string{K("00"), K("01"), K("1")}, nil, []int{0, 1, 2, 3}, true},
		{"dense", []string{K("00"), K("01"), K("10"), K("11")}, []string{K("001"), K("111")}, []int{0, 1, 2, 3}, false},
		{"comb", []string{K("0"), K("10"), K("110"), K("1110")}, []string{K("1111")}, []int{0, 1, 2, 3, 4, 5}, false},
		{"deep", []string{K("0000000"), K("00000001"), K("000000001"), K("1")}, []string{K("01")}, []int{0, 1, 2, 7, 8, 9, 10}, false},
		{"deepest", []string{K(ref.Ones(254)), K(ref.Ones(253) + "0"), K("0")}, []string{K(ref.Ones(200))}, []int{0, 1, 253, 254, 255}, false},
	}
	type job struct {
		u   int
		m   ref.Map
		all ref.Map
	}
	var jobs []job
	for i, u := range uni {
		all := ref.Map{}
		for j, k := range u.keys {
			all[k] = ref.Commit(j)
		}
		for _, m := range subsets(all) {
			jobs = append(jobs, job{i, m, all})
		}
	}
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		u := uni[j.u]
		m := j.m
		root := m.Root()
		all := j.all.Clone()
		for x, k := range u.probes {
			all[k] = ref.Commit(50 + x)
		}
		keys := append(slices.Clone(u.keys), u.probes...)
		opts := map[string][]claim{}
		for _, k := range keys {
			opts[k] = options(m, all, k, u.depths)
		}
		n := int64(0)
		try := func(cl ...claim) {
			n++
			attack(r, m, root, cl, best(m, cl), "forged")
		}
		for _, a := range keys {
			for _, ca := range opts[a] {
				try(ca)
				for _, b := range keys {
					if a == b {
						continue
					}
					for _, cb := range opts[b] {
						try(ca, cb)
						if !u.triples && !(!r.Quick() && len(m) >= 3 && j.u == 2) {
							continue
						}
						for _, c := range keys {
							if c == a || c == b {
								continue
							}
							for _, cc := range opts[c] {
								try(ca, cb, cc)
							}
						}
					}
				}
			}
		}
		r.Evals(n)
		r.Count("forged_claim_lists", n)
		// One claim list per iteration above is distinct by construction.
		r.Distinct(fmt.Sprint(u.name, m, n))
		// All depths for a single key (no crash, no false claim).
		for _, k := range keys {
			for d := 0; d <= 255; d++ {
				for _, c := range options(m, all, k, []int{d}) {
					r.Eval()
					r.Distinct(fmt.Sprint(u.name, m, k, d, c.R.Kind, c.R.Leaf, c.E.Commit))
					attack(r, m, root, []claim{c}, best(m, []claim{c}), "all depths")
				}
			}
		}
		// Edits of honest proofs.
		for mask := 1; mask < 1<<len(keys); mask++ {
			var q []string
			for x, k := range keys {
				if mask>>x&1 == 1 {
					q = append(q, k)
				}
			}
			edits(r, m, root, q, keys, all)
			if len(q) > 1 {
				rev := slices.Clone(q)
				slices.Reverse(rev)
				edits(r, m, root, rev, keys, all)
			}
		}
	})
	crash(r)
	large(r)
	r.Sample(map[string]any{"universe": "dense", "tree": jobs[20].m.String()})
	r.Finish()
}

func edits(r *kit.Run, m ref.Map, root []byte, q, keys []string, all ref.Map) {
	honest := m.Prove(q)
	var base []claim
	for i, k := range q {
		base = append(base, claim{ref.PEntry{Key: k, Commit: m[k]}, honest.Results[i]})
	}
	try := func(what string, f func(cl []claim, el [][]byte) ([]claim, [][]byte)) {
		cl, el := f(slices.Clone(base), slices.Clone(honest.Elements))
		r.Eval()
		r.Distinct(fmt.Sprint(m, q, what))
		attack(r, m, root, cl, el, what)
	}
	// The unedited proof verifies.
	r.Try(desc(m, base, honest, "honest"), func() {
		r.Eval()
		es := []ref.PEntry{}
		for _, c := range base {
			es = append(es, c.E)
		}
		kit.NoErr(verify(es, honest, root), "honest proof refused")
		kit.Check(verify(es, honest, ref.Commit(3)) != nil, "honest proof verifies against another root")
	})
	for i := range base {
		for _, k := range keys {
			try(fmt.Sprintf("entry %d becomes %x", i, k), func(cl []claim, el [][]byte) ([]claim, [][]byte) {
				cl[i].E = ref.PEntry{Key: k, Commit: cl[i].E.Commit}
				return cl, el
			})
		}
		for _, c := range [][]byte{nil, ref.Commit(77), ref.Zero, all[q[0]]} {
			try(fmt.Sprintf("commitment %d becomes %x", i, c), func(cl []claim, el [][]byte) ([]claim, [][]byte) {
				cl[i].E.Commit = c
				return cl, el
			})
		}
		for k := byte(1); k <= 3; k++ {
			try(fmt.Sprintf("kind %d becomes %d", i, k), func(cl []claim, el [][]byte) ([]claim, [][]byte) {
				x := cl[i].R
				x.Kind = k
				if k == ref.NonLeaf && x.Leaf == "" {
					x.Leaf, x.Commit = cl[i].E.Key, all[cl[i].E.Key]
				}
				cl[i].R = x
				return cl, el
			})
		}
		for _, dd := range []int{-1, 1, 2, 8} {
			try(fmt.Sprintf("depth %d changes by %d", i, dd), func(cl []claim, el [][]byte) ([]claim, [][]byte) {
				cl[i].R.Depth = (cl[i].R.Depth + dd + 256) % 256
				return cl, el
			})
		}
		for j := range i {
			try(fmt.Sprintf("results %d and %d swap", i, j), func(cl []claim, el [][]byte) ([]claim, [][]byte) {
				cl[i].R, cl[j].R = cl[j].R, cl[i].R
				return cl, el
			})
			try(fmt.Sprintf("commitments %d and %d swap", i, j), func(cl []claim, el [][]byte) ([]claim, [][]byte) {
				cl[i].E.Commit, cl[j].E.Commit = cl[j].E.Commit, cl[i].E.Commit
				return cl, el
			})
		}
		try(fmt.Sprintf("entry %d doubled", i), func(cl []claim, el [][]byte) ([]claim, [][]byte) {
			d := cl[i]
			if d.R.Kind == ref.Incl {
				d.E.Commit = ref.Commit(77)
			}
			return append(cl, d), el
		})
		r.Try(desc(m, base, honest, "entries and results of different length"), func() {
			es := []ref.PEntry{}
			for _, c := range base {
				es = append(es, c.E)
			}
			kit.Check(verify(es[1:], honest, root) != nil, "fewer entries than results accepted")
			kit.Check(verify(append(es, ref.PEntry{Key: ref.Key("0101010101")}), honest, root) != nil, "more entries than results accepted")
		})
	}
	for i := range honest.Elements {
		mut := func(what string, v []byte) {
			if bytes.Equal(v, honest.Elements[i]) {
				return
			}
			r.Try(desc(m, base, honest, what), func() {
				r.Eval()
				p := honest.Clone()
				p.Elements[i] = v
				es := []ref.PEntry{}
				for _, c := range base {
					es = append(es, c.E)
				}
				kit.Check(verify(es, p, root) != nil, "%s: changed copath value accepted", what)
			})
		}
		x := slices.Clone(honest.Elements[i])
		x[31] ^= 1
		mut("element bit", x)
		mut("element zero", ref.Zero)
		mut("element root", root)
		for j := range honest.Elements {
			mut("element copied", honest.Elements[j])
		}
	}
	for n := 0; n <= len(honest.Elements)+2; n++ {
		if n == len(honest.Elements) {
			continue
		}
		r.Try(desc(m, base, honest, "element count"), func() {
			r.Eval()
			p := honest.Clone()
			if n < len(p.Elements) {
				p.Elements = p.Elements[:n]
			} else {
				for len(p.Elements) < n {
					p.Elements = append(p.Elements, ref.Zero)
				}
			}
			es := []ref.PEntry{}
			for _, c := range base {
				es = append(es, c.E)
			}
			kit.Check(verify(es, p, root) != nil, "wrong number of copath values accepted")
		})
	}
}

// crash feeds malformed shapes.
func crash(r *kit.Run) {
	k := ref.Key("0")
	m := ref.Map{k: ref.Commit(0), ref.Key("1"): ref.Commit(1)}
	h := m.Prove([]string{k}).Bytes()
	try := func(raw []byte, es []prefix.Entry) {
		r.Try(func() any { return fmt.Sprintf("bytes %x entries %x", raw, es) }, func() {
			r.Eval()
			r.Distinct(fmt.Sprintf("bytes %x entries %x", raw, es))
			buf := bytes.NewBuffer(raw)
			pp, err := prefix.NewPrefixProof(cs, buf)
			if err != nil {
				r.Outcome("undecodable")
				return
			}
			if buf.Len() != 0 {
				return
			}
			if prefix.Verify(cs, es, pp, m.Root()) == nil {
				for i, e := range es {
					v, ok := m[string(e.VrfOutput)]
					kit.Check(pp.Results[i].Inclusion() == ok && (!ok || bytes.Equal(v, e.Commitment)), "false claim verified")
				}
			}
		})
	}
	es := []prefix.Entry{{VrfOutput: []byte(k), Commitment: ref.Commit(0)}}
	for n := 0; n <= len(h); n++ {
		try(h[:n], es)
	}
	for i := range h {
		for b := 0; b < 256; b++ {
			if i > 3 && b%17 != 0 {
				continue
			}
			x := slices.Clone(h)
			x[i] = byte(b)
			try(x, es)
			try(append(x, make([]byte, 40)...), es)
		}
	}
	for _, ln := range []int{0, 1, 31, 33, 64} {
		try(h, []prefix.Entry{{VrfOutput: make([]byte, ln), Commitment: ref.Commit(0)}})
		try(h, []prefix.Entry{{VrfOutput: []byte(k), Commitment: make([]byte, ln)}})
	}
	try(h, nil)
	try(h, append(es, es...))
	try([]byte{0, 0, 0}, nil)
	try([]byte{0, 0, 1}, nil)
	try(append([]byte{0, 0, 1}, m.Root()...), nil)
}
