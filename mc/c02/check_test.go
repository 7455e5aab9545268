// C02: log tree proofs are binding and a bad proof is refused.
package c02

import (
	"bytes"
	"fmt"
	"slices"
	"testing"

	"katiemc/kit"
	"katiemc/ref"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/log"
)

var cs = suites.KTSha256Ed25519{}

func eq(a, b [][]byte) bool { return slices.EqualFunc(a, b, bytes.Equal) }
func ptr(x uint64) *uint64  { return &x }
func deref(p *uint64) any {
	if p == nil {
		return nil
	}
	return *p
}

type claim struct {
	N        uint64
	Entries  []uint64
	NP       *uint64
	M        *uint64
	Values   [][]byte
	Heads    [][]byte
	Proof    [][]byte
	Mutation string
}

func (c claim) clone() claim {
	c.Entries, c.Values, c.Heads, c.Proof = slices.Clone(c.Entries), slices.Clone(c.Values), slices.Clone(c.Heads), slices.Clone(c.Proof)
	return c
}

func (c claim) desc() any {
	return map[string]any{"n": c.N, "entries": c.Entries, "np": deref(c.NP), "m": deref(c.M), "values": fmt.Sprintf("%x", c.Values), "heads": fmt.Sprintf("%x", c.Heads), "proof": fmt.Sprintf("%x", c.Proof), "mutation": c.Mutation}
}

// run evaluates the claim; ok is whether it produced the root of l at size N.
func run(c claim, l *ref.Log) (root []byte, add [][]byte, err error) {
	v := log.NewVerifier(cs)
	if c.M != nil {
		if err := v.Retain(*c.M, c.Heads); err != nil {
			return nil, nil, err
		}
	}
	full, add, err := v.Evaluate(c.Entries, c.N, c.NP, c.Values, c.Proof)
	if err != nil {
		return nil, nil, err
	}
	root, err = log.Root(cs, c.N, full)
	return root, add, err
}

// truthful reports whether every statement the claim makes is true of l.
func truthful(c claim, l *ref.Log) bool {
	for i, x := range c.Entries {
		if i >= len(c.Values) || x >= c.N || !bytes.Equal(c.Values[i], l.Leaf(x)) {
			return false
		}
	}
	if c.M != nil && !eq(c.Heads, ref.Vals(l.Heads(*c.M))) {
		return false
	}
	return len(c.Entries) == len(c.Values)
}

func check(r *kit.Run, c claim, l *ref.Log, changed bool) {
	r.Try(c.desc, func() {
		r.Eval()
		root, add, err := run(c, l)
		if err != nil {
			r.Outcome("error")
			return
		}
		if !bytes.Equal(root, l.Root(c.N)) {
			r.Outcome("other root")
			return
		}
		r.Outcome("genuine root")
		kit.Check(truthful(c, l), "a false claim evaluates to the genuine root")
		if c.NP != nil {
			kit.Check(eq(add, ref.Vals(l.Heads(*c.NP))), "genuine root, but the additional heads are not the genuine ones")
		}
		if changed {
			kit.Failf("a changed proof still evaluates to the genuine root")
		}
	})
	r.Distinct(fmt.Sprint(c.N, c.Entries, deref(c.NP), deref(c.M), c.Mutation))
}

func flip(b []byte, bit int) []byte {
	o := slices.Clone(b)
	o[bit/8] ^= 1 << (bit % 8)
	return o
}

func TestCheck(t *testing.T) {
	r := kit.Start("C02", "exploration", "every single-element change of every honest (size, leaf subset, retained size, additional size) proof, every mix of two forks' values, every ill-formed argument; non-trivial = distinct mutated claim evaluated")
	maxN := kit.Pick(r, uint64(6), uint64(8))
	la := func(i uint64) []byte { return ref.LeafVal("a", i) }
	store := memory.NewLogStore()
	for n := uint64(0); n < maxN; n++ {
		if _, err := log.NewTree(cs, store).Append(n, la(n)); err != nil {
			t.Fatal(err)
		}
	}
	opts := func(n uint64) []*uint64 {
		out := []*uint64{nil}
		for i := uint64(1); i <= n; i++ {
			out = append(out, ptr(i))
		}
		return out
	}
	var base []claim
	for n := uint64(1); n <= maxN; n++ {
		for mask := 0; mask < 1<<n; mask++ {
			var e []uint64
			for i := uint64(0); i < n; i++ {
				if mask>>i&1 == 1 {
					e = append(e, i)
				}
			}
			for _, m := range opts(n) {
				for _, np := range opts(n) {
					base = append(base, claim{N: n, Entries: e, NP: np, M: m})
				}
			}
		}
	}
	r.Parallel(len(base), func(i int) {
		l := ref.NewLog(la)
		c := base[i]
		for _, x := range c.Entries {
			c.Values = append(c.Values, la(x))
		}
		if c.M != nil {
			c.Heads = ref.Vals(l.Heads(*c.M))
		}
		var err error
		c.Proof, err = log.NewTree(cs, store).GetBatch(slices.Clone(c.Entries), c.N, c.NP, c.M)
		r.Try(c.desc, func() { kit.NoErr(err, "GetBatch") })
		c.Mutation = "none"
		check(r, c, l, false)
		mutate(r, c, l)
	})

	// Forks: the verifier retained heads of log A; the server mixes values of
	// A and of B, which differs from A in one leaf before the retained size.
	forkN := kit.Pick(r, uint64(7), uint64(9))
	type fj struct{ n, m, d uint64 }
	var fjs []fj
	for n := uint64(2); n <= forkN; n++ {
		for m := uint64(1); m <= n; m++ {
			for d := uint64(0); d < m; d++ {
				fjs = append(fjs, fj{n, m, d})
			}
		}
	}
	sb := make([]*memory.LogStore, forkN)
	for d := range forkN {
		sb[d] = memory.NewLogStore()
		for n := uint64(0); n < forkN; n++ {
			x := la(n)
			if n == d {
				x = ref.LeafVal("b", n)
			}
			log.NewTree(cs, sb[d]).Append(n, x)
		}
	}
	sa := memory.NewLogStore()
	for n := uint64(0); n < forkN; n++ {
		log.NewTree(cs, sa).Append(n, la(n))
	}
	r.Parallel(len(fjs), func(i int) {
		j := fjs[i]
		lb := ref.NewLog(func(i uint64) []byte {
			if i == j.d {
				return ref.LeafVal("b", i)
			}
			return la(i)
		})
		A := ref.NewLog(la)
		for mask := 0; mask < 1<<j.n; mask++ {
			var e []uint64
			for x := uint64(0); x < j.n; x++ {
				if mask>>x&1 == 1 {
					e = append(e, x)
				}
			}
			for _, np := range []*uint64{nil, ptr(j.n), ptr((j.n + 1) / 2)} {
				pa, _ := log.NewTree(cs, sa).GetBatch(slices.Clone(e), j.n, np, ptr(j.m))
				pb, _ := log.NewTree(cs, sb[j.d]).GetBatch(slices.Clone(e), j.n, np, ptr(j.m))
				for mix := 0; mix < 1<<len(pa); mix++ {
					for lv := 0; lv < 2; lv++ {
						c := claim{N: j.n, Entries: slices.Clone(e), NP: np, M: ptr(j.m), Heads: ref.Vals(A.Heads(j.m)), Mutation: fmt.Sprint("fork", j.d, mix, lv)}
						for _, x := range e {
							if lv == 0 {
								c.Values = append(c.Values, lb.Leaf(x))
							} else {
								c.Values = append(c.Values, la(x))
							}
						}
						for k := range pa {
							if mix>>k&1 == 1 {
								c.Proof = append(c.Proof, pa[k])
							} else {
								c.Proof = append(c.Proof, pb[k])
							}
						}
						r.Try(c.desc, func() {
							r.Eval()
							root, _, err := run(c, lb)
							if err != nil {
								r.Outcome("fork refused")
							} else {
								kit.Check(!bytes.Equal(root, lb.Root(j.n)), "the root of a fork is computed from the retained heads of the other log")
								r.Outcome("fork gives another root")
							}
						})
						r.Distinct(fmt.Sprint(c.N, c.Entries, deref(c.NP), deref(c.M), c.Mutation))
					}
				}
			}
		}
	})

	// Ill-formed arguments: an error, never a crash.
	l := ref.NewLog(la)
	must := func(name string, f func() error) {
		r.Try(func() any { return name }, func() {
			r.Eval()
			kit.Check(f() != nil, "%s: accepted", name)
			r.Outcome("ill-formed refused")
		})
		r.Distinct(name)
	}
	for m := uint64(1); m <= 9; m++ {
		for n := uint64(1); n < m; n++ {
			for np := uint64(0); np <= n; np++ {
				for pl := 0; pl <= 5; pl++ {
					for e := uint64(0); e <= n; e++ {
						must(fmt.Sprintf("evaluate size %d after %d np %d entries<%d proof len %d", n, m, np, e, pl), func() error {
							c := claim{N: n, M: ptr(m), Heads: ref.Vals(l.Heads(m))}
							if np > 0 {
								c.NP = ptr(np)
							}
							for x := uint64(0); x < e; x++ {
								c.Entries, c.Values = append(c.Entries, x), append(c.Values, la(x))
							}
							for range pl {
								c.Proof = append(c.Proof, la(0))
							}
							_, _, err := run(c, l)
							return err
						})
					}
				}
			}
		}
	}
	for n := uint64(1); n <= 9; n++ {
		for _, m := range []uint64{0, n + 1, n + 2, 2 * n, 1<<63 + 1, ^uint64(0)} {
			if m >= 1 && m <= n {
				continue
			}
			must(fmt.Sprintf("getbatch size %d prev %d", n, m), func() error {
				_, err := log.NewTree(cs, sa).GetBatch([]uint64{0}, n, nil, ptr(m))
				return err
			})
			must(fmt.Sprintf("getbatch size %d additional %d", n, m), func() error {
				_, err := log.NewTree(cs, sa).GetBatch([]uint64{0}, n, ptr(m), nil)
				return err
			})
			must(fmt.Sprintf("evaluate size %d additional %d", n, m), func() error {
				_, _, err := log.NewVerifier(cs).Evaluate([]uint64{0}, n, ptr(m), [][]byte{la(0)}, nil)
				return err
			})
		}
		for _, x := range []uint64{n, n + 1, 2 * n, 1 << 62, 1 << 63, ^uint64(0)} {
			must(fmt.Sprintf("getbatch size %d leaf %d", n, x), func() error {
				_, err := log.NewTree(cs, sa).GetBatch([]uint64{x}, n, nil, nil)
				return err
			})
			for pl := 0; pl < 5; pl++ {
				must(fmt.Sprintf("evaluate size %d leaf %d proof %d", n, x, pl), func() error {
					_, _, err := log.NewVerifier(cs).Evaluate([]uint64{x}, n, nil, [][]byte{la(0)}, make([][]byte, pl))
					return err
				})
			}
		}
		must(fmt.Sprintf("getbatch size %d duplicate", n), func() error {
			_, err := log.NewTree(cs, sa).GetBatch([]uint64{0, 0}, n, nil, nil)
			return err
		})
		for k := 0; k < 6; k++ {
			if k == len(l.Heads(n)) {
				continue
			}
			must(fmt.Sprintf("retain size %d with %d heads", n, k), func() error {
				return log.NewVerifier(cs).Retain(n, slices.Repeat([][]byte{la(0)}, k))
			})
			must(fmt.Sprintf("root size %d with %d heads", n, k), func() error {
				_, err := log.Root(cs, n, slices.Repeat([][]byte{la(0)}, k))
				return err
			})
		}
		for _, ln := range []int{0, 1, 31, 33} {
			must(fmt.Sprintf("retain size %d with short head %d", n, ln), func() error {
				h := ref.Vals(l.Heads(n))
				h[len(h)-1] = make([]byte, ln)
				return log.NewVerifier(cs).Retain(n, h)
			})
			must(fmt.Sprintf("append size %d with leaf of %d bytes", n, ln), func() error {
				_, err := log.NewTree(cs, memory.NewLogStore()).Append(0, make([]byte, ln))
				return err
			})
		}
	}
	for _, n := range []uint64{0, 1<<63 + 1, ^uint64(0)} {
		must(fmt.Sprintf("getbatch size %d", n), func() error {
			_, err := log.NewTree(cs, sa).GetBatch(nil, n, nil, nil)
			return err
		})
		must(fmt.Sprintf("evaluate size %d", n), func() error {
			_, _, err := log.NewVerifier(cs).Evaluate(nil, n, nil, nil, nil)
			return err
		})
		for k := 1; k <= 65; k++ {
			must(fmt.Sprintf("evaluate size %d with %d proof elements", n, k), func() error {
				_, _, err := log.NewVerifier(cs).Evaluate(nil, n, nil, nil, slices.Repeat([][]byte{la(0)}, k))
				return err
			})
		}
		must(fmt.Sprintf("retain size %d", n), func() error { return log.NewVerifier(cs).Retain(n, nil) })
		must(fmt.Sprintf("root size %d", n), func() error {
			_, err := log.Root(cs, n, nil)
			return err
		})
	}
	r.Sample(base[len(base)/2].desc())
	r.Finish()
}

func mutate(r *kit.Run, base claim, l *ref.Log) {
	do := func(name string, changed bool, f func(c *claim)) {
		c := base.clone()
		f(&c)
		c.Mutation = name
		check(r, c, l, changed)
	}
	other := ref.LeafVal("other", 1)
	for i := range base.Values {
		do(fmt.Sprint("value flip ", i), true, func(c *claim) { c.Values[i] = flip(c.Values[i], 255) })
		do(fmt.Sprint("value other ", i), true, func(c *claim) { c.Values[i] = other })
		for x := uint64(0); x < base.N; x++ {
			if x != base.Entries[i] {
				do(fmt.Sprint("position ", i, " to ", x), true, func(c *claim) { c.Entries[i] = x })
			}
		}
		do(fmt.Sprint("drop leaf ", i), len(base.Proof) > 0 || true, func(c *claim) {
			// Dropping the claim about one leaf without adapting the proof: fine
			// only where the leaf was redundant for the verifier.
			c.Entries = slices.Delete(c.Entries, i, i+1)
			c.Values = slices.Delete(c.Values, i, i+1)
			if p, err := proofFor(*c, l); err == nil && eq(p, c.Proof) {
				c.Values = nil // same proof legitimately fits; make it ill-formed instead
				c.Entries = []uint64{0}
			}
		})
		do(fmt.Sprint("drop value ", i), true, func(c *claim) { c.Values = slices.Delete(c.Values, i, i+1) })
		for _, ln := range []int{0, 31, 33} {
			do(fmt.Sprint("value length ", i, ln), true, func(c *claim) { c.Values[i] = make([]byte, ln) })
		}
		for j := range i {
			do(fmt.Sprint("swap values ", i, j), true, func(c *claim) { c.Values[i], c.Values[j] = c.Values[j], c.Values[i] })
		}
	}
	for i := range base.Heads {
		do(fmt.Sprint("head flip ", i), true, func(c *claim) { c.Heads[i] = flip(c.Heads[i], 0) })
		for j := range i {
			do(fmt.Sprint("swap heads ", i, j), true, func(c *claim) { c.Heads[i], c.Heads[j] = c.Heads[j], c.Heads[i] })
		}
	}
	for i := range base.Proof {
		do(fmt.Sprint("proof flip ", i), true, func(c *claim) { c.Proof[i] = flip(c.Proof[i], 7) })
		do(fmt.Sprint("proof other ", i), true, func(c *claim) { c.Proof[i] = other })
		do(fmt.Sprint("proof drop ", i), true, func(c *claim) { c.Proof = slices.Delete(c.Proof, i, i+1) })
		do(fmt.Sprint("proof dup ", i), true, func(c *claim) { c.Proof = slices.Insert(c.Proof, i, c.Proof[i]) })
		for _, ln := range []int{0, 31, 33} {
			do(fmt.Sprint("proof length ", i, ln), true, func(c *claim) { c.Proof[i] = make([]byte, ln) })
		}
		for j := range i {
			if !bytes.Equal(base.Proof[i], base.Proof[j]) {
				do(fmt.Sprint("proof swap ", i, j), true, func(c *claim) { c.Proof[i], c.Proof[j] = c.Proof[j], c.Proof[i] })
			}
		}
		for x := uint64(0); x < base.N; x++ {
			if v := l.Leaf(x); !bytes.Equal(v, base.Proof[i]) {
				do(fmt.Sprint("proof leaf ", i, x), true, func(c *claim) { c.Proof[i] = v })
			}
		}
	}
	do("proof extra", true, func(c *claim) { c.Proof = append(c.Proof, other) })
	do("proof extra first", true, func(c *claim) { c.Proof = slices.Insert(c.Proof, 0, other) })
	do("value extra", true, func(c *claim) { c.Values = append(c.Values, other) })
}

func proofFor(c claim, l *ref.Log) ([][]byte, error) {
	store := memory.NewLogStore()
	for n := uint64(0); n < c.N; n++ {
		if _, err := log.NewTree(cs, store).Append(n, l.Leaf(n)); err != nil {
			return nil, err
		}
	}
	return log.NewTree(cs, store).GetBatch(slices.Clone(c.Entries), c.N, c.NP, c.M)
}
