// C01: log tree proofs are complete and its roots are canonical.
package c01

import (
	"bytes"
	"fmt"
	"slices"
	"testing"

	"katiemc/kit"
	"katiemc/ref"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/log"
	logmath "github.com/Bren2010/katie/tree/log/math"
)

var cs = suites.KTSha256Ed25519{}

func eq(a, b [][]byte) bool { return slices.EqualFunc(a, b, bytes.Equal) }

func leaf(i uint64) []byte { return ref.LeafVal("a", i) }

func ptr(x uint64) *uint64 { return &x }

type tc struct {
	N       uint64
	Entries []uint64
	NP, M   *uint64
	Store   string
}

// honest fetches a proof and evaluates it.
func honest(r *kit.Run, store *memory.LogStore, l *ref.Log, c tc) {
	r.Eval()
	proof, err := log.NewTree(cs, store).GetBatch(slices.Clone(c.Entries), c.N, c.NP, c.M)
	kit.NoErr(err, "GetBatch")
	v := log.NewVerifier(cs)
	if c.M != nil {
		kit.NoErr(v.Retain(*c.M, ref.Vals(l.Heads(*c.M))), "Retain")
	}
	eval := func(entries []uint64) {
		values := make([][]byte, len(entries))
		for i, x := range entries {
			values[i] = leaf(x)
		}
		full, add, err := v.Evaluate(entries, c.N, c.NP, values, proof)
		kit.NoErr(err, "Evaluate of an honest proof")
		kit.Check(eq(full, ref.Vals(l.Heads(c.N))), "full subtree heads differ from the reference")
		root, err := log.Root(cs, c.N, full)
		kit.NoErr(err, "Root")
		kit.Check(bytes.Equal(root, l.Root(c.N)), "root differs from the reference")
		if c.NP != nil {
			kit.Check(eq(add, ref.Vals(l.Heads(*c.NP))), "additional subtree heads differ from the reference")
		} else {
			kit.Check(len(add) == 0, "unrequested additional subtree heads")
		}
	}
	eval(slices.Clone(c.Entries))
	if len(c.Entries) > 1 {
		rev := slices.Clone(c.Entries)
		slices.Reverse(rev)
		eval(rev)
		p2, err := log.NewTree(cs, store).GetBatch(slices.Clone(rev), c.N, c.NP, c.M)
		kit.NoErr(err, "GetBatch in reverse order")
		kit.Check(eq(p2, proof), "proof depends on the order of the requested leaves")
	}
	r.Distinct(fmt.Sprint(c.N, c.Entries, deref(c.NP), deref(c.M)))
}

func deref(p *uint64) any {
	if p == nil {
		return nil
	}
	return *p
}

func TestCheck(t *testing.T) {
	r := kit.Start("C01", "exploration", "every (size, leaf subset, retained size, additional size) tuple, evaluated on the store as it was at that size and on the final store; non-trivial = distinct tuple whose honest proof was produced and evaluated to the reference heads and root")
	full := kit.Pick(r, uint64(8), uint64(11))
	pairs := kit.Pick(r, uint64(40), uint64(80))
	long := kit.Pick(r, uint64(2200), uint64(34000))

	// Append history: heads after every append, stored and stateless.
	l := ref.NewLog(leaf)
	store := memory.NewLogStore()
	snaps := map[uint64]*memory.LogStore{}
	snap := func() *memory.LogStore {
		c := memory.NewLogStore()
		for k, v := range store.Data {
			c.Data[k] = slices.Clone(v)
		}
		return c
	}
	var heads [][]byte
	for n := uint64(0); n < long && !r.Expired(); n++ {
		r.Try(func() any { return map[string]any{"append": n} }, func() {
			got, err := log.NewTree(cs, store).Append(n, leaf(n))
			kit.NoErr(err, "Append %d", n)
			want := ref.Vals(l.Heads(n + 1))
			kit.Check(eq(got, want), "Append(%d): heads differ from the reference", n)
			prev := slices.Clone(heads)
			next, err := log.Append(cs, n, heads, leaf(n))
			kit.NoErr(err, "stateless Append %d", n)
			kit.Check(eq(next, want), "stateless Append(%d): heads differ from the reference", n)
			kit.Check(eq(prev, heads), "stateless Append(%d) modified its input", n)
			root, err := log.Root(cs, n+1, next)
			kit.NoErr(err, "Root")
			kit.Check(bytes.Equal(root, l.Root(n+1)), "root of size %d differs from the reference", n+1)
			heads = next
			r.Eval()
			r.Distinct(fmt.Sprint("append", n))
		})
		if n+1 <= pairs || n+1 == long {
			snaps[n+1] = snap()
		}
	}
	r.Sample(map[string]any{"appends": long, "head": fmt.Sprintf("%x", l.Root(long))})

	opts := func(n uint64) []*uint64 {
		out := []*uint64{nil}
		for i := uint64(1); i <= n; i++ {
			out = append(out, ptr(i))
		}
		return out
	}
	// All subsets for small sizes.
	var jobs []func(rl *ref.Log)
	both := func(c tc) {
		jobs = append(jobs, func(rl *ref.Log) {
			c.Store = "at size"
			r.Try(func() any { return c }, func() { honest(r, snaps[c.N], rl, c) })
			c.Store = "final"
			r.Try(func() any { return c }, func() { honest(r, store, rl, c) })
		})
	}
	for n := uint64(1); n <= full; n++ {
		for mask := 0; mask < 1<<n; mask++ {
			var e []uint64
			for i := uint64(0); i < n; i++ {
				if mask>>i&1 == 1 {
					e = append(e, i)
				}
			}
			for _, m := range opts(n) {
				for _, np := range opts(n) {
					both(tc{N: n, Entries: e, NP: np, M: m})
				}
			}
		}
	}
	r.Count("all_subset_sizes_up_to", int64(full))
	// Zero, one and two leaves for larger sizes, all retained sizes.
	for n := full + 1; n <= pairs; n++ {
		for _, m := range opts(n) {
			both(tc{N: n, M: m})
			both(tc{N: n, M: m, NP: ptr(n - 1)})
			both(tc{N: n, M: m, NP: ptr(n/2 + 1)})
			for i := uint64(0); i < n; i++ {
				both(tc{N: n, Entries: []uint64{i}, M: m})
				for j := i + 1; j < n; j += 1 + n/8 {
					both(tc{N: n, Entries: []uint64{i, j}, M: m})
				}
			}
		}
	}
	r.Count("pair_sizes_up_to", int64(pairs))
	// Chunk-boundary sizes on the long log.
	for n := uint64(1); n <= long; n++ {
		near := false
		for b := uint64(1); b <= long; b *= 2 {
			if n+3 >= b && n <= b+3 {
				near = true
			}
		}
		if !near && n < long-2 {
			continue
		}
		for _, m := range []*uint64{nil, ptr(1), ptr((n + 1) / 2), ptr(max(n-1, 1)), ptr(n)} {
			for _, np := range []*uint64{nil, ptr(1), ptr((n + 2) / 3), ptr(n)} {
				seen := map[uint64]bool{}
				for b := uint64(1); b <= n; b *= 2 {
					for _, x := range []uint64{b - 1, b % n, n - 1 - (b-1)%n} {
						if !seen[x] {
							seen[x] = true
							c := tc{N: n, Entries: []uint64{x}, NP: np, M: m, Store: "final"}
							jobs = append(jobs, func(rl *ref.Log) {
								r.Try(func() any { return c }, func() { honest(r, store, rl, c) })
							})
						}
					}
				}
				var all []uint64
				for x := range seen {
					all = append(all, x)
				}
				slices.Sort(all)
				c := tc{N: n, Entries: all, NP: np, M: m, Store: "final"}
				jobs = append(jobs, func(rl *ref.Log) {
					r.Try(func() any { return c }, func() { honest(r, store, rl, c) })
				})
			}
		}
	}
	const shard = 256
	r.Parallel((len(jobs)+shard-1)/shard, func(i int) {
		rl := ref.NewLog(leaf)
		for k := i * shard; k < min((i+1)*shard, len(jobs)); k++ {
			jobs[k](rl)
		}
	})

	// Astronomic sizes: a log whose leaves are all equal but for a few, so the
	// reference can hash it; exercises the index arithmetic of the verifier.
	pos := func(n uint64) []uint64 {
		set := map[uint64]bool{0: true, n - 1: true, n / 2: true, n / 3: true}
		var out []uint64
		for x := range set {
			out = append(out, x)
		}
		slices.Sort(out)
		return out
	}
	for b := uint(10); b <= 62; b++ {
		for d := int64(-2); d <= 2; d++ {
			n := uint64(int64(uint64(1)<<b) + d)
			sp := map[uint64][]byte{}
			for _, x := range pos(n) {
				sp[x] = leaf(x)
			}
			s := ref.NewSparse(leaf(1<<63), sp)
			for _, m := range []*uint64{nil, ptr(n), ptr(n - 1), ptr(n / 2), ptr(n/2 + 1)} {
				for _, np := range []*uint64{nil, ptr(n), ptr(n - 2), ptr(n/2 - 1)} {
					e := pos(n)
					desc := func() any {
						return map[string]any{"sparse": true, "n": n, "m": deref(m), "np": deref(np), "entries": e}
					}
					r.Try(desc, func() {
						r.Eval()
						var proof, values [][]byte
						for _, x := range logmath.BatchCopath(e, n, np, m) {
							proof = append(proof, s.Node(x).Val)
						}
						for _, x := range e {
							values = append(values, sp[x])
						}
						v := log.NewVerifier(cs)
						if m != nil {
							kit.NoErr(v.Retain(*m, ref.Vals(s.Heads(*m))), "Retain")
						}
						got, add, err := v.Evaluate(e, n, np, values, proof)
						kit.NoErr(err, "Evaluate")
						kit.Check(eq(got, ref.Vals(s.Heads(n))), "heads differ from the reference")
						root, err := log.Root(cs, n, got)
						kit.NoErr(err, "Root")
						kit.Check(bytes.Equal(root, ref.RollUp(s.Heads(n))), "root differs from the reference")
						if np != nil {
							kit.Check(eq(add, ref.Vals(s.Heads(*np))), "additional heads differ from the reference")
						}
						r.Distinct(fmt.Sprint("sparse", n, deref(m), deref(np)))
					})
				}
			}
			// One more leaf, statelessly.
			r.Try(func() any { return map[string]any{"stateless append at": n} }, func() {
				r.Eval()
				got, err := log.Append(cs, n, ref.Vals(s.Heads(n)), leaf(n))
				kit.NoErr(err, "Append")
				sp2 := map[uint64][]byte{n: leaf(n)}
				for k, v := range sp {
					sp2[k] = v
				}
				s2 := ref.NewSparse(leaf(1<<63), sp2)
				kit.Check(eq(got, ref.Vals(s2.Heads(n+1))), "stateless append at %d differs", n)
				r.Distinct(fmt.Sprint("sparse append", n))
			})
		}
	}
	astronomic(r)
	r.Finish()
}
