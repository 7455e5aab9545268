// C06: binary ladders always decide how the greatest version relates to a
// target.
package c06

import (
	"bytes"
	"cmp"
	"fmt"
	"math/bits"
	"slices"
	"testing"

	"katiemc/kit"
	"katiemc/ref"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/tree/prefix"
	tmath "github.com/Bren2010/katie/tree/transparency/math"
)

var cs = suites.KTSha256Ed25519{}

// base is the definition of the full ladder: powers of two minus one until one
// exceeds t, then bisection of the last interval.
func base(t uint32) []uint32 {
	const max = 1<<32 - 1
	var out []uint32
	lo, hi := int64(-1), int64(-1)
	for k := 0; ; k++ {
		v := int64(1)<<k - 1
		if v > max { // no such version: the interval is closed by the type
			hi = max + 1
			break
		}
		out = append(out, uint32(v))
		if v > int64(t) {
			hi = v
			break
		}
		lo = v
	}
	for hi-lo > 1 {
		mid := (lo + hi) / 2
		out = append(out, uint32(mid))
		if mid <= int64(t) {
			lo = mid
		} else {
			hi = mid
		}
	}
	return out
}

func expect(t uint32, n int64, left, right map[uint32]struct{}) []uint32 {
	out := []uint32{}
	for _, v := range base(t) {
		_, l := left[v]
		_, r := right[v]
		if !l && !r {
			out = append(out, v)
		}
		if in := int64(v) <= n; in != (v <= t) {
			break
		}
	}
	return out
}

var protos [2]prefix.PrefixSearchResult // [1] inclusion, [0] non-inclusion

// proof builds a prefix proof with the given results, through the decoder.
func proof(results []bool) *prefix.PrefixProof {
	p := &prefix.PrefixProof{Results: make([]prefix.PrefixSearchResult, len(results))}
	for i, in := range results {
		if in {
			p.Results[i] = protos[1]
		} else {
			p.Results[i] = protos[0]
		}
	}
	return p
}

func initProtos() {
	for i, k := range []byte{ref.NonParent, 1} {
		p, err := prefix.NewPrefixProof(cs, bytes.NewBuffer(ref.PProof{Results: []ref.PResult{{Kind: k}}}.Bytes()))
		kit.NoErr(err, "decoding")
		protos[i] = p.Results[0]
	}
	kit.Check(protos[1].Inclusion() && !protos[0].Inclusion(), "Inclusion")
}

func set(vs []uint32) map[uint32]struct{} {
	m := map[uint32]struct{}{}
	for _, v := range vs {
		m[v] = struct{}{}
	}
	return m
}

// search checks one search ladder, sent by a server that knows n and read by a
// client that only knows t.
func search(t uint32, n int64, left, right []uint32) {
	l, r := set(left), set(right)
	want := expect(t, n, l, r)
	got := tmath.SearchBinaryLadder(t, uint32(n), l, r)
	kit.Check(slices.Equal(got, want), "ladder is %v, defined as %v", got, want)
	client := tmath.SearchBinaryLadder(t, t, l, r)
	kit.Check(len(client) >= len(got) && slices.Equal(client[:len(got)], got), "the client's ladder %v does not extend the server's %v", client, got)
	results := make([]bool, len(got))
	lo, hi := int64(-1), int64(1<<32)
	for _, v := range left {
		lo = max(lo, int64(v))
	}
	for _, v := range right {
		hi = min(hi, int64(v))
	}
	determined := func() bool { return lo > int64(t) || hi <= int64(t) || lo == int64(t) && hi == int64(t)+1 }
	for i, v := range got {
		kit.Check(i == 0 || len(left)+len(right) > 0 || !determined(), "the ladder %v goes on after the answer is determined", got)
		if results[i] = int64(v) <= n; results[i] {
			lo = max(lo, int64(v))
		} else {
			hi = min(hi, int64(v))
		}
	}
	kit.Check(determined(), "the ladder %v does not determine the answer", got)
	res, err := tmath.InterpretSearchLadder(client, t, proof(results))
	kit.NoErr(err, "InterpretSearchLadder")
	kit.Check(res == cmp.Compare(n, int64(t)), "interpreted as %d", res)
}

// subsets calls f with every subset of xs.
func subsets(xs []uint32, f func(s []uint32)) {
	for mask := 0; mask < 1<<len(xs); mask++ {
		s := make([]uint32, 0, bits.OnesCount(uint(mask)))
		for i, x := range xs {
			if mask>>i&1 == 1 {
				s = append(s, x)
			}
		}
		f(s)
	}
}

func TestCheck(t *testing.T) {
	r := kit.Start("C06", "exploration", "all targets and greatest versions up to the bound, every set of lookups implied by entries to the left or right, every result vector up to one longer than the ladder, boundary versions up to 2^32-1; all searches over small logs with omission; distinct = (target, greatest version, evidence)")
	initProtos()
	T := kit.Pick(r, uint32(64), 200)
	N := kit.Pick(r, int64(140), 420)

	// 1. Every target, greatest version and evidence set.
	r.Parallel(int(T)+1, func(ti int) {
		tv := uint32(ti)
		for n := int64(0); n <= N; n++ {
			var ls, rs []uint32
			for _, v := range base(tv) {
				if int64(v) <= n && v <= tv {
					ls = append(ls, v)
				}
				if int64(v) > n && v > tv {
					rs = append(rs, v)
				}
			}
			subsets(ls, func(left []uint32) {
				subsets(rs, func(right []uint32) {
					desc := func() any {
						return map[string]any{"target": tv, "greatest": n, "left": left, "right": right}
					}
					r.Eval()
					r.Try(desc, func() { search(tv, n, left, right) })
					if len(left) == 0 || len(right) == 0 {
						r.Distinct(fmt.Sprint(tv, n, left, right))
					}
				})
			})
			if r.Expired() {
				return
			}
		}
	})

	// 2. Every result vector against the interpretation's definition.
	LT := kit.Pick(r, uint32(70), 140)
	r.Parallel(int(LT)+1, func(ti int) {
		tv := uint32(ti)
		ladder := tmath.SearchBinaryLadder(tv, tv, nil, nil)
		for size := 0; size <= len(ladder)+1; size++ {
			for mask := 0; mask < 1<<size; mask++ {
				results := make([]bool, size)
				for i := range results {
					results[i] = mask>>i&1 == 1
				}
				r.Eval()
				r.Try(func() any { return map[string]any{"target": tv, "ladder": ladder, "results": results} }, func() {
					want, ok := 0, size == len(ladder)
					for i, v := range ladder {
						if i >= size {
							break
						}
						if results[i] != (v <= tv) {
							ok = i == size-1
							want = -1
							if results[i] {
								want = 1
							}
							break
						}
					}
					res, err := tmath.InterpretSearchLadder(ladder, tv, proof(results))
					if !ok {
						kit.Check(err != nil, "a result list of the wrong length is interpreted as %d", res)
						r.Outcome("refused")
						return
					}
					kit.NoErr(err, "InterpretSearchLadder")
					kit.Check(res == want, "interpreted as %d, not %d", res, want)
					r.Outcome(fmt.Sprint("interpreted ", res))
				})
			}
		}
	})

	// 3. Monitoring ladders, and versions around every power of two.
	var vs []uint32
	for v := uint32(0); v < kit.Pick(r, uint32(5000), 300000); v++ {
		vs = append(vs, v)
	}
	for k := 12; k <= 32; k++ {
		for d := int64(-3); d <= 3; d++ {
			for _, b := range []int64{1 << k, 1<<k + 1<<(k-1), 1<<k + 0x2a5} {
				if v := b + d; v >= 0 && v < 1<<32 {
					vs = append(vs, uint32(v))
				}
			}
		}
	}
	r.Parallel(len(vs), func(i int) {
		tv := vs[i]
		r.Eval()
		r.Distinct(fmt.Sprint("monitoring", tv))
		r.Try(func() any { return map[string]any{"monitoring target": tv} }, func() {
			var want []uint32
			for _, v := range base(tv) {
				if v <= tv {
					want = append(want, v)
				}
			}
			got := tmath.MonitoringBinaryLadder(tv)
			kit.Check(slices.Equal(got, want), "monitoring ladder is %v, defined as %v", got, want)
			kit.Check(slices.Contains(got, tv), "the monitoring ladder does not look up the target")
		})
		ns := []int64{0, 1, int64(tv) - 2, int64(tv) - 1, int64(tv), int64(tv) + 1, int64(tv) + 2, int64(tv) / 2, int64(tv) * 2, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1}
		for _, n := range ns {
			if n < 0 || n >= 1<<32 {
				continue
			}
			r.Eval()
			r.Try(func() any { return map[string]any{"target": tv, "greatest": n} }, func() {
				search(tv, n, nil, nil)
				// All the evidence there can be on one side.
				var ls, rs []uint32
				for _, v := range base(tv) {
					if int64(v) <= n && v <= tv {
						ls = append(ls, v)
					}
					if int64(v) > n && v > tv {
						rs = append(rs, v)
					}
				}
				search(tv, n, ls, nil)
				search(tv, n, nil, rs)
				search(tv, n, ls, rs)
			})
		}
	})

	// 4. Lookups left out in whole searches: every log of k entries with every
	// nondecreasing greatest version per entry, every target, walked like a
	// binary search and like a walk from left to right.
	K := kit.Pick(r, 6, 8)
	G := kit.Pick(r, 6, 8)
	var vecs [][]int
	var gen func(v []int)
	gen = func(v []int) {
		if len(v) == K {
			vecs = append(vecs, slices.Clone(v))
			return
		}
		lo := -1
		if len(v) > 0 {
			lo = v[len(v)-1]
		}
		for g := lo; g <= G; g++ {
			gen(append(v, g))
		}
	}
	gen(nil)
	r.Parallel(len(vecs), func(i int) {
		vec := vecs[i]
		for tv := 0; tv <= G+1; tv++ {
			for _, mode := range []string{"binary search", "left to right", "no omission"} {
				r.Eval()
				r.Distinct(fmt.Sprint(mode, vec, tv))
				r.Try(func() any { return map[string]any{"greatest versions": vec, "target": tv, "walk": mode} }, func() {
					walk(vec, uint32(tv), mode)
				})
			}
		}
	})
	r.Sample(map[string]any{"target": 6, "ladder": base(6)})
	r.Sample(map[string]any{"target": uint32(1<<32 - 1), "ladder": base(1<<32 - 1)})
	r.Assume("prefix proofs say the truth about inclusion (C04)")
	r.Finish()
}

// walk runs the server's and the client's side of one search over entries
// whose greatest versions are vec.
func walk(vec []int, t uint32, mode string) {
	var server, client tmath.VersionTracker
	omit := mode != "no omission"
	visit := func(x int) int {
		g := vec[x]
		var ladder []uint32
		if g < 0 {
			ladder = []uint32{0}
		} else {
			l, r := server.SearchMaps(uint64(x), omit)
			ladder = tmath.SearchBinaryLadder(t, uint32(g), l, r)
		}
		server.AddLadder(uint64(x), omit, g, ladder)

		l, r := client.SearchMaps(uint64(x), omit)
		if !omit {
			kit.Check(len(l) == 0 && len(r) == 0, "lookups are left out although omission is off")
		}
		for v := range l {
			ok := false
			for y := range x {
				ok = ok || vec[y] >= int(v)
			}
			kit.Check(ok, "version %d counts as included to the left of %d", v, x)
		}
		for v := range r {
			ok := false
			for y := x + 1; y < len(vec); y++ {
				ok = ok || vec[y] < int(v)
			}
			kit.Check(ok, "version %d counts as absent to the right of %d", v, x)
		}
		full := tmath.SearchBinaryLadder(t, t, l, r)
		kit.Check(len(full) >= len(ladder) && slices.Equal(full[:len(ladder)], ladder), "server's ladder %v is not a prefix of the client's %v at entry %d", ladder, full, x)
		results := make([]bool, len(ladder))
		for i, v := range ladder {
			results[i] = int(v) <= g
		}
		p := proof(results)
		res, err := tmath.InterpretSearchLadder(full, t, p)
		kit.NoErr(err, "InterpretSearchLadder at entry %d", x)
		kit.Check(res == cmp.Compare(g, int(t)), "entry %d interpreted as %d", x, res)
		client.AddResults(uint64(x), omit, full, p.Results)
		return res
	}
	if mode != "binary search" {
		for x := range vec {
			if visit(x) == 1 && mode != "no omission" {
				return
			}
		}
		return
	}
	lo, hi := 0, len(vec)
	for lo < hi {
		k := 1
		for lo+2*k-1 < hi {
			k *= 2
		}
		x := lo + k - 1
		switch visit(x) {
		case -1:
			lo = x + 1
		case 1:
			hi = x
		default:
			return
		}
	}
}
