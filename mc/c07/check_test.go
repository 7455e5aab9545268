// C07: the log search tree and distinguished entries follow the definition.
package c07

import (
	"errors"
	"fmt"
	"slices"
	"testing"
	"testing/synctest"
	"time"

	"katiemc/kit"
	"katiemc/ref"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	tmath "github.com/Bren2010/katie/tree/transparency/math"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

var cs = suites.KTSha256Ed25519{}

// handle hands out timestamps and records which were asked for.
type handle struct {
	ts    map[uint64]uint64
	asked []uint64
}

func (h *handle) GetTimestamp(x uint64) (uint64, error) {
	h.asked = append(h.asked, x)
	ts, ok := h.ts[x]
	if !ok {
		return 0, errors.New("no such timestamp")
	}
	return ts, nil
}
func (h *handle) GetSearchBinaryLadder(x uint64, ver uint32, omit bool) ([]byte, int, error) {
	panic("unexpected ladder")
}
func (h *handle) GetMonitoringBinaryLadder(x uint64, ver uint32) ([]byte, error) {
	panic("unexpected ladder")
}
func (h *handle) GetInclusionProof(x uint64, vers []uint32) ([]byte, error) {
	panic("unexpected inclusion proof")
}
func (h *handle) GetPrefixTrees(xs []uint64) ([][]byte, error) { panic("unexpected prefix trees") }
func (h *handle) Finish() ([][]byte, error)                    { panic("unexpected finish") }
func (h *handle) Output(leaves []uint64, n uint64, nP, m *uint64) (*structs.CombinedTreeProof, error) {
	panic("unexpected output")
}
func (h *handle) StopCondition(x uint64, greatest int) bool { panic("unexpected stop condition") }
func (h *handle) Tracker() *tmath.VersionTracker            { panic("unexpected tracker") }

func cfg(w, ahead, behind uint64) *structs.PublicConfig {
	return &structs.PublicConfig{Config: structs.Config{Suite: cs, Mode: structs.ContactMonitoring, ReasonableMonitoringWindow: w, MaxAhead: ahead, MaxBehind: behind}}
}

// node checks the functions of one entry x of a log of size n.
func node(x, n uint64) {
	path := ref.Path(x, n) // from the root to x
	lo, hi := ref.Span(x, n)
	kit.Check(tmath.IsLeaf(x) == (x&1 == 0), "IsLeaf")
	if x > lo {
		kit.Check(tmath.Left(x) == ref.Root(lo, x), "Left is %d, defined as %d", tmath.Left(x), ref.Root(lo, x))
	}
	if x+1 < hi {
		kit.Check(tmath.Right(x, n) == ref.Root(x+1, hi), "Right is %d, defined as %d", tmath.Right(x, n), ref.Root(x+1, hi))
	}
	if len(path) > 1 {
		kit.Check(tmath.Parent(x, n) == path[len(path)-2], "Parent is %d, defined as %d", tmath.Parent(x, n), path[len(path)-2])
	}
	l, r := []uint64{}, []uint64{}
	for i := len(path) - 2; i >= 0; i-- {
		if path[i] < x {
			l = append(l, path[i])
		} else {
			r = append(r, path[i])
		}
	}
	kit.Check(slices.Equal(tmath.LeftDirectPath(x), l), "LeftDirectPath is %v, defined as %v", tmath.LeftDirectPath(x), l)
	kit.Check(slices.Equal(tmath.RightDirectPath(x, n), r), "RightDirectPath is %v, defined as %v", tmath.RightDirectPath(x, n), r)
}

func size(n uint64) {
	kit.Check(tmath.Root(n) == ref.Root(0, n), "Root is %d, defined as %d", tmath.Root(n), ref.Root(0, n))
	kit.Check(slices.Equal(tmath.Frontier(n), ref.Path(n-1, n)), "Frontier is %v, defined as %v", tmath.Frontier(n), ref.Path(n-1, n))
}

// viewPath is the definition of the timestamps a user with size m needs to
// reach size n.
func viewPath(n uint64, m *uint64) []uint64 {
	if m == nil || *m == 0 {
		return ref.Path(n-1, n)
	}
	if *m == n {
		return nil
	}
	// From m-1 up to the root, keeping what lies to the right, then down the
	// right edge.
	out := []uint64{}
	for _, x := range ref.Path(*m-1, n) {
		if x > *m-1 {
			out = append(out, x)
		}
	}
	slices.Reverse(out)
	for _, x := range ref.Path(n-1, n) {
		if x > *m-1 && !slices.Contains(out, x) {
			out = append(out, x)
		}
	}
	slices.Sort(out)
	return out
}

// dist is the definition of distinguished entries.
func dist(ts []uint64, w uint64) []bool {
	out := make([]bool, len(ts))
	var rec func(lo, hi, left, right uint64)
	rec = func(lo, hi, left, right uint64) {
		if lo >= hi || right-left < w {
			return
		}
		x := ref.Root(lo, hi)
		out[x] = true
		rec(lo, x, left, ts[x])
		rec(x+1, hi, ts[x], right)
	}
	rec(0, uint64(len(ts)), 0, ts[len(ts)-1])
	return out
}

func str(p *uint64) string {
	if p == nil {
		return "none"
	}
	return fmt.Sprint(*p)
}

func lastBefore(d []bool, end int) *uint64 {
	for i := end - 1; i >= 0; i-- {
		if d[i] {
			x := uint64(i)
			return &x
		}
	}
	return nil
}

func same(a, b *uint64) bool { return (a == nil) == (b == nil) && (a == nil || *a == *b) }

func ptr(x uint64) *uint64 { return &x }

// vectors calls f with every nondecreasing vector of length n over 0..v.
func vectors(n, v int, f func([]uint64)) {
	cur := make([]uint64, 0, n)
	var rec func(lo int)
	rec = func(lo int) {
		if len(cur) == n {
			f(cur)
			return
		}
		for x := lo; x <= v; x++ {
			cur = append(cur, uint64(x))
			rec(x)
			cur = cur[:len(cur)-1]
		}
	}
	rec(0)
}

func TestCheck(t *testing.T) {
	r := kit.Start("C07", "exploration", "every entry of every log size up to the bound and at power-of-two boundaries up to 2^63; every nondecreasing timestamp vector and window up to the bounds; every pair of earlier and current size with every timestamp vector and clock offset; distinct = (size, entry), (vector, window) or (sizes, vector, clock)")

	// 1. The implicit tree.
	N := kit.Pick(r, 900, 9000)
	r.Parallel(N, func(i int) {
		n := uint64(i + 1)
		r.Try(func() any { return map[string]any{"size": n} }, func() { size(n) })
		for x := uint64(0); x < n; x++ {
			r.Eval()
			r.Try(func() any { return map[string]any{"size": n, "entry": x} }, func() { node(x, n) })
		}
		r.Distinct(fmt.Sprint("size", n))
	})
	var big []uint64
	for k := 10; k <= 63; k++ {
		for d := -4; d <= 4; d++ {
			big = append(big, uint64(1)<<k+uint64(d))
		}
		big = append(big, uint64(1)<<k+uint64(1)<<(k/2)+1, uint64(1)<<k+uint64(1)<<(k-1)+1)
	}
	r.Parallel(len(big), func(i int) {
		n := big[i]
		r.Try(func() any { return map[string]any{"size": n} }, func() { size(n) })
		for _, b := range append([]uint64{0, 5, n - 1, n / 2, n / 3}, big...) {
			for d := uint64(0); d < 4; d++ {
				x := b - d
				if x >= n {
					continue
				}
				r.Eval()
				r.Try(func() any { return map[string]any{"size": n, "entry": x} }, func() { node(x, n) })
			}
		}
		r.Distinct(fmt.Sprint("size", n))
	})

	// 2. Distinguished entries.
	type vt struct{ n, v int }
	var vts []vt
	for n := 1; n <= kit.Pick(r, 10, 14); n++ {
		vts = append(vts, vt{n, 7})
	}
	for n := 11; n <= kit.Pick(r, 18, 23); n++ {
		vts = append(vts, vt{n, kit.Pick(r, 3, 4)})
	}
	for _, c := range vts {
		var all [][]uint64
		vectors(c.n, c.v, func(v []uint64) { all = append(all, slices.Clone(v)) })
		r.Parallel(len(all), func(i int) {
			windows := []uint64{1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1}
			for w := uint64(0); w <= uint64(c.v)+1; w++ {
				windows = append(windows, w)
			}
			for k, w := range windows {
				if k < 4 && (c.n > 8 || i%5 != 0) {
					continue
				}
				offs := []uint64{0, 1_700_000_000_000}
				if k < 4 {
					offs = append(offs, 1<<63-3, 1<<63, 1<<64-100)
				}
				for _, off := range offs {
					ts := slices.Clone(all[i])
					for j := range ts {
						ts[j] += off
					}
					r.Eval()
					r.Distinct(fmt.Sprint("dist", ts, w))
					r.Try(func() any { return map[string]any{"timestamps": ts, "window": w} }, func() { distinguished(r, ts, w) })
				}
			}
		})
	}

	// 3. Updating a user's view, under the controlled clock.
	synctest.Test(t, func(t *testing.T) {
		now := uint64(time.Now().UnixMilli())
		M := uint64(kit.Pick(r, 48, 160))
		var sizes []vt // m (-1: none), n
		for n := uint64(0); n <= M; n++ {
			for m := -1; m <= int(n)+1; m++ {
				sizes = append(sizes, vt{int(n), m})
			}
		}
		r.Parallel(len(sizes), func(i int) {
			n := uint64(sizes[i].n)
			var m *uint64
			if sizes[i].v >= 0 {
				m = ptr(uint64(sizes[i].v))
			}
			view(r, n, m, now)
		})
		for _, win := range [][2]uint64{{0, 0}, {0, 5}, {5, 0}, {3, 4}, {1 << 62, 1 << 62}, {1<<64 - 1, 1<<64 - 1}} {
			for _, n := range []uint64{1, 2, 5, 8} {
				for m := -1; m <= int(n); m++ {
					for _, d := range []int64{-1 << 39, -6, -5, -4, -3, -1, 0, 1, 2, 3, 4, 5, 6, 1 << 39} {
						for _, at := range []string{"given", "retained"} {
							clock(r, n, m, now, win[0], win[1], d, at)
						}
					}
				}
			}
		}
	})
	r.Sample(map[string]any{"size": 7, "frontier": ref.Path(6, 7), "view from 4": viewPath(7, ptr(4))})
	r.Finish()
}

func distinguished(r *kit.Run, ts []uint64, w uint64) {
	n := uint64(len(ts))
	d := dist(ts, w)
	conf := cfg(w, 0, 0)
	all := map[uint64]uint64{}
	for i, v := range ts {
		all[uint64(i)] = v
	}
	// With every timestamp on request, and with only the ones an auditor keeps.
	kept := map[uint64]structs.LogEntry{n - 1: {Timestamp: ts[n-1]}}
	if n > 1 {
		for _, x := range ref.Path(n-2, n-1) {
			kept[x] = structs.LogEntry{Timestamp: ts[x]}
		}
	}
	for _, mode := range []string{"on request", "retained"} {
		mk := func() *algorithms.DataProvider {
			if mode == "retained" {
				p := algorithms.NewDataProvider(cs, &handle{})
				kit.NoErr(p.AddRetained(nil, kept), "AddRetained")
				return p
			}
			return algorithms.NewDataProvider(cs, &handle{ts: all})
		}
		got, err := algorithms.RightmostDistinguished(conf, n, mk())
		kit.NoErr(err, "RightmostDistinguished, %s", mode)
		want := lastBefore(d, int(n))
		kit.Check(same(got, want), "rightmost distinguished entry is %s, defined as %s (%s)", str(got), str(want), mode)
		got, err = algorithms.PreviousRightmost(conf, n, mk())
		kit.NoErr(err, "PreviousRightmost, %s", mode)
		want = lastBefore(d, int(n)-1)
		kit.Check(same(got, want), "previous distinguished entry is %s, defined as %s (%s)", str(got), str(want), mode)
	}
	if r.Quick() || n <= 12 {
		r.Outcome(fmt.Sprintf("%d distinguished", count(d)))
	}
	for x := range ts {
		for y := range ts[:x+1] {
			want := ts[x]-ts[y] >= w
			kit.Check(conf.IsDistinguished(ts[y], ts[x]) == want, "IsDistinguished(%d, %d) with window %d", ts[y], ts[x], w)
		}
	}
}

func count(d []bool) (n int) {
	for _, x := range d {
		if x {
			n++
		}
	}
	return
}

// run updates a view whose retained entries and given timestamps come from ts.
func run(n uint64, m *uint64, ts map[uint64]uint64, conf *structs.PublicConfig) (*handle, *algorithms.DataProvider, error) {
	h := &handle{ts: ts}
	p := algorithms.NewDataProvider(cs, h)
	if m != nil && *m > 0 {
		kept := map[uint64]structs.LogEntry{}
		for _, x := range ref.Path(*m-1, *m) {
			kept[x] = structs.LogEntry{Timestamp: ts[x]}
		}
		if err := p.AddRetained(nil, kept); err != nil {
			return h, p, err
		}
	}
	return h, p, algorithms.UpdateView(conf, n, m, p)
}

func view(r *kit.Run, n uint64, m *uint64, now uint64) {
	conf := cfg(1, 1000, 1000)
	ms := str(m)
	if n == 0 || m != nil && *m > n {
		r.Eval()
		r.Try(func() any { return map[string]any{"from": ms, "to": n} }, func() {
			_, _, err := run(n, m, map[uint64]uint64{}, conf)
			if m != nil && *m > n {
				_, _, err = func() (h *handle, p *algorithms.DataProvider, err error) {
					h = &handle{}
					p = algorithms.NewDataProvider(cs, h)
					return h, p, algorithms.UpdateView(conf, n, m, p)
				}()
				kit.Check(err != nil, "a tree smaller than before is accepted")
				r.Outcome("smaller tree refused")
				return
			}
			kit.NoErr(err, "an empty tree is refused")
		})
		return
	}
	want := viewPath(n, m)
	known := slices.Clone(want)
	if m != nil && *m > 0 {
		known = append(known, ref.Path(*m-1, *m)...)
	}
	slices.Sort(known)
	// Exactly the defined timestamps are asked for, in order, and all of the
	// new frontier is known afterwards. Entries that are not on the path have
	// no timestamp at all.
	ts := map[uint64]uint64{}
	for i, x := range known {
		ts[x] = now - uint64(len(known)-1-i)
	}
	r.Eval()
	r.Distinct(fmt.Sprint("view", n, ms))
	r.Try(func() any { return map[string]any{"from": ms, "to": n, "path": want} }, func() {
		h, p, err := run(n, m, ts, conf)
		kit.NoErr(err, "UpdateView")
		kit.Check(slices.Equal(h.asked, want) || len(h.asked)+len(want) == 0, "asked for timestamps %v, defined as %v", h.asked, want)
		kit.Check(slices.Equal(tmath.UpdateView(n, m), want) || len(want)+len(tmath.UpdateView(n, m)) == 0, "path is %v, defined as %v", tmath.UpdateView(n, m), want)
		h.asked = nil
		for _, x := range ref.Path(n-1, n) {
			got, err := p.GetTimestamp(x)
			kit.NoErr(err, "frontier timestamp %d after the update", x)
			kit.Check(got == ts[x], "frontier timestamp %d", x)
		}
		kit.Check(len(h.asked) == 0, "frontier timestamps %v are not known after the update", h.asked)
		r.Outcome("accepted")
	})
	// One timestamp lower or higher than it should be: accepted exactly when
	// the vector is still nondecreasing.
	for i := range known {
		for _, d := range []int64{-500, -2, -1, 1, 2, 500} {
			alt := map[uint64]uint64{}
			for k, v := range ts {
				alt[k] = v
			}
			alt[known[i]] = uint64(int64(alt[known[i]]) + d)
			mono := true
			for j := 1; j < len(known); j++ {
				mono = mono && alt[known[j-1]] <= alt[known[j]]
			}
			r.Eval()
			r.Distinct(fmt.Sprint("view", n, ms, i, d))
			r.Try(func() any { return map[string]any{"from": ms, "to": n, "timestamps": fmt.Sprint(alt), "now": now} }, func() {
				_, _, err := run(n, m, alt, conf)
				kit.Check((err == nil) == mono, "nondecreasing=%v but result is %v", mono, err)
				if !mono {
					r.Outcome("decreasing refused")
				}
			})
		}
	}
	// Every small vector for small sizes.
	if len(known) <= 5 {
		v := make([]uint64, len(known))
		var rec func(i int)
		rec = func(i int) {
			if i == len(v) {
				alt := map[uint64]uint64{}
				mono := true
				for j, x := range known {
					alt[x] = now - 10 + v[j]
					mono = mono && (j == 0 || v[j-1] <= v[j])
				}
				r.Eval()
				r.Try(func() any { return map[string]any{"from": ms, "to": n, "timestamps": fmt.Sprint(alt), "now": now} }, func() {
					_, _, err := run(n, m, alt, conf)
					kit.Check((err == nil) == mono, "nondecreasing=%v but result is %v", mono, err)
				})
				return
			}
			for x := uint64(0); x < 4; x++ {
				v[i] = x
				rec(i + 1)
			}
		}
		rec(0)
	}
}

// clock checks the window around the local clock; d is the rightmost timestamp
// minus now.
func clock(r *kit.Run, n uint64, m int, now, ahead, behind uint64, d int64, at string) {
	var mp *uint64
	if m >= 0 {
		mp = ptr(uint64(m))
	}
	if (at == "retained") != (m == int(n)) {
		return
	}
	ts := map[uint64]uint64{}
	for x := uint64(0); x < n; x++ {
		ts[x] = uint64(int64(now) + d)
	}
	r.Eval()
	r.Distinct(fmt.Sprint("clock", n, m, ahead, behind, d))
	r.Try(func() any {
		return map[string]any{"from": m, "to": n, "rightmost minus now": d, "max ahead": ahead, "max behind": behind}
	}, func() {
		_, _, err := run(n, mp, ts, cfg(1, ahead, behind))
		ok := !(d > 0 && uint64(d) > ahead) && !(d < 0 && uint64(-d) > behind)
		kit.Check((err == nil) == ok, "in the clock window: %v, result: %v", ok, err)
		if !ok {
			r.Outcome("outside clock window refused")
		}
	})
}
