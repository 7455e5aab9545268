package c01

import (
	"bytes"
	"fmt"
	"maps"
	"math/bits"
	"slices"

	"katiemc/kit"
	"katiemc/ref"

	"github.com/Bren2010/katie/tree/log"
	logmath "github.com/Bren2010/katie/tree/log/math"
)

// virtual is the storage of a log of astronomic size, which is computed when
// read. Later writes are kept.
type virtual struct {
	s    *ref.SparseLog
	n    uint64
	over map[uint64][]byte
}

func (v *virtual) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	out := map[uint64][]byte{}
	for _, id := range keys {
		if d, ok := v.over[id]; ok {
			if d != nil {
				out[id] = bytes.Clone(d)
			}
			continue
		}
		// The nodes three levels down, as far as they are complete.
		lv := uint(bits.TrailingZeros64(^id))
		if lv%4 != 3 {
			continue
		}
		var d []byte
		for i := range uint64(8) {
			idx := id>>(lv+1)<<3 | i
			if k := uint(lv - 3); idx < v.n>>k {
				d = append(d, v.s.Complete(k, idx).Val...)
			}
		}
		if d != nil {
			out[id] = d
		}
	}
	return out, nil
}

func (v *virtual) Put(key uint64, data []byte) error {
	v.over[key] = bytes.Clone(data)
	return nil
}

func (v *virtual) Delete(key uint64) error {
	v.over[key] = nil
	return nil
}

// astronomic has logs of sizes around every power of two produce proofs and grow.
func astronomic(r *kit.Run) {
	var sizes []uint64
	for b := uint(10); b <= 62; b++ {
		for d := int64(-2); d <= 2; d++ {
			sizes = append(sizes, uint64(int64(uint64(1)<<b)+d))
		}
		sizes = append(sizes, uint64(1)<<b|uint64(1)<<(b/2)-1, uint64(1)<<b|uint64(1)<<(b-1)-1)
	}
	slices.Sort(sizes)
	sizes = slices.Compact(sizes)
	const more = 3
	r.Parallel(len(sizes), func(i int) {
		n0 := sizes[i]
		at := ""
		r.Try(func() any { return map[string]any{"log of size": n0, "at": at} }, func() {
			sp := map[uint64][]byte{}
			for _, x := range []uint64{0, 15, n0 / 3, n0 / 2, n0 - 9, n0 - 1, n0, n0 + 1, n0 + 2} {
				sp[x] = leaf(x)
			}
			s := ref.NewSparse(leaf(1<<63), sp)
			st := &virtual{s, n0, map[uint64][]byte{}}
			for n := n0; ; n++ {
				var es [][]uint64
				for _, x := range slices.Sorted(maps.Keys(sp)) {
					if x < n {
						es = append(es, []uint64{x}, []uint64{x, n - 1}, []uint64{0, x})
					}
				}
				for _, e := range es {
					e = slices.Compact(slices.Sorted(slices.Values(e)))
					for _, m := range []*uint64{nil, ptr(n), ptr(n - 1), ptr(n / 2), ptr(n/3 + 1)} {
						for _, np := range []*uint64{nil, ptr(n), ptr(n - 2), ptr(n/2 - 1)} {
							at = fmt.Sprintf("size %d, proof of %v, retained %v, additional %v", n, e, deref(m), deref(np))
							r.Eval()
							proof, err := log.NewTree(cs, st).GetBatch(slices.Clone(e), n, np, m)
							kit.NoErr(err, "GetBatch")
							var values [][]byte
							for _, x := range e {
								values = append(values, sp[x])
							}
							v := log.NewVerifier(cs)
							if m != nil {
								kit.NoErr(v.Retain(*m, ref.Vals(s.Heads(*m))), "Retain")
							}
							got, add, err := v.Evaluate(e, n, np, values, proof)
							kit.NoErr(err, "Evaluate")
							kit.Check(eq(got, ref.Vals(s.Heads(n))), "heads differ from the reference")
							if np != nil {
								kit.Check(eq(add, ref.Vals(s.Heads(*np))), "additional heads differ from the reference")
							}
							r.Distinct("stored " + at)
						}
					}
				}
				if n == n0+more || n+1 >= logmath.MaxTreeSize {
					break
				}
				at = fmt.Sprintf("append at size %d", n)
				r.Eval()
				heads, err := log.NewTree(cs, st).Append(n, sp[n])
				kit.NoErr(err, "Append")
				kit.Check(eq(heads, ref.Vals(s.Heads(n+1))), "heads after appending differ from the reference")
				r.Distinct(at)
			}
		})
	})
	r.Count("astronomic_stored_sizes", int64(len(sizes)))
}
