package ref

// Distinguished reports, per entry, whether it is distinguished: the bounds of
// the root are 0 and the rightmost timestamp, a child's bounds are narrowed by
// its parent's timestamp, and an entry is distinguished when its parent is and
// its bounds are at least window apart.
func Distinguished(times []uint64, window uint64) []bool {
	out := make([]bool, len(times))
	if len(times) == 0 {
		return out
	}
	var rec func(lo, hi, left, right uint64)
	rec = func(lo, hi, left, right uint64) {
		if lo >= hi || right-left < window {
			return
		}
		x := Root(lo, hi)
		out[x] = true
		rec(lo, x, left, times[x])
		rec(x+1, hi, times[x], right)
	}
	rec(0, uint64(len(times)), 0, times[len(times)-1])
	return out
}

// RightmostTrue is the last index that is set, or -1.
func RightmostTrue(b []bool) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] {
			return i
		}
	}
	return -1
}

// LogRoot is the root of the log with the given leaf hashes.
func LogRoot(leaves [][]byte) []byte {
	l := NewLog(func(i uint64) []byte { return leaves[i] })
	return l.Root(uint64(len(leaves)))
}
