package ref

// The implicit binary search tree over a log, by interval recursion: the root
// of entries [lo, hi) is at lo+2^k-1 for the greatest 2^k <= hi-lo.

func Root(lo, hi uint64) uint64 {
	k := uint64(1)
	for k <= (hi-lo)/2 {
		k *= 2
	}
	return lo + k - 1
}

// Path lists the entries from the root of a log of size n down to x.
func Path(x, n uint64) []uint64 {
	out := []uint64{}
	lo, hi := uint64(0), n
	for {
		y := Root(lo, hi)
		out = append(out, y)
		switch {
		case y == x:
			return out
		case x < y:
			hi = y
		default:
			lo = y + 1
		}
	}
}

// Span is the interval of entries below x.
func Span(x, n uint64) (uint64, uint64) {
	lo, hi := uint64(0), n
	for {
		y := Root(lo, hi)
		switch {
		case y == x:
			return lo, hi
		case x < y:
			hi = y
		default:
			lo = y + 1
		}
	}
}

// RightPath lists the ancestors of x in a tree of size n that are to its
// right, from the bottom up.
func RightPath(x, n uint64) []uint64 {
	var out []uint64
	lo, hi := uint64(0), n
	for lo < hi {
		r := Root(lo, hi)
		if r == x {
			break
		} else if r > x {
			out = append([]uint64{r}, out...)
			hi = r
		} else {
			lo = r + 1
		}
	}
	return out
}
