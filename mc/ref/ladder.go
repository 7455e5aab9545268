package ref

// ladder is the set of versions a search for the greatest version v looks at.
func ladder(v int) map[int]bool {
	out := map[int]bool{}
	lo, hi := -1, 0
	for {
		out[hi] = true
		if hi > v {
			break
		}
		lo, hi = hi, 2*hi+1
	}
	for lo+1 < hi {
		mid := lo + (hi-lo)/2
		out[mid] = true
		if mid <= v {
			lo = mid
		} else {
			hi = mid
		}
	}
	return out
}

// Announceable says whether the response to an update holds everything that
// has to be said about count new versions from start on, created in one entry:
// no more than 255 versions, and 255 versions with a VRF proof.
func Announceable(start, count int) bool {
	if count == 0 {
		return true
	}
	need := ladder(start + count - 1)
	for v := start; v < start+count-1; v++ {
		need[v] = true
	}
	if start == 0 {
		delete(need, 0)
	} else {
		for v := range ladder(start - 1) {
			delete(need, v)
		}
	}
	return count <= 255 && len(need) <= 255
}
