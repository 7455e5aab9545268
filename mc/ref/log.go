// Package ref holds the boring reference models the implementation is
// compared with. Nothing here imports the code under test.
package ref

import (
	"crypto/sha256"
	"encoding/binary"
	"math/bits"
)

// Node is a value in the log tree; leaves and parents are domain separated.
type Node struct {
	Leaf bool
	Val  []byte
}

func (n Node) enc() []byte {
	t := byte(1)
	if n.Leaf {
		t = 0
	}
	return append([]byte{t}, n.Val...)
}

func HashLog(l, r Node) Node {
	h := sha256.New()
	h.Write(l.enc())
	h.Write(r.enc())
	return Node{Val: h.Sum(nil)}
}

// LeafVal is the conventional value of leaf i of the test log with a salt.
func LeafVal(salt string, i uint64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], i)
	s := sha256.Sum256(append([]byte("leaf"+salt), b[:]...))
	return s[:]
}

// Log is a log given by a leaf function; complete subtrees are memoised.
type Log struct {
	Leaf func(i uint64) []byte
	memo map[[2]uint64]Node
}

func NewLog(leaf func(i uint64) []byte) *Log {
	return &Log{Leaf: leaf, memo: map[[2]uint64]Node{}}
}

// Complete returns the head of the complete subtree with 2^level leaves that
// starts at leaf idx*2^level.
func (l *Log) Complete(level uint, idx uint64) Node {
	if level == 0 {
		return Node{Leaf: true, Val: l.Leaf(idx)}
	}
	k := [2]uint64{uint64(level), idx}
	if v, ok := l.memo[k]; ok {
		return v
	}
	v := HashLog(l.Complete(level-1, 2*idx), l.Complete(level-1, 2*idx+1))
	l.memo[k] = v
	return v
}

// Heads returns the heads of the maximal complete subtrees of the first n
// leaves, left to right: one for every bit set in n, largest first.
func (l *Log) Heads(n uint64) []Node {
	var out []Node
	var pos uint64
	for b := 63; b >= 0; b-- {
		if n>>uint(b)&1 == 1 {
			out = append(out, l.Complete(uint(b), pos>>uint(b)))
			pos += 1 << uint(b)
		}
	}
	return out
}

func Vals(ns []Node) [][]byte {
	out := make([][]byte, len(ns))
	for i := range ns {
		out[i] = ns[i].Val
	}
	return out
}

// Root hashes the left-balanced tree over the first n leaves.
func (l *Log) Root(n uint64) []byte { return l.sub(0, n).Val }

func (l *Log) sub(lo, hi uint64) Node {
	n := hi - lo
	if n&(n-1) == 0 {
		lv := uint(bits.TrailingZeros64(n))
		return l.Complete(lv, lo>>lv)
	}
	k := uint64(1) << uint(bits.Len64(n)-1)
	return HashLog(l.sub(lo, lo+k), l.sub(lo+k, hi))
}

// SparseComplete is Complete for a log where all leaves outside special are
// equal, so that trees of astronomic size can be hashed.
type SparseLog struct {
	Special map[uint64][]byte
	def     []Node
	memo    map[[2]uint64]Node
}

func NewSparse(def []byte, special map[uint64][]byte) *SparseLog {
	s := &SparseLog{Special: special, def: []Node{{Leaf: true, Val: def}}, memo: map[[2]uint64]Node{}}
	for i := 1; i < 64; i++ {
		s.def = append(s.def, HashLog(s.def[i-1], s.def[i-1]))
	}
	return s
}

func (s *SparseLog) Complete(level uint, idx uint64) Node {
	hit := false
	for k := range s.Special {
		if k>>level == idx {
			hit = true
		}
	}
	if !hit {
		return s.def[level]
	}
	if level == 0 {
		return Node{Leaf: true, Val: s.Special[idx]}
	}
	k := [2]uint64{uint64(level), idx}
	n, ok := s.memo[k]
	if !ok {
		n = HashLog(s.Complete(level-1, 2*idx), s.Complete(level-1, 2*idx+1))
		s.memo[k] = n
	}
	return n
}

// Node returns the value of the node with the given array-based index (leaf i
// is node 2i; level = number of trailing one bits). It must be complete.
func (s *SparseLog) Node(x uint64) Node {
	lv := uint(bits.TrailingZeros64(^x))
	return s.Complete(lv, x>>(lv+1))
}

func (s *SparseLog) Heads(n uint64) []Node {
	var out []Node
	var pos uint64
	for b := 63; b >= 0; b-- {
		if n>>uint(b)&1 == 1 {
			out = append(out, s.Complete(uint(b), pos>>uint(b)))
			pos += 1 << uint(b)
		}
	}
	return out
}

// RollUp folds heads, right to left, into a root.
func RollUp(heads []Node) []byte {
	acc := heads[len(heads)-1]
	for i := len(heads) - 2; i >= 0; i-- {
		acc = HashLog(heads[i], acc)
	}
	return acc.Val
}
