package ref

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"sort"
)

// Map is the contents of one version of the prefix tree: key -> commitment.
type Map map[string][]byte

func (m Map) Clone() Map {
	o := Map{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func (m Map) Keys() []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (m Map) String() string {
	s := ""
	for _, k := range m.Keys() {
		s += fmt.Sprintf("%x=%x;", k, m[k])
	}
	return s
}

func bit(k string, d int) int { return int(k[d/8]>>(7-d%8)) & 1 }

func PLeaf(key string, commit []byte) []byte {
	h := sha256.Sum256(append(append([]byte{2}, key...), commit...))
	return h[:]
}

func PParent(l, r []byte) []byte {
	h := sha256.Sum256(append(append([]byte{3}, l...), r...))
	return h[:]
}

var Zero = make([]byte, 32)

// Root hashes the map as a compressed binary trie: an empty subtree is all
// zeros, a subtree with one entry is that leaf, anything else is a parent.
func (m Map) Root() []byte { return m.sub(m.Keys(), 0) }

func (m Map) sub(ks []string, d int) []byte {
	switch len(ks) {
	case 0:
		return Zero
	case 1:
		return PLeaf(ks[0], m[ks[0]])
	}
	i := sort.Search(len(ks), func(i int) bool { return bit(ks[i], d) == 1 })
	return PParent(m.sub(ks[:i], d+1), m.sub(ks[i:], d+1))
}

// Kinds of search results, with their wire codes.
const (
	Incl       = 1
	NonLeaf    = 2
	NonParent  = 3
	maxPDepth  = 255
	entrySize  = 32
	commitSize = 32
)

type PResult struct {
	Kind   byte
	Depth  int
	Leaf   string
	Commit []byte
}

type PProof struct {
	Results  []PResult
	Elements [][]byte
}

func (p PProof) Clone() PProof {
	return PProof{append([]PResult{}, p.Results...), append([][]byte{}, p.Elements...)}
}

// Bytes is the wire encoding.
func (p PProof) Bytes() []byte {
	b := &bytes.Buffer{}
	b.WriteByte(byte(len(p.Results)))
	for _, r := range p.Results {
		b.WriteByte(r.Kind)
		if r.Kind == NonLeaf {
			b.WriteString(r.Leaf)
			b.Write(r.Commit)
		}
		b.WriteByte(byte(r.Depth))
	}
	binary.Write(b, binary.BigEndian, uint16(len(p.Elements)))
	for _, e := range p.Elements {
		b.Write(e)
	}
	return b.Bytes()
}

func ParsePProof(raw []byte) (PProof, error) {
	b := bytes.NewBuffer(raw)
	var p PProof
	bad := errors.New("bad proof encoding")
	n, err := b.ReadByte()
	if err != nil {
		return p, bad
	}
	for range int(n) {
		k, err := b.ReadByte()
		if err != nil || k < 1 || k > 3 {
			return p, bad
		}
		r := PResult{Kind: k}
		if k == NonLeaf {
			x := b.Next(64)
			if len(x) != 64 {
				return p, bad
			}
			r.Leaf, r.Commit = string(x[:32]), bytes.Clone(x[32:])
		}
		d, err := b.ReadByte()
		if err != nil {
			return p, bad
		}
		r.Depth = int(d)
		p.Results = append(p.Results, r)
	}
	var e uint16
	if binary.Read(b, binary.BigEndian, &e) != nil {
		return p, bad
	}
	for range int(e) {
		x := b.Next(32)
		if len(x) != 32 {
			return p, bad
		}
		p.Elements = append(p.Elements, bytes.Clone(x))
	}
	if b.Len() != 0 {
		return p, bad
	}
	return p, nil
}

// Lookup is the true result of searching for key.
func (m Map) Lookup(key string) PResult {
	ks := m.Keys()
	for d := 0; ; d++ {
		switch len(ks) {
		case 0:
			return PResult{Kind: NonParent, Depth: d}
		case 1:
			if ks[0] == key {
				return PResult{Kind: Incl, Depth: d}
			}
			return PResult{Kind: NonLeaf, Depth: d, Leaf: ks[0], Commit: m[ks[0]]}
		}
		i := sort.Search(len(ks), func(i int) bool { return bit(ks[i], d) == 1 })
		if bit(key, d) == 1 {
			ks = ks[i:]
		} else {
			ks = ks[:i]
		}
	}
}

// Prove builds the honest batch proof for the keys, in the given order.
func (m Map) Prove(keys []string) PProof {
	var p PProof
	for _, k := range keys {
		p.Results = append(p.Results, m.Lookup(k))
	}
	sorted := append([]string{}, keys...)
	sort.Strings(sorted)
	var walk func(ks, q []string, d int)
	walk = func(ks, q []string, d int) {
		if len(q) == 0 {
			p.Elements = append(p.Elements, m.sub(ks, d))
			return
		}
		if len(ks) <= 1 {
			return
		}
		i := sort.Search(len(ks), func(i int) bool { return bit(ks[i], d) == 1 })
		j := sort.Search(len(q), func(i int) bool { return bit(q[i], d) == 1 })
		walk(ks[:i], q[:j], d+1)
		walk(ks[i:], q[j:], d+1)
	}
	walk(m.Keys(), sorted, 0)
	return p
}

// PEntry is a searched key with the commitment it is claimed to have.
type PEntry struct {
	Key    string
	Commit []byte
}

type pnode struct {
	l, r   *pnode
	hash   []byte // terminal
	leaf   string
	commit []byte
	set    bool
}

// EvalProof is an independent, strict proof verifier: it returns the root the
// proof evaluates to.
func EvalProof(entries []PEntry, p PProof) ([]byte, error) {
	if len(entries) != len(p.Results) {
		return nil, errors.New("count")
	}
	root := &pnode{}
	for i, e := range entries {
		n, r := root, p.Results[i]
		for d := 0; d < r.Depth; d++ {
			if n.set {
				return nil, errors.New("terminal above")
			}
			if n.l == nil {
				n.l, n.r = &pnode{}, &pnode{}
			}
			if bit(e.Key, d) == 1 {
				n = n.r
			} else {
				n = n.l
			}
		}
		if n.l != nil {
			return nil, errors.New("terminal inside path")
		}
		t := &pnode{set: true}
		switch r.Kind {
		case Incl:
			t.leaf, t.commit, t.hash = e.Key, e.Commit, PLeaf(e.Key, e.Commit)
		case NonLeaf:
			if r.Leaf == e.Key {
				return nil, errors.New("leaf equals key")
			}
			t.leaf, t.commit, t.hash = r.Leaf, r.Commit, PLeaf(r.Leaf, r.Commit)
		case NonParent:
			t.hash = Zero
		}
		if n.set && !bytes.Equal(n.hash, t.hash) {
			return nil, errors.New("conflict")
		}
		*n = *t
	}
	el := p.Elements
	var walk func(n *pnode) ([]byte, error)
	walk = func(n *pnode) ([]byte, error) {
		if n.set {
			return n.hash, nil
		}
		if n.l == nil {
			if len(el) == 0 {
				return nil, errors.New("short")
			}
			h := el[0]
			el = el[1:]
			return h, nil
		}
		a, err := walk(n.l)
		if err != nil {
			return nil, err
		}
		b, err := walk(n.r)
		if err != nil {
			return nil, err
		}
		return PParent(a, b), nil
	}
	h, err := walk(root)
	if err == nil && len(el) != 0 {
		err = errors.New("long")
	}
	return h, err
}

// Key makes a 32-byte key from a string of '0'/'1' bits, padded with zeros and
// a tail that repeats fill in the last byte when it does not collide.
func Key(bits string) string {
	b := make([]byte, 32)
	for i, c := range bits {
		if c == '1' {
			b[i/8] |= 1 << (7 - i%8)
		}
	}
	return string(b)
}

// Ones is n one-bits.
func Ones(n int) string  { return string(bytes.Repeat([]byte("1"), n)) }
func Zeros(n int) string { return string(bytes.Repeat([]byte("0"), n)) }

// Commit is a test commitment.
func Commit(i int) []byte {
	h := sha256.Sum256([]byte(fmt.Sprint("commitment ", i)))
	return h[:]
}

// At returns the hash of the part of the map below the given bit path.
func (m Map) At(key string, depth int) []byte {
	var ks []string
	for _, k := range m.Keys() {
		same := true
		for d := 0; d < depth && same; d++ {
			same = bit(k, d) == bit(key, d)
		}
		if same {
			ks = append(ks, k)
		}
	}
	return m.sub(ks, depth)
}

// BestElements is the best an adversary can do for the copath of the given
// terminal positions: the genuine hash at every copath position.
func (m Map) BestElements(keys []string, depths []int) [][]byte {
	type nd struct {
		l, r *nd
		key  string
		d    int
		term bool
	}
	root := &nd{key: Key("")}
	for i, k := range keys {
		n := root
		for d := 0; d < depths[i]; d++ {
			if n.term {
				break
			}
			if n.l == nil {
				a, b := []byte(k), []byte(k)
				a[d/8] &^= 1 << (7 - d%8)
				b[d/8] |= 1 << (7 - d%8)
				n.l, n.r = &nd{key: string(a), d: d + 1}, &nd{key: string(b), d: d + 1}
			}
			if bit(k, d) == 1 {
				n = n.r
			} else {
				n = n.l
			}
		}
		if n.l == nil {
			n.term = true
		}
	}
	var out [][]byte
	var walk func(n *nd)
	walk = func(n *nd) {
		if n.term {
			return
		}
		if n.l == nil {
			out = append(out, m.At(n.key, n.d))
			return
		}
		walk(n.l)
		walk(n.r)
	}
	walk(root)
	return out
}

// AfterOpaque is the root a verifier reaches that sees only the nodes on the
// paths of the changed keys: every other subtree is an opaque hash, which it
// recognises as empty when it is all zeros but cannot recognise as a leaf, so
// that a parent whose one child became empty and whose other child is an
// opaque leaf keeps its place. touched are the changed keys, next the contents
// afterwards.
func (m Map) AfterOpaque(touched []string, next Map) []byte {
	const (
		kEmpty = iota
		kLeaf
		kOther
	)
	sort.Strings(touched)
	under := func(ks []string, d int) ([]string, []string) {
		i := sort.Search(len(ks), func(i int) bool { return bit(ks[i], d) == 1 })
		return ks[:i], ks[i:]
	}
	var f func(before, after, t []string, d int) (int, []byte)
	f = func(before, after, t []string, d int) (int, []byte) {
		if len(t) == 0 {
			h := m.sub(before, d)
			if len(before) == 0 {
				return kEmpty, h
			}
			return kOther, h
		}
		if len(before) <= 1 {
			h := next.sub(after, d)
			switch len(after) {
			case 0:
				return kEmpty, h
			case 1:
				return kLeaf, h
			}
			return kOther, h
		}
		bl, br := under(before, d)
		al, ar := under(after, d)
		tl, tr := under(t, d)
		kl, hl := f(bl, al, tl, d+1)
		kr, hr := f(br, ar, tr, d+1)
		switch {
		case kl == kEmpty && kr == kEmpty:
			return kEmpty, Zero
		case kl == kEmpty && kr == kLeaf:
			return kLeaf, hr
		case kl == kLeaf && kr == kEmpty:
			return kLeaf, hl
		}
		return kOther, PParent(hl, hr)
	}
	_, h := f(m.Keys(), next.Keys(), touched, 0)
	return h
}
