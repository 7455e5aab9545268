package prefix

import (
	"bytes"
	"errors"
	"slices"

	"katiemc/old/crypto/suites"
)

// terminalNode returns the terminal node of the search.
func terminalNode(entry Entry, res PrefixSearchResult) node {
	switch res := res.(type) {
	case inclusionProof:
		return leafNode{entry.VrfOutput, entry.Commitment}
	case nonInclusionLeafProof:
		return res.leaf
	case nonInclusionParentProof:
		return emptyNode{}
	default:
		panic("unexpected search result type found")
	}
}

// samePrefix returns true if the first `depth` bits of `a` and `b` are equal.
func samePrefix(a, b []byte, depth int) bool {
	for i := range depth {
		if getBit(a, i) != getBit(b, i) {
			return false
		}
	}
	return true
}

// addToSkeleton adds the terminal node for a single search result
// to the in-memory tree in `n`.
func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
	depth := 0

	for {
		switch m := (*n).(type) {
		case emptyNode:
			if res.Depth() != depth || res.Inclusion() {
				return errors.New("malformed proof")
			}
			return nil

		case leafNode:
			equal := bytes.Equal(entry.VrfOutput, m.vrfOutput)
			if res.Depth() != depth || res.Inclusion() != equal {
				return errors.New("malformed proof")
			}
			if equal && !bytes.Equal(entry.Commitment, m.commitment) {
				return errors.New("malformed proof")
			}
			return nil

		case *parentNode:
			if getBit(entry.VrfOutput, depth) {
				n = &m.right
			} else {
				n = &m.left
			}
			depth++

		case externalNode:
			if depth > res.Depth() {
				return errors.New("current depth is greater than result depth")
			} else if depth == res.Depth() {
				*n = terminalNode(entry, res)
				if m, ok := (*n).(leafNode); ok && res.Inclusion() != bytes.Equal(entry.VrfOutput, m.vrfOutput) {
					return errors.New("malformed proof")
				} else if ok && !samePrefix(entry.VrfOutput, m.vrfOutput, depth) {
					return errors.New("malformed proof")
				}
				return nil
			} else {
				*n = &parentNode{left: externalNode{}, right: externalNode{}}
			}

		default:
			panic("unexpected node type found")
		}
	}
}

// fillInCopath populates all of the empty copath nodes in `n` with `elements`
// in left-to-right order.
func fillInCopath(n *node, elements [][]byte) ([][]byte, error) {
	switch m := (*n).(type) {
	case emptyNode, leafNode:
		return elements, nil

	case *parentNode:
		var err error
		elements, err = fillInCopath(&m.left, elements)
		if err != nil {
			return nil, err
		}
		elements, err = fillInCopath(&m.right, elements)
		if err != nil {
			return nil, err
		}
		return elements, nil

	case externalNode:
		if len(elements) == 0 {
			return nil, errors.New("wrong number of copath nodes provided")
		}
		*n = externalNode{hash: elements[0]}
		return elements[1:], nil

	default:
		panic("unexpected node type found")
	}
}

func evaluate(cs suites.CipherSuite, entries []Entry, proof *PrefixProof) (node, error) {
	sortedEntries := make([]Entry, len(entries))
	copy(sortedEntries, entries)
	slices.SortFunc(sortedEntries, compareEntries)
	for i, entry := range sortedEntries {
		if len(entry.VrfOutput) != cs.HashSize() {
			return nil, errors.New("unexpected vrf output length")
		} else if entry.Commitment != nil && len(entry.Commitment) != cs.HashSize() {
			return nil, errors.New("unexpected commitment length")
		} else if i > 0 && bytes.Equal(sortedEntries[i-1].VrfOutput, entry.VrfOutput) {
			return nil, errors.New("same vrf output present multiple times")
		}
	}
	if len(entries) != len(proof.Results) {
		return nil, errors.New("number of entries searched for does not match number of results")
	}

	var root node = externalNode{}
	for i, entry := range entries {
		if err := addToSkeleton(&root, entry, proof.Results[i]); err != nil {
			return nil, err
		}
	}
	elements, err := fillInCopath(&root, proof.Elements)
	if err != nil {
		return nil, err
	} else if len(elements) != 0 {
		return nil, errors.New("wrong number of copath nodes provided")
	}

	return root, nil
}

// Evaluate returns the root hash that `proof` corresponds to.
func Evaluate(cs suites.CipherSuite, entries []Entry, proof *PrefixProof) ([]byte, error) {
	root, err := evaluate(cs, entries, proof)
	if err != nil {
		return nil, err
	}
	return root.Hash(cs), nil
}

// Verify checks that the provided root hash matches `proof`.
func Verify(cs suites.CipherSuite, entries []Entry, proof *PrefixProof, root []byte) error {
	cand, err := Evaluate(cs, entries, proof)
	if err != nil {
		return err
	} else if !bytes.Equal(root, cand) {
		return errors.New("root hash does not match expected value")
	}
	return nil
}

// restoreEmptyNodes replaces copath nodes that are known to be empty with
// emptyNodes, such that the tree is simplified correctly when entries next to
// them are removed.
func restoreEmptyNodes(cs suites.CipherSuite, n *node) {
	switch m := (*n).(type) {
	case *parentNode:
		restoreEmptyNodes(cs, &m.left)
		restoreEmptyNodes(cs, &m.right)

	case externalNode:
		if bytes.Equal(m.hash, emptyNode{}.Hash(cs)) {
			*n = emptyNode{}
		}
	}
}

// checkChanges verifies that the first `numAdd` entries are shown by `proof` to
// not be present and that the remaining entries, which are to be removed, are
// shown to be present. Entries that are removed and added again in the same
// change are looked up twice, and only the lookup for the removal is kept.
func checkChanges(entries []Entry, numAdd int, proof *PrefixProof) ([]Entry, *PrefixProof, error) {
	if len(entries) != len(proof.Results) {
		return nil, nil, errors.New("number of entries searched for does not match number of results")
	}
	removed := make(map[string]PrefixSearchResult)
	for i := numAdd; i < len(entries); i++ {
		if !proof.Results[i].Inclusion() {
			return nil, nil, errors.New("removed entry is not present")
		}
		removed[string(entries[i].VrfOutput)] = proof.Results[i]
	}

	outEntries := make([]Entry, 0, len(entries))
	outResults := make([]PrefixSearchResult, 0, len(entries))
	added := make(map[string]struct{})
	for i, entry := range entries {
		if i < numAdd {
			if _, ok := added[string(entry.VrfOutput)]; ok {
				return nil, nil, errors.New("same vrf output present multiple times")
			}
			added[string(entry.VrfOutput)] = struct{}{}

			res, ok := removed[string(entry.VrfOutput)]
			if ok && proof.Results[i] == res {
				continue
			} else if ok || proof.Results[i].Inclusion() {
				return nil, nil, errors.New("added entry is already present")
			}
		}
		outEntries = append(outEntries, entry)
		outResults = append(outResults, proof.Results[i])
	}

	return outEntries, &PrefixProof{Results: outResults, Elements: proof.Elements}, nil
}

// EvaluateBeforeAfter evaluates `proof` before and after making the requested
// additions and removals.
func EvaluateBeforeAfter(cs suites.CipherSuite, add, remove []Entry, proof *PrefixProof) ([]byte, []byte, error) {
	// Combine the `add` and `remove` slices and compute the prefix tree root
	// hash in the straightforward way.
	allEntries := make([]Entry, len(add)+len(remove))
	copy(allEntries, add)
	copy(allEntries[len(add):], remove)

	allEntries, proof, err := checkChanges(allEntries, len(add), proof)
	if err != nil {
		return nil, nil, err
	}
	root, err := evaluate(cs, allEntries, proof)
	if err != nil {
		return nil, nil, err
	}
	before := root.Hash(cs)

	// Perform the additions and removals and compute what the prefix tree root
	// hash would be then.
	sortedAdd := make([]Entry, len(add))
	copy(sortedAdd, add)
	slices.SortFunc(sortedAdd, compareEntries)

	sortedRemove := make([][]byte, len(remove))
	for i, entry := range remove {
		sortedRemove[i] = entry.VrfOutput
	}
	slices.SortFunc(sortedRemove, bytes.Compare)

	restoreEmptyNodes(cs, &root)
	addRemoveEntries(cs, &root, sortedAdd, sortedRemove, 0)
	after := root.Hash(cs)

	return before, after, nil
}
