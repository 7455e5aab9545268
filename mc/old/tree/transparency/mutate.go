package transparency

import (
	"bytes"
	"errors"
	"fmt"
	"slices"
	"time"

	"katiemc/old/tree/log"
	"katiemc/old/tree/prefix"
	"katiemc/old/tree/transparency/algorithms"
	"katiemc/old/tree/transparency/structs"
)

// Mutate takes as input a set of new label-value pairs to insert, and a set of
// existing label-version pairs to remove. Version counters are automatically
// assigned/unassigned.
//
// It returns the AuditorUpdate structure for the Third-Party Auditor, if any.
func (t *Tree) Mutate(add []LabelValue, remove [][]byte) (*structs.AuditorUpdate, error) {
	n := uint64(0)
	if t.treeHead != nil {
		n = t.treeHead.TreeSize
	}

	handle := algorithms.NewProducedProofHandle(t.config.Suite, t.tx, nil)
	provider := algorithms.NewDataProvider(t.config.Suite, handle)

	// Decide on the timestamp for the new log entry. We do this so early
	// because it affects which distinguished log entries exist, which affects
	// which modifications are allowable.
	timestamp := uint64(time.Now().UnixMilli())
	if n > 0 {
		rightmost, err := provider.GetTimestamp(n - 1)
		if err != nil {
			return nil, err
		} else if timestamp < rightmost {
			return nil, errors.New("refusing to issue tree head: current timestamp is less than previous timestamp")
		}
	}

	// Compute what the rightmost distinguished log entry will be after the new
	// log entry is added.
	provider.AddRetained(nil, map[uint64]structs.LogEntry{n: {Timestamp: timestamp}})
	prevDLE, err := algorithms.PreviousRightmost(t.config.Public(), n+1, provider)
	if err != nil {
		return nil, err
	}

	// Group the mutation requests by label. Process the mutation for each label
	// individually and collect the set of additions and removals that we want
	// to do to the prefix tree.
	mutations, err := t.groupByLabel(add, remove)
	if err != nil {
		return nil, err
	}
	var (
		prefixAdd    []prefix.Entry
		prefixRemove [][]byte
		writes       []func() error
	)
	for _, mutation := range mutations {
		pa, pr, w, err := t.mutateLabel(n, prevDLE, mutation)
		if err != nil {
			return nil, err
		}
		prefixAdd = append(prefixAdd, pa...)
		prefixRemove = append(prefixRemove, pr...)
		writes = append(writes, w...)
	}

	// Sort the new additions and removals by VRF output to avoid accidentally
	// leaking information to the Third-Party Auditor (if there is one).
	slices.SortFunc(prefixAdd, func(a, b prefix.Entry) int {
		return bytes.Compare(a.VrfOutput, b.VrfOutput)
	})
	slices.SortFunc(prefixRemove, bytes.Compare)

	// Make the requested modifications to the prefix tree.
	prefixTree := prefix.NewTree(t.config.Suite, t.tx.PrefixStore())
	prefixRoot, prefixProof, commitments, err := prefixTree.Mutate(n, prefixAdd, prefixRemove)
	if err != nil {
		return nil, err
	}

	// Issue new tree head.
	if err := t.issueTreeHead(n, timestamp, prefixRoot, writes); err != nil {
		return nil, err
	}

	// Construct the AuditorUpdate structure to return.
	removedEntries := make([]prefix.Entry, len(prefixRemove))
	for i, vrfOutput := range prefixRemove {
		removedEntries[i] = prefix.Entry{VrfOutput: vrfOutput, Commitment: commitments[i]}
	}
	return &structs.AuditorUpdate{
		Timestamp: timestamp,
		Added:     prefixAdd,
		Removed:   removedEntries,
		Proof:     *prefixProof,
	}, nil
}

type labelMutation struct {
	label  []byte
	index  []uint64
	add    []LabelValue
	remove bool
}

// groupByLabel takes the full set of requested additions and removals and
// organizes them by label. This function also handles looking up the index for
// all of the affected labels.
func (t *Tree) groupByLabel(add []LabelValue, remove [][]byte) ([]labelMutation, error) {
	allLabels := make(map[string][]byte)

	// Group adds and removes by label.
	groupedAdds := make(map[string][]LabelValue)
	for _, pair := range add {
		labelStr := fmt.Sprintf("%x", pair.Label)
		allLabels[labelStr] = pair.Label
		groupedAdds[labelStr] = append(groupedAdds[labelStr], pair)
	}

	groupedRemoves := make(map[string]struct{})
	for _, label := range remove {
		labelStr := fmt.Sprintf("%x", label)
		allLabels[labelStr] = label
		groupedRemoves[labelStr] = struct{}{}
	}

	// Extract the full set of labels / labels converted to strings.
	labelStrs := make([]string, 0, len(allLabels))
	labels := make([][]byte, 0, len(allLabels))
	for labelStr, label := range allLabels {
		labelStrs = append(labelStrs, labelStr)
		labels = append(labels, label)
	}

	// Batch lookup the index for each label.
	indices, err := t.batchGetIndex(labels)
	if err != nil {
		return nil, err
	}

	// Combine into slice where each entry is one label's mutation information.
	out := make([]labelMutation, len(labelStrs))
	for i, labelStr := range labelStrs {
		_, ok := groupedRemoves[labelStr]
		out[i] = labelMutation{
			label:  labels[i],
			index:  indices[i],
			add:    groupedAdds[labelStr],
			remove: ok,
		}
	}
	return out, nil
}

// mutateLabel performs the requested additions and removals for a single label.
// Version counters are assigned sequentially.
//
// The database isn't modified, so that nothing is left behind if the overall
// mutation is rejected. Instead, the writes to make are returned as the third
// value.
func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]prefix.Entry, [][]byte, []func() error, error) {
	var (
		add    []prefix.Entry
		remove [][]byte
		writes []func() error

		label, index = mut.label, mut.index
	)

	if mut.remove && len(index) > 0 {
		// The label is not eligible for deletion if it has been modified since
		// the last distinguished log entry was created.
		if prevDLE == nil || index[len(index)-1] > *prevDLE {
			return nil, nil, nil, fmt.Errorf("unable to delete label that was modified recently: %s", label)
		}

		// Delete the label's index.
		writes = append(writes, func() error { return t.tx.DeleteIndex(label) })

		// Delete the value and VRF output of each version.
		for ver := range index {
			writes = append(writes, func() error { return t.tx.DeleteVersion(label, uint32(ver)) })
			vrfOutput, _, err := t.computeVrfOutput(label, uint32(ver))
			if err != nil {
				return nil, nil, nil, err
			}
			remove = append(remove, vrfOutput)
		}

		index = index[:0]
	}

	// Otherwise, the label owner could never be informed of the new versions.
	if err := checkVersionCount(len(index), len(mut.add)); err != nil {
		return nil, nil, nil, err
	}

	for _, pair := range mut.add {
		ver := uint32(len(index))

		vrfOutput, _, err := t.computeVrfOutput(pair.Label, ver)
		if err != nil {
			return nil, nil, nil, err
		}
		commitment, data, err := t.newVersion(pair.Label, ver, pair.Value)
		if err != nil {
			return nil, nil, nil, err
		}
		writes = append(writes, func() error { return t.tx.PutVersion(pair.Label, ver, data) })

		add = append(add, prefix.Entry{VrfOutput: vrfOutput, Commitment: commitment})
		index = append(index, n)
	}
	if len(mut.add) > 0 {
		writes = append(writes, func() error { return t.putIndex(mut.add[0].Label, index) })
	}

	return add, remove, writes, nil
}

// issueTreeHead takes as input the current tree size, the new rightmost
// timestamp, and the new prefix tree root. It adds a new log entry to the right
// edge of the log tree, makes the given writes to the database, and then signs
// and commits a new tree head.
func (t *Tree) issueTreeHead(n, timestamp uint64, prefixRoot []byte, writes []func() error) error {
	logEntry := structs.LogEntry{
		Timestamp:  timestamp,
		PrefixTree: prefixRoot,
	}

	// Encode the new log entry and write it to the database.
	raw, err := structs.Marshal(&logEntry)
	if err != nil {
		return err
	} else if err := t.tx.Put(n, raw); err != nil {
		return err
	}

	// Compute the new log entry leaf hash and append it to the log tree.
	leaf, err := logEntry.Hash(t.config.Suite)
	if err != nil {
		return err
	}
	fullSubtrees, err := log.NewTree(t.config.Suite, t.tx.LogStore()).Append(n, leaf)
	if err != nil {
		return err
	}
	root, err := log.Root(t.config.Suite, n+1, fullSubtrees)
	if err != nil {
		return err
	}

	// Sign and persist the new tree head.
	tbs, err := structs.Marshal(&structs.TreeHeadTBS{
		Config:   t.config.Public(),
		TreeSize: n + 1,
		Root:     root,
	})
	if err != nil {
		return err
	}
	signature, err := t.config.SignatureKey.Sign(tbs)
	if err != nil {
		return err
	}
	treeHead := &structs.TreeHead{TreeSize: n + 1, Signature: signature}
	rawTreeHead, err := structs.Marshal(treeHead)
	if err != nil {
		return err
	}
	for _, write := range writes {
		if err := write(); err != nil {
			return err
		}
	}
	if err := t.tx.PutTreeHead(rawTreeHead); err != nil {
		return err
	} else if err := t.tx.Commit(); err != nil {
		return err
	}

	t.treeHead = treeHead

	return nil
}
