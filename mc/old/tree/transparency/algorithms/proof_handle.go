package algorithms

import (
	"bytes"
	"errors"
	"slices"

	"katiemc/old/crypto/suites"
	"katiemc/old/db"
	"katiemc/old/tree/log"
	"katiemc/old/tree/prefix"
	"katiemc/old/tree/transparency/math"
	"katiemc/old/tree/transparency/structs"
)

func addVersion(
	cs suites.CipherSuite,
	versions map[uint32]prefix.Entry,
	ver uint32, vrfOutput, commitment []byte,
) error {
	if len(vrfOutput) != cs.HashSize() {
		return errors.New("malformed vrf output")
	} else if commitment != nil && len(commitment) != cs.HashSize() {
		return errors.New("malformed commitment")
	} else if existing, ok := versions[ver]; ok {
		// The same version may come from several sources, like retained state
		// and a binary ladder. Verify that they agree on what's known.
		if !bytes.Equal(vrfOutput, existing.VrfOutput) {
			return errors.New("different vrf outputs for same version found")
		} else if commitment == nil {
			commitment = existing.Commitment
		} else if existing.Commitment != nil && !bytes.Equal(commitment, existing.Commitment) {
			return errors.New("different commitments for same version found")
		}
	}
	versions[ver] = prefix.Entry{VrfOutput: vrfOutput, Commitment: commitment}
	return nil
}

type ProofHandle interface {
	// GetTimestamp takes as input the position of a log entry and returns the
	// timestamp of the log entry.
	GetTimestamp(x uint64) (uint64, error)

	// GetSearchBinaryLadder takes as input the position of a log entry, the
	// target version for a search binary ladder, and whether or not to omit
	// redundant lookups. It returns the prefix tree root value and -1, 0, or 1
	// to indicate whether the greatest version of the label proven to exist is
	// less than, equal to, or greater than the target version, respectively.
	GetSearchBinaryLadder(x uint64, ver uint32, omit bool) ([]byte, int, error)

	// GetMonitoringBinaryLadder takes as input the position of a log entry and
	// the target version for a monitoring binary ladder. It returns the prefix
	// tree root value.
	GetMonitoringBinaryLadder(x uint64, ver uint32) ([]byte, error)

	// GetInclusionProof takes as input the position of a log entry and a list
	// of versions to get inclusion proofs for. It returns the prefix tree root
	// value.
	GetInclusionProof(x uint64, vers []uint32) ([]byte, error)

	// GetPrefixTrees returns the prefix tree root values for the log entries at
	// the given positions. This corresponds to either consuming or producing
	// the `prefix_roots` field of a CombinedTreeProof.
	GetPrefixTrees(xs []uint64) ([][]byte, error)

	// Finish verifies that the proof is done being consumed and returns an
	// inclusion proof in the log tree for the inspected leaves.
	Finish() ([][]byte, error)

	// Output returns the produced CombinedTreeProof. It takes as input the set
	// of inspected log leaves `leaves` and the tree size parameters `n`, `nP`,
	// and `m`.
	Output(leaves []uint64, n uint64, nP, m *uint64) (*structs.CombinedTreeProof, error)

	// StopCondition returns true if the proof is exhausted. This is only used
	// for owner monitoring, since those proofs are "paginated".
	StopCondition(x uint64, greatest int) bool

	// Tracker returns the tracker used for version lookup omission.
	Tracker() *math.VersionTracker
}

// ReceivedProofHandle implements the proofHandle interface over a
// CombinedTreeProof that was received and is being evaluated.
type ReceivedProofHandle struct {
	cs    suites.CipherSuite
	inner structs.CombinedTreeProof

	versions map[uint32]prefix.Entry
	verified map[uint32]struct{} // versions with a trustworthy commitment
	tracker  math.VersionTracker
}

func NewReceivedProofHandle(cs suites.CipherSuite, inner structs.CombinedTreeProof) *ReceivedProofHandle {
	return &ReceivedProofHandle{
		cs:    cs,
		inner: inner,

		versions: make(map[uint32]prefix.Entry),
		verified: make(map[uint32]struct{}),
	}
}

// AddVersion adds the VRF output and commitment corresponding to a version of a
// label to the ReceivedProofHandle.
func (rph *ReceivedProofHandle) AddVersion(ver uint32, vrfOutput, commitment []byte) error {
	if commitment != nil {
		rph.verified[ver] = struct{}{}
	}
	return addVersion(rph.cs, rph.versions, ver, vrfOutput, commitment)
}

// AddProvidedVersion is the same as AddVersion, except the commitment was
// provided alongside the proof. It isn't authenticated unless the proof shows
// that the version exists.
func (rph *ReceivedProofHandle) AddProvidedVersion(ver uint32, vrfOutput, commitment []byte) error {
	return addVersion(rph.cs, rph.versions, ver, vrfOutput, commitment)
}

// GetVersion returns the VRF output of the requested version and, only if it has
// been authenticated, its commitment.
func (rph *ReceivedProofHandle) GetVersion(ver uint32) (prefix.Entry, bool) {
	entry, ok := rph.versions[ver]
	if _, verified := rph.verified[ver]; !verified {
		entry.Commitment = nil
	}
	return entry, ok
}

func (rph *ReceivedProofHandle) GetTimestamp(x uint64) (uint64, error) {
	if len(rph.inner.Timestamps) == 0 {
		return 0, errors.New("unexpected number of timestamps consumed")
	}
	ts := rph.inner.Timestamps[0]
	rph.inner.Timestamps = rph.inner.Timestamps[1:]
	return ts, nil
}

func (rph *ReceivedProofHandle) GetSearchBinaryLadder(x uint64, ver uint32, omit bool) ([]byte, int, error) {
	// Pop next PrefixProof off of queue.
	if len(rph.inner.PrefixProofs) == 0 {
		return nil, 0, errors.New("unexpected number of prefix proofs consumed")
	}
	proof := rph.inner.PrefixProofs[0]

	// Interpret the binary ladder provided in `proof` to determine which
	// direction our search should go after processing it.
	leftInclusion, rightNonInclusion := rph.tracker.SearchMaps(x, omit)
	ladder := math.SearchBinaryLadder(ver, ver, leftInclusion, rightNonInclusion)
	res, err := math.InterpretSearchLadder(ladder, ver, &proof)
	if err != nil {
		return nil, 0, err
	}

	// Put together the prefix.Entry structures we'll need for proof evaluation.
	entries := make([]prefix.Entry, len(proof.Results))
	for i, result := range proof.Results {
		entry, ok := rph.versions[ladder[i]]
		if !ok {
			return nil, 0, errors.New("required version not known")
		} else if result.Inclusion() && entry.Commitment == nil {
			return nil, 0, errors.New("commitment not known for required version")
		}
		entries[i] = entry
	}

	// Evaluate prefix proof and return.
	root, err := prefix.Evaluate(rph.cs, entries, &proof)
	if err != nil {
		return nil, 0, err
	}

	for i, result := range proof.Results {
		if result.Inclusion() {
			rph.verified[ladder[i]] = struct{}{}
		}
	}
	rph.inner.PrefixProofs = rph.inner.PrefixProofs[1:]
	rph.tracker.AddResults(x, omit, ladder, proof.Results)
	return root, res, nil
}

func (rph *ReceivedProofHandle) GetMonitoringBinaryLadder(x uint64, ver uint32) ([]byte, error) {
	// Pop next PrefixProof off of queue.
	if len(rph.inner.PrefixProofs) == 0 {
		return nil, errors.New("unexpected number of prefix proofs consumed")
	}
	proof := rph.inner.PrefixProofs[0]

	// Verify that proof matches what we'd expect of a proper monitoring binary
	// ladder (correct number of entries, all showing inclusion).
	ladder := math.MonitoringBinaryLadder(ver)
	if len(proof.Results) != len(ladder) {
		return nil, errors.New("unexpected number of results present in prefix proof")
	}
	for _, res := range proof.Results {
		if !res.Inclusion() {
			return nil, errors.New("unexpected non-inclusion proof provided")
		}
	}

	// Evaluate the prefix proof and return.
	entries := make([]prefix.Entry, len(ladder))
	for i, version := range ladder {
		entry, ok := rph.versions[version]
		if !ok {
			return nil, errors.New("required version not known")
		} else if entry.Commitment == nil {
			return nil, errors.New("commitment not known for required version")
		}
		entries[i] = entry
	}
	root, err := prefix.Evaluate(rph.cs, entries, &proof)
	if err != nil {
		return nil, err
	}

	for _, ver := range ladder {
		rph.verified[ver] = struct{}{}
	}
	rph.inner.PrefixProofs = rph.inner.PrefixProofs[1:]
	return root, nil
}

func (rph *ReceivedProofHandle) GetInclusionProof(x uint64, vers []uint32) ([]byte, error) {
	// Pop next PrefixProof off of queue.
	if len(rph.inner.PrefixProofs) == 0 {
		return nil, errors.New("unexpected number of prefix proofs consumed")
	}
	proof := rph.inner.PrefixProofs[0]

	// Verify that proof shows inclusion for each version.
	if len(proof.Results) != len(vers) {
		return nil, errors.New("unexpected number of results present in prefix proof")
	}
	for _, res := range proof.Results {
		if !res.Inclusion() {
			return nil, errors.New("unexpected non-inclusion proof provided")
		}
	}

	// Evaluate the prefix proof and return.
	entries := make([]prefix.Entry, len(vers))
	for i, ver := range vers {
		entry, ok := rph.versions[ver]
		if !ok {
			return nil, errors.New("required version not known")
		} else if entry.Commitment == nil {
			return nil, errors.New("commitment not known for required version")
		}
		entries[i] = entry
	}
	root, err := prefix.Evaluate(rph.cs, entries, &proof)
	if err != nil {
		return nil, err
	}

	for _, ver := range vers {
		rph.verified[ver] = struct{}{}
	}
	rph.inner.PrefixProofs = rph.inner.PrefixProofs[1:]
	return root, nil
}

func (rph *ReceivedProofHandle) GetPrefixTrees(xs []uint64) ([][]byte, error) {
	if len(xs) != len(rph.inner.PrefixRoots) {
		return nil, errors.New("unexpected number of prefix tree roots requested")
	}
	roots := rph.inner.PrefixRoots
	rph.inner.PrefixRoots = nil
	return roots, nil
}

func (rph *ReceivedProofHandle) Finish() ([][]byte, error) {
	if len(rph.inner.Timestamps) != 0 {
		return nil, errors.New("unexpected additional timestamps found")
	} else if len(rph.inner.PrefixProofs) != 0 {
		return nil, errors.New("unexpected additional prefix proofs found")
	} else if len(rph.inner.PrefixRoots) != 0 {
		return nil, errors.New("unexpected additional prefix roots found")
	}
	return rph.inner.Inclusion.Elements, nil
}

func (rph *ReceivedProofHandle) Output(leaves []uint64, n uint64, nP, m *uint64) (*structs.CombinedTreeProof, error) {
	panic("unreachable")
}

func (rph *ReceivedProofHandle) StopCondition(_ uint64, _ int) bool {
	// The only valid stop condition for a received proof is that all of the
	// binary ladders have been consumed.
	return len(rph.inner.PrefixProofs) == 0
}

func (rph *ReceivedProofHandle) Tracker() *math.VersionTracker { return &rph.tracker }

type requiredProof struct {
	pos  uint64
	vers []uint32
}

// ProducedProofHandle implements the proofHandle interface such that it can
// output the corresponding CombinedTreeProof.
type ProducedProofHandle struct {
	cs    suites.CipherSuite
	tx    db.TransparencyStore
	index []uint64

	logEntries map[uint64]structs.LogEntry
	versions   map[uint32]prefix.Entry
	tracker    math.VersionTracker

	timestamps []uint64
	proofs     []requiredProof
	roots      [][]byte
}

func NewProducedProofHandle(
	cs suites.CipherSuite,
	tx db.TransparencyStore,
	index []uint64,
) *ProducedProofHandle {
	return &ProducedProofHandle{
		cs:    cs,
		tx:    tx,
		index: index,

		logEntries: make(map[uint64]structs.LogEntry),
		versions:   make(map[uint32]prefix.Entry),
	}
}

// RequiredVersions returns the set of versions for which AddVersion must be
// called with the corresponding VRF output for Output to return successfully.
func (pph *ProducedProofHandle) RequiredVersions() map[uint32]struct{} {
	accumulator := make(map[uint32]struct{})

	for _, proof := range pph.proofs {
		for _, ver := range proof.vers {
			accumulator[ver] = struct{}{}
		}
	}

	return accumulator
}

// AddVersion adds the VRF output corresponding to a version of a label to the
// ProducedProofHandle.
func (pph *ProducedProofHandle) AddVersion(ver uint32, vrfOutput []byte) error {
	return addVersion(pph.cs, pph.versions, ver, vrfOutput, nil)
}

// GetCommitment returns the commitment associated with the requested version of
// the label, or nil if it is not known.
func (pph *ProducedProofHandle) GetCommitment(ver uint32) []byte {
	return pph.versions[ver].Commitment
}

// greatestAt returns the greatest version of the label that exists at log entry
// `x`, or -1 if no version of the label should exist.
func (pph *ProducedProofHandle) greatestAt(x uint64) int {
	idx, _ := slices.BinarySearch(pph.index, x+1)
	return idx - 1
}

func (pph *ProducedProofHandle) getLogEntry(x uint64) (*structs.LogEntry, error) {
	if entry, ok := pph.logEntries[x]; ok {
		return &entry, nil
	}

	res, err := pph.tx.BatchGet([]uint64{x})
	if err != nil {
		return nil, err
	}
	raw, ok := res[x]
	if !ok {
		return nil, errors.New("requested log entry not found")
	}

	buf := bytes.NewBuffer(raw)
	entry, err := structs.NewLogEntry(pph.cs, buf)
	if err != nil {
		return nil, err
	} else if buf.Len() != 0 {
		return nil, errors.New("unexpected data appended to log entry")
	}
	pph.logEntries[x] = *entry

	return entry, nil
}

func (pph *ProducedProofHandle) GetTimestamp(x uint64) (uint64, error) {
	entry, err := pph.getLogEntry(x)
	if err != nil {
		return 0, err
	}
	pph.timestamps = append(pph.timestamps, entry.Timestamp)
	return entry.Timestamp, nil
}

func (pph *ProducedProofHandle) GetSearchBinaryLadder(x uint64, ver uint32, omit bool) ([]byte, int, error) {
	greatest := pph.greatestAt(x)

	// Compute the binary ladder steps to lookup.
	var ladder []uint32
	if greatest < 0 {
		ladder = []uint32{0}
	} else {
		leftInclusion, rightNonInclusion := pph.tracker.SearchMaps(x, omit)
		ladder = math.SearchBinaryLadder(ver, uint32(greatest), leftInclusion, rightNonInclusion)
	}

	// Determine the prefix tree root and the result of the search.
	entry, err := pph.getLogEntry(x)
	if err != nil {
		return nil, 0, err
	}
	res := 0
	if greatest < int(ver) {
		res = -1
	} else if greatest > int(ver) {
		res = 1
	}

	pph.proofs = append(pph.proofs, requiredProof{pos: x, vers: ladder})
	pph.tracker.AddLadder(x, omit, greatest, ladder)
	return entry.PrefixTree, res, nil
}

func (pph *ProducedProofHandle) GetMonitoringBinaryLadder(x uint64, ver uint32) ([]byte, error) {
	entry, err := pph.getLogEntry(x)
	if err != nil {
		return nil, err
	}
	ladder := math.MonitoringBinaryLadder(ver)
	pph.proofs = append(pph.proofs, requiredProof{pos: x, vers: ladder})
	return entry.PrefixTree, nil
}

func (pph *ProducedProofHandle) GetInclusionProof(x uint64, vers []uint32) ([]byte, error) {
	entry, err := pph.getLogEntry(x)
	if err != nil {
		return nil, err
	}
	pph.proofs = append(pph.proofs, requiredProof{pos: x, vers: slices.Clone(vers)})
	return entry.PrefixTree, nil
}

func (pph *ProducedProofHandle) GetPrefixTrees(xs []uint64) ([][]byte, error) {
	roots := make([][]byte, len(xs))
	for i, x := range xs {
		entry, err := pph.getLogEntry(x)
		if err != nil {
			return nil, err
		}
		roots[i] = entry.PrefixTree
	}
	pph.roots = roots
	return roots, nil
}

func (pph *ProducedProofHandle) Finish() ([][]byte, error) {
	panic("unreachable")
}

func (pph *ProducedProofHandle) Output(leaves []uint64, n uint64, nP, m *uint64) (*structs.CombinedTreeProof, error) {
	// Construct the list of prefix tree searches to execute.
	searches := make([]prefix.PrefixSearch, len(pph.proofs))
	for i, proof := range pph.proofs {
		vrfOutputs := make([][]byte, len(proof.vers))
		for j, ver := range proof.vers {
			entry, ok := pph.versions[ver]
			if !ok {
				return nil, errors.New("required version not known")
			}
			vrfOutputs[j] = entry.VrfOutput
		}
		searches[i] = prefix.PrefixSearch{Version: proof.pos + 1, VrfOutputs: vrfOutputs}
	}

	// Execute prefix tree searches.
	res, err := prefix.NewTree(pph.cs, pph.tx.PrefixStore()).Search(searches)
	if err != nil {
		return nil, err
	}

	// Pull out individual proofs. Pull out commitment values / check for
	// consistency if there is duplication.
	proofs := make([]prefix.PrefixProof, len(res))
	for i, result := range res {
		proofs[i] = result.Proof

		for j, commitment := range result.Commitments {
			if commitment == nil {
				continue
			}
			ver := pph.proofs[i].vers[j]
			entry := pph.versions[ver]
			if entry.Commitment == nil {
				pph.versions[ver] = prefix.Entry{VrfOutput: entry.VrfOutput, Commitment: commitment}
			} else if !bytes.Equal(commitment, entry.Commitment) {
				return nil, errors.New("different values for same commitment found")
			}
		}
	}

	// Fetch inclusion proof and return final CombinedTreeProof.
	inclusion, err := log.NewTree(pph.cs, pph.tx.LogStore()).GetBatch(leaves, n, nP, m)
	if err != nil {
		return nil, err
	}
	return &structs.CombinedTreeProof{
		Timestamps:   pph.timestamps,
		PrefixProofs: proofs,
		PrefixRoots:  pph.roots,

		Inclusion: structs.InclusionProof{Elements: inclusion},
	}, nil
}

func (pph *ProducedProofHandle) StopCondition(x uint64, ver int) bool {
	return len(pph.proofs) >= 25 || pph.greatestAt(x) > ver
}

func (pph *ProducedProofHandle) Tracker() *math.VersionTracker { return &pph.tracker }
