package algorithms

import (
	"errors"
	"slices"

	"katiemc/old/tree/transparency/math"
	"katiemc/old/tree/transparency/structs"
)

// ContactState wraps the state maintained by a user that has looked up
// (potentially multiple versions of) a single label.
type ContactState struct {
	// Ptrs is a map from log entry to the greatest version of the label that's
	// been proven to exist at that point.
	Ptrs map[uint64]uint32
}

func NewContactState(entries []structs.MonitorMapEntry) *ContactState {
	ptrs := make(map[uint64]uint32)
	for _, entry := range entries {
		ptrs[entry.Position] = entry.Version
	}
	return &ContactState{Ptrs: ptrs}
}

// Struct returns the state as it's encoded. The state may be nil, which is how
// Monitor indicates that no future monitoring is required.
func (cs *ContactState) Struct() []structs.MonitorMapEntry {
	if cs == nil {
		return nil
	}
	out := make([]structs.MonitorMapEntry, 0, len(cs.Ptrs))
	for pos, ver := range cs.Ptrs {
		out = append(out, structs.MonitorMapEntry{Position: pos, Version: ver})
	}
	slices.SortFunc(out, func(a, b structs.MonitorMapEntry) int {
		if a.Position < b.Position {
			return -1
		} else if a.Position > b.Position {
			return 1
		}
		return 0
	})
	return out
}

// OwnerState wraps the state maintained by the owner of a single label.
type OwnerState struct {
	// Starting is the position of the rightmost distinguished log entry that
	// has been verified by owner monitoring.
	Starting uint64

	// VerAtStarting is the version of the label that exists at `starting`, or
	// -1 if the label didn't exist yet.
	VerAtStarting int
	// UpcomingVers is the position of each upcoming new version of the label.
	UpcomingVers []uint64
}

func NewOwnerState(from *structs.LabelOwnerState) *OwnerState {
	return &OwnerState{
		Starting:      from.Starting,
		VerAtStarting: from.VerAtStarting,
		UpcomingVers:  from.UpcomingVers,
	}
}

func (os *OwnerState) Struct() *structs.LabelOwnerState {
	return &structs.LabelOwnerState{
		Starting:      os.Starting,
		VerAtStarting: os.VerAtStarting,
		UpcomingVers:  os.UpcomingVers,
	}
}

// SetStarting sets the owner's starting position to be `x`, consuming any
// values from `UpcomingVers` and incrementing `VerAtStarting` as appropriate.
func (os *OwnerState) SetStarting(x uint64) {
	idx, _ := slices.BinarySearch(os.UpcomingVers, x+1)

	os.Starting = x
	os.VerAtStarting = idx + os.VerAtStarting
	os.UpcomingVers = os.UpcomingVers[idx:]
}

// GreatestVersionAt returns the greatest version of the label that would've
// been expected to exist at `x`, or -1 if the label didn't exist yet.
//
// This is not accurate for `x` values that are to the left of `Starting`.
func (os *OwnerState) GreatestVersionAt(x uint64) int {
	idx, _ := slices.BinarySearch(os.UpcomingVers, x+1)
	return idx + os.VerAtStarting
}

// GreatestVersion returns the absolute greatest version of the label known.
func (os *OwnerState) GreatestVersion() int {
	return os.VerAtStarting + len(os.UpcomingVers)
}

// LastUpdate returns the position of the last known update, or `Starting` if
// there have been no recent updates.
func (os *OwnerState) LastUpdate() uint64 {
	if len(os.UpcomingVers) > 0 {
		return os.UpcomingVers[len(os.UpcomingVers)-1]
	}
	return os.Starting
}

func (os *OwnerState) Clone() *OwnerState {
	return &OwnerState{
		Starting: os.Starting,

		VerAtStarting: os.VerAtStarting,
		UpcomingVers:  slices.Clone(os.UpcomingVers),
	}
}

// Monitor wraps the state that needs to be passed in to a monitoring operation.
type Monitor struct {
	config    *structs.PublicConfig
	provider  *DataProvider
	rightmost uint64 // Timestamp of rightmost log entry.
	treeSize  uint64 // Number of log entries.

	Contact *ContactState
	Owner   *OwnerState
}

// NewMonitor returns a new Monitor structure. The public config for the
// Transparency Log is `config` and the size of the tree is `treeSize`.
func NewMonitor(config *structs.PublicConfig, treeSize uint64, provider *DataProvider) (*Monitor, error) {
	if treeSize == 0 {
		return nil, errors.New("unable to monitor empty tree")
	}
	rightmost, err := provider.GetTimestamp(treeSize - 1)
	if err != nil {
		return nil, err
	}

	return &Monitor{
		config:    config,
		provider:  provider,
		rightmost: rightmost,
		treeSize:  treeSize,
	}, nil
}

// distinguishedAncestor returns the first distinguished log entry that is on
// the direct path of `target` and to its right.
func (m *Monitor) distinguishedAncestor(target uint64) (*uint64, error) {
	// List all distinguished log entries in the direct path of `target` and to
	// its right.
	var (
		distinguished []uint64

		curr  uint64 = math.Root(m.treeSize)
		left  uint64 = 0
		right uint64 = m.rightmost
	)
	for m.config.IsDistinguished(left, right) {
		if curr >= target {
			distinguished = append(distinguished, curr)
		}

		if curr == target {
			break
		}

		timestamp, err := m.provider.GetTimestamp(curr)
		if err != nil {
			return nil, err
		}
		if curr > target {
			curr = math.Left(curr)
			right = timestamp
		} else {
			curr = math.Right(curr, m.treeSize)
			left = timestamp
		}
	}

	// Return the lowest one.
	if len(distinguished) == 0 {
		return nil, nil
	}
	return &distinguished[len(distinguished)-1], nil
}

func (m *Monitor) contactMonitor(x uint64, ver uint32, previous map[uint64]uint32) (*uint64, error) {
	// Determine whether this log entry is distinguished, or what the first
	// distinguished log entry on its direct path and to its right is.
	stop, err := m.distinguishedAncestor(x)
	if err != nil {
		return nil, err
	} else if stop != nil && *stop == x { // If distinguished, we're done.
		return nil, nil
	}

	// Compute the list of log entries to inspect: those on the direct path of
	// `x` and to its right, stopping just after the first distinguished one.
	var inspect []uint64
	covered := stop != nil
	for _, parent := range math.RightDirectPath(x, m.treeSize) {
		inspect = append(inspect, parent)
		if stop != nil && *stop == parent {
			// If the Contact Monitoring operation is being executed in the
			// context of an Owner Monitoring operation, and the given log entry
			// is equal to or to the right of the owner's `start` position, skip
			// inspecting the final distinguished log entry. Owner Monitoring
			// inspects it, but shows that the version is still there only if
			// the owner expects that version or a greater one.
			if m.Owner != nil && x >= m.Owner.Starting {
				inspect = inspect[:len(inspect)-1]
				covered = m.Owner.GreatestVersionAt(parent) >= int(ver)
			}
			break
		}
	}

	// For each log entry in the computed list:
	for _, y := range inspect {
		// If a binary ladder was already provided from this log entry, verify
		// that it was for a greater version.
		if previousVer, ok := previous[y]; ok {
			if previousVer <= ver {
				return nil, errors.New("monitoring detected versions that are not monotonic")
			}
			return nil, nil
		}
		// Obtain and verify a monitoring binary ladder.
		if err := m.provider.GetMonitoringBinaryLadder(y, ver); err != nil {
			return nil, err
		}
		previous[y] = ver
	}

	if covered { // We reached a distinguished log entry.
		return nil, nil
	} else if len(inspect) > 0 { // We moved forward without reaching a DLE.
		return &inspect[len(inspect)-1], nil
	}
	return &x, nil
}

// ContactMonitor executes the algorithm from Section 8.2 using the contact
// monitoring state in m.Contact. If no future monitoring is required, m.Contact
// is set to be nil. Otherwise, m.Contact is updated with the state for the next
// monitoring request.
func (m *Monitor) ContactMonitor() error {
	if m.Contact == nil {
		return nil
	}

	// Extract the list of monitored log entries and sort it from right to left.
	logEntries := make([]uint64, 0, len(m.Contact.Ptrs))
	for x := range m.Contact.Ptrs {
		logEntries = append(logEntries, x)
	}
	slices.Sort(logEntries)
	slices.Reverse(logEntries)

	// For each log entry in `logEntries`, monitor that version of the label.
	previous := make(map[uint64]uint32)
	ptrs := make(map[uint64]uint32)
	for _, x := range logEntries {
		ver := m.Contact.Ptrs[x]

		updated, err := m.contactMonitor(x, ver, previous)
		if err != nil {
			return err
		} else if updated != nil {
			// A greater version may already be monitored at this log entry.
			if greater, ok := ptrs[*updated]; !ok || greater < ver {
				ptrs[*updated] = ver
			}
		}
	}

	// Update retained state.
	if len(ptrs) == 0 {
		m.Contact = nil
	} else {
		m.Contact = &ContactState{Ptrs: ptrs}
	}
	return nil
}

// init returns the list of log entries to verify if an owner is starting their
// monitoring at `starting`. `x` is the current log entry, and `left` and
// `right` are the bounds used to determine distinguished status.
func (m *Monitor) init(starting, x, left, right uint64) ([]uint64, error) {
	if !m.config.IsDistinguished(left, right) {
		return nil, errors.New("requested starting position is not distinguished")
	}
	timestamp, err := m.provider.GetTimestamp(x)
	if err != nil {
		return nil, err
	}
	isExpired := m.config.IsExpired(timestamp, m.rightmost)

	if x < starting {
		// Starting position is to our right, so recurse right.
		if noRightChild(x, m.treeSize) {
			return nil, errors.New("requested starting position is right of the rightmost log entry")
		}
		children, err := m.init(starting, math.Right(x, m.treeSize), timestamp, right)
		if err != nil {
			return nil, err
		} else if isExpired {
			return children, nil
		}
		return append(children, x), nil
	} else if x == starting {
		// We've reached the requested starting position. We already know it's
		// distinguished and just need to verify that it's unexpired.
		if isExpired {
			return nil, errors.New("requested starting position is expired")
		}
		return []uint64{x}, nil
	}
	// Starting position is to our left, so recurse left.
	if noLeftChild(x) || isExpired {
		return nil, errors.New("requested starting position is invalid")
	}
	return m.init(starting, math.Left(x), left, timestamp)
}

// InitEntries returns the log entries that will be inspected while initializing
// the owner's state with a starting position of `starting` (done in OwnerInit).
func (m *Monitor) InitEntries(starting uint64) ([]uint64, error) {
	return m.init(starting, math.Root(m.treeSize), 0, m.rightmost)
}

// OwnerInit initializes the label owner's state. `starting` contains the log
// entry where the label owner wants their ownership to start, and `vers`
// contains the version of the label that exists at each log entry returned by
// `InitEntries`.
//
// Algorithm from the first portion of Section 8.3.
func (m *Monitor) OwnerInit(starting uint64, vers []uint32) ([]uint64, error) {
	if m.Owner != nil {
		return nil, errors.New("label owner state is already initialized")
	}
	xs, err := m.InitEntries(starting)
	if err != nil {
		return nil, err
	}

	// Verify that the expected number of versions was provided and that each
	// version is less than or equal to the one prior.
	if len(vers) > len(xs) {
		return nil, errors.New("unexpected number of versions provided to owner initialization algorithm")
	}
	for i := 1; i < len(vers); i++ {
		if vers[i] > vers[i-1] {
			return nil, errors.New("unexpected increase in label version")
		}
	}

	// Obtain a search binary ladder from each log entry in `xs`. Verify that
	// the ladder terminates in a way that is consistent with the version
	// provided in `vers`.
	for i, x := range xs {
		if i < len(vers) {
			res, err := m.provider.GetSearchBinaryLadder(x, vers[i], false)
			if err != nil {
				return nil, err
			} else if res != 0 {
				return nil, errors.New("binary ladder inconsistent with expected greatest version of label")
			}
		} else {
			res, err := m.provider.GetSearchBinaryLadder(x, 0, false)
			if err != nil {
				return nil, err
			} else if res != -1 {
				return nil, errors.New("binary ladder inconsistent with expected greatest version of label")
			}
		}
	}

	// Setup OwnerState object.
	verAtStarting := -1
	if len(vers) > 0 {
		verAtStarting = int(vers[0])
	}
	m.Owner = &OwnerState{starting, verAtStarting, nil}

	return xs, nil
}

// ownerMonitor performs a depth-first walk of every unexpired distinguished log
// entry that is to the right of `owner.state.Starting`, and requests a search
// binary ladder from each of them for the expected greatest version of the
// label. `x` is the current log entry, `left` and `right` are the bounds used
// for determining distinguished status.
func (m *Monitor) ownerMonitor(x, left, right uint64) error {
	// If the current log entry is not distinguished, stop.
	if !m.config.IsDistinguished(left, right) {
		return nil
	}

	// If the current log entry's index is less than or equal to that of the log
	// entry advertised by the user, recurse to its right child.
	if x <= m.Owner.Starting {
		if noRightChild(x, m.treeSize) {
			return nil
		}
		timestamp, err := m.provider.GetTimestamp(x)
		if err != nil {
			return err
		}
		return m.ownerMonitor(math.Right(x, m.treeSize), timestamp, right)
	}

	// If the current log entry has a left child, recurse to the left child.
	if hasLeftChild(x) {
		timestamp, err := m.provider.GetTimestamp(x)
		if err != nil {
			return err
		} else if err := m.ownerMonitor(math.Left(x), left, timestamp); err != nil {
			return err
		}
	}

	// If a stop condition has been reached, stop.
	ver := m.Owner.GreatestVersionAt(x)
	if m.provider.StopCondition(x, ver) {
		return nil
	}

	// Obtain a search binary ladder from the current log entry where the target
	// version is the greatest version of the label expected to exist at this
	// point, based on the label owner's state.
	if ver < 0 {
		res, err := m.provider.GetSearchBinaryLadder(x, 0, false)
		if err != nil {
			return err
		} else if res != -1 {
			return errors.New("binary ladder inconsistent with expected greatest version of label")
		}
	} else {
		res, err := m.provider.GetSearchBinaryLadder(x, uint32(ver), false)
		if err != nil {
			return err
		} else if res != 0 {
			return errors.New("binary ladder inconsistent with expected greatest version of label")
		}
	}
	m.Owner.SetStarting(x)

	// If the current log entry has a right child, recurse to the right child.
	if noRightChild(x, m.treeSize) {
		return nil
	}
	timestamp, err := m.provider.GetTimestamp(x)
	if err != nil {
		return err
	}
	return m.ownerMonitor(math.Right(x, m.treeSize), timestamp, right)
}

// OwnerMonitor performs owner monitoring, ensuring that the label has not been
// modified without the label owner's permission.
//
// Algorithm from the second portion of Section 8.3.
func (m *Monitor) OwnerMonitor() error {
	if m.Owner == nil {
		return errors.New("label owner state has not been initialized")
	}
	// Set m.Owner to be a clone of its current value. If the operation as a
	// whole succeeds, adopt the modifications to the clone. If it fails, keep
	// the original state.
	original := m.Owner
	m.Owner = original.Clone()

	err := m.ownerMonitor(math.Root(m.treeSize), 0, m.rightmost)
	if err == nil {
		*original = *m.Owner
	}

	m.Owner = original
	return err
}
