package transparency

import (
	"context"
	"errors"
	stdmath "math"
	"slices"

	"katiemc/old/tree/transparency/algorithms"
	"katiemc/old/tree/transparency/math"
	"katiemc/old/tree/transparency/structs"
	"katiemc/old/tree/transparency/wire"
)

func (t *Tree) Update(
	ctx context.Context,
	req *structs.UpdateRequest,
) (<-chan wire.UpdateResponse, error) {
	ch := make(chan wire.UpdateResponse)

	up := newUpdater(t, ctx, ch)
	if err := up.setRequest(req); err != nil {
		return nil, err
	}
	go up.process()

	return ch, nil
}

func (t *Tree) ManagerUpdate(
	ctx context.Context,
	req *structs.ManagerUpdateRequest,
) (<-chan wire.UpdateResponse, error) {
	ch := make(chan wire.UpdateResponse)

	up := newUpdater(t, ctx, ch)
	if err := up.setManagerRequest(req); err != nil {
		return nil, err
	}
	go up.process()

	return ch, nil
}

// updateLadderVersions returns the set of versions that a VRF proof needs to be
// provided for in an UpdateResponse, where the first version created in the
// UpdateResponse is `startVer` and the final version created is `endVer`.
//
// Specifically: the versions in a search binary ladder for `endVer`, plus
// versions in the range [startVer, endVer), excluding versions that exist in
// the search binary ladder for `startVer-1`.
func updateLadderVersions(startVer, endVer uint32) []uint32 {
	dedup := make(map[uint32]struct{})

	for _, ver := range math.SearchBinaryLadder(endVer, endVer, nil, nil) {
		dedup[ver] = struct{}{}
	}
	for ver := startVer; ver < endVer; ver++ {
		dedup[ver] = struct{}{}
	}
	if startVer == 0 {
		delete(dedup, 0)
	} else {
		for _, ver := range math.SearchBinaryLadder(startVer-1, startVer-1, nil, nil) {
			delete(dedup, ver)
		}
	}

	// Convert `dedup` into a sorted slice of versions.
	versions := make([]uint32, 0, len(dedup))
	for ver := range dedup {
		versions = append(versions, ver)
	}
	slices.Sort(versions)

	return versions
}

// checkVersionCount returns an error if `count` new versions of a label,
// starting at `startVer`, are too many to be created in a single log entry. An
// UpdateResponse covers all versions created in a log entry, but its lists are
// limited to 255 elements when encoded.
func checkVersionCount(startVer, count int) error {
	if count == 0 {
		return nil
	} else if count > stdmath.MaxUint8 ||
		len(updateLadderVersions(uint32(startVer), uint32(startVer+count-1))) > stdmath.MaxUint8 {
		return errors.New("too many new versions of label requested at once")
	}
	return nil
}

type updater struct {
	tree *Tree
	ctx  context.Context
	ch   chan wire.UpdateResponse

	last      *uint64
	label     []byte
	signedVer *uint32
	values    []structs.UpdateValue

	index []uint64 // index is the label's index.
	ver   int      // ver is the next version the user needs to be informed about.
}

func newUpdater(t *Tree, ctx context.Context, ch chan wire.UpdateResponse) *updater {
	return &updater{tree: t, ctx: ctx, ch: ch}
}

func (u *updater) setRequest(req *structs.UpdateRequest) error {
	if len(req.Values) > 0 && u.tree.config.Mode == structs.ThirdPartyManagement {
		return errors.New("updates must be signed with third-party management")
	}

	values := make([]structs.UpdateValue, len(req.Values))
	for i, val := range req.Values {
		values[i] = structs.UpdateValue{Value: val.Value}
	}
	index, err := u.tree.getIndex(req.Label)
	if err != nil {
		return err
	} else if err := checkVersionCount(len(index), len(req.Values)); err != nil {
		return err
	}

	u.last = req.Last
	u.label = req.Label
	u.values = values
	u.index = index
	u.ver = 0
	if req.GreatestVersion != nil {
		u.ver = int(*req.GreatestVersion) + 1
	}
	return nil
}

func (u *updater) setManagerRequest(req *structs.ManagerUpdateRequest) error {
	if u.tree.config.Mode != structs.ThirdPartyManagement {
		return errors.New("signed updates are only supported with third-party management")
	}

	// Verify service operator signatures.
	for i, val := range req.Values {
		tbs, err := structs.Marshal(&structs.UpdateTBS{
			Config:  u.tree.config.Public(),
			Label:   req.Label,
			Version: req.SignedVersion + uint32(i),
			Value:   val.Value,
		})
		if err != nil {
			return err
		}
		ok := u.tree.config.LeafPublicKey.Verify(tbs, val.Signature)
		if !ok {
			return errors.New("leaf signature verification failed")
		}
	}

	// Load index and populate updater state.
	index, err := u.tree.getIndex(req.Label)
	if err != nil {
		return err
	} else if err := checkVersionCount(len(index), len(req.Values)); err != nil {
		return err
	}

	u.last = req.Last
	u.label = req.Label
	u.signedVer = &req.SignedVersion
	u.values = req.Values
	u.index = index
	u.ver = 0
	if req.GreatestVersion != nil {
		u.ver = int(*req.GreatestVersion) + 1
	}
	return nil
}

func (u *updater) send(res wire.UpdateResponse) bool {
	select {
	case u.ch <- res:
		return true
	case <-u.ctx.Done():
		return false
	}
}

func (u *updater) process() {
	defer close(u.ch)

	// If the greatest version that was advertised by the user is less than the
	// actual greatest version, first push out UpdateResponses for the
	// unknown versions.
	for u.ver < len(u.index) {
		out, err := u.next(true)
		if ok := u.send(wire.UpdateResponse{Out: out, Err: err}); !ok {
			return
		} else if err != nil {
			return
		}

		last := u.tree.treeHead.TreeSize
		u.last = &last
	}

	// Submit new versions to be sequenced and reload the tree once they are.
	if len(u.values) == 0 {
		return
	} else if u.tree.updater == nil {
		u.send(wire.UpdateResponse{
			Err: errors.New("transparency tree does not support user-submitted label updates"),
		})
		return
	}
	res := make(chan uint64, 1)
	req := UpdateRequest{
		Label:           u.label,
		StartingVersion: u.signedVer,
		Values:          u.values,

		Response: res,
	}
	select {
	case u.tree.updater <- req:
	case <-u.ctx.Done():
		return
	}

	var (
		pos uint64
		ok  bool
	)
	select {
	case pos, ok = <-res:
		if !ok {
			u.send(wire.UpdateResponse{
				Err: errors.New("failed to sequence requested new versions of label"),
			})
			return
		}
	case <-u.ctx.Done():
		return
	}
	if err := u.reloadTree(pos); err != nil {
		u.send(wire.UpdateResponse{Err: err})
		return
	}

	// Push out the UpdateResponse for our new version of the label, and any
	// others that were created concurrently.
	for u.ver < len(u.index) {
		out, err := u.next(u.index[u.ver] != pos)
		if ok := u.send(wire.UpdateResponse{Out: out, Err: err}); !ok {
			return
		} else if err != nil {
			return
		}

		last := u.tree.treeHead.TreeSize
		u.last = &last
	}
}

func (u *updater) next(withValues bool) (*structs.UpdateResponse, error) {
	t, pos := u.tree, u.index[u.ver]

	values, info, err := u.infos(pos, withValues)
	if err != nil {
		return nil, err
	}
	startVer := u.ver - len(info)
	ladder, err := u.ladder(startVer, u.ver-1)
	if err != nil {
		return nil, err
	}

	fth, n, nP, m, err := t.fullTreeHead(u.last)
	if err != nil {
		return nil, err
	}

	handle := algorithms.NewProducedProofHandle(t.config.Suite, t.tx, u.index)
	provider := algorithms.NewDataProvider(t.config.Suite, handle)

	if err := t.updateView(u.last, provider); err != nil {
		return nil, err
	}
	monitor, err := algorithms.NewMonitor(t.config.Public(), n, provider)
	if err != nil {
		return nil, err
	}
	monitor.Owner = &algorithms.OwnerState{VerAtStarting: -1, UpcomingVers: u.index[:startVer:startVer]}
	if err := monitor.Update(pos, len(info)); err != nil {
		return nil, err
	}
	for ver := range handle.RequiredVersions() {
		vrfOutput, _, err := t.computeVrfOutput(u.label, ver)
		if err != nil {
			return nil, err
		} else if err := handle.AddVersion(ver, vrfOutput); err != nil {
			return nil, err
		}
	}
	proof, err := provider.Output(n, nP, m)
	if err != nil {
		return nil, err
	}

	return &structs.UpdateResponse{
		FullTreeHead: *fth,

		Position: pos,
		Values:   values,
		Info:     info,

		BinaryLadder: ladder,
		Update:       *proof,
	}, nil
}

// infos returns the UpdateInfo structures for all of the versions inserted in
// the log entry at `pos`. If `withValues` is true, it also returns the value
// for each version.
func (u *updater) infos(pos uint64, withValues bool) ([]structs.LabelValue, []structs.UpdateInfo, error) {
	var (
		values []structs.LabelValue
		info   []structs.UpdateInfo
	)

	for ; u.ver < len(u.index) && u.index[u.ver] == pos; u.ver++ {
		res, err := u.tree.getVersion(u.label, uint32(u.ver))
		if err != nil {
			return nil, nil, err
		}
		if withValues {
			values = append(values, structs.LabelValue{Value: res.Value.Value})
		}
		info = append(info, structs.UpdateInfo{
			Opening:      res.Opening,
			UpdateSuffix: res.Value.UpdateSuffix,
		})
	}

	// Verify that the label hasn't been removed from the database since its
	// index was loaded, in which case the values above would be wrong.
	index, err := u.tree.getIndex(u.label)
	if err != nil {
		return nil, nil, err
	} else if !slices.Equal(index, u.index) {
		return nil, nil, errors.New("label was removed while processing request")
	}

	return values, info, nil
}

// ladder returns the binary ladder steps for an Update operation where
// `startVer` was the first new version inserted and `endVer` was the last new
// version inserted. `startVer` and `endVer` are the same if only one version
// was inserted.
func (u *updater) ladder(startVer, endVer int) ([]structs.BinaryLadderStep, error) {
	versions := updateLadderVersions(uint32(startVer), uint32(endVer))
	return u.tree.getBinaryLadder(u.label, versions, startVer-1, u.tree.treeHead.TreeSize)
}

// reloadTree refreshes the `tree` and `index` fields of `u` to cover new
// versions created in the log entry `pos`.
func (u *updater) reloadTree(pos uint64) error {
	tree, err := NewTree(u.tree.config, u.tree.tx, u.tree.updater)
	if err != nil {
		return err
	} else if tree.treeHead.TreeSize <= pos {
		return errors.New("reloaded tree does not contain new versions of label")
	}

	index, err := tree.getIndex(u.label)
	if err != nil {
		return err
	}
	if len(index) == 0 || index[len(index)-1] < pos {
		return errors.New("reloaded index does not contain new versions of label")
	}

	u.tree = tree
	u.index = index
	return nil
}
