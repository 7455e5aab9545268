package oldsim

import (
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"maps"
	"slices"

	"katiemc/kit"
	"katiemc/ref"

	"katiemc/old/crypto/commitments"
	"katiemc/old/crypto/suites"
	"katiemc/old/tree/log"
	"katiemc/old/tree/prefix"
	"katiemc/old/tree/transparency/algorithms"
	"katiemc/old/tree/transparency/math"
	"katiemc/old/tree/transparency/structs"
	"katiemc/old/tree/transparency/wire"
)

// Liar is a log operator that is free to put anything into the prefix tree of
// each log entry: versions of a label may disappear, come back, or change their
// value. Everything it signs is one single consistent log, and all its proofs
// are genuine proofs about that log.
type Liar struct {
	Config structs.PrivateConfig
	Public *structs.PublicConfig
	Label  string
	Times  []uint64
	Has    []map[uint32]string // versions of the label and their values, per entry

	Size  uint64 // entries published so far
	Stop  int    // owner monitoring ends after this many proofs, -1 for never
	Owner *structs.LabelOwnerState
	Claim bool     // owners are told what Index says when they claim the label
	Index []uint64 // entries in which the owner is told the versions appeared

	Cheat *Cheat // searches are answered this way

	Auditor func(size uint64) *structs.AuditorTreeHead // third-party auditing
	Rules   *structs.PublicConfig                      // what the operator goes by when it makes proofs

	store   *Store
	entries []structs.LogEntry
	heads   []*structs.TreeHead
}

var _ wire.Interface = &Liar{}

// Cheat is a dishonest answer to a search. The proof that comes with it is
// genuine as far as it goes.
type Cheat struct {
	Target uint32 // claimed to be the greatest version
	Value  string // claimed to be the value of the version
}

func pad(v string) []byte {
	h := sha256.Sum256([]byte("opening" + v))
	return h[:16]
}

func (l *Liar) vrf(ver uint32) (output, proof []byte) {
	return l.Config.VrfKey.Prove(Encode(&structs.VrfInput{Label: []byte(l.Label), Version: ver}))
}

func (l *Liar) commit(ver uint32, value string) []byte {
	c := Encode(&structs.CommitmentValue{Label: []byte(l.Label), Version: ver, Update: structs.UpdateValue{Value: []byte(value)}})
	return commitments.Commit(l.Config.Suite, pad(value), c)
}

// NewLiar publishes a log with the given contents.
func NewLiar(c structs.PrivateConfig, label string, times []uint64, has []map[uint32]string) *Liar {
	l := &Liar{Config: c, Public: c.Public(), Rules: c.Public(), Label: label, Times: times, Has: has, Stop: -1, store: NewDisk().Open()}
	l.heads = append(l.heads, nil)
	pt := prefix.NewTree(c.Suite, l.store.PrefixStore())
	lt := log.NewTree(c.Suite, l.store.LogStore())
	prev := map[uint32]string{}
	for x := range times {
		var add []prefix.Entry
		var remove [][]byte
		for _, v := range slices.Sorted(maps.Keys(prev)) {
			if now, ok := has[x][v]; !ok || now != prev[v] {
				out, _ := l.vrf(v)
				remove = append(remove, out)
			}
		}
		for _, v := range slices.Sorted(maps.Keys(has[x])) {
			if was, ok := prev[v]; !ok || was != has[x][v] {
				out, _ := l.vrf(v)
				add = append(add, prefix.Entry{VrfOutput: out, Commitment: l.commit(v, has[x][v])})
			}
		}
		root, _, _, err := pt.Mutate(uint64(x), add, remove)
		kit.NoErr(err, "building the prefix tree of entry %d", x)
		e := structs.LogEntry{Timestamp: times[x], PrefixTree: root}
		h, err := e.Hash(c.Suite)
		kit.NoErr(err, "hashing entry %d", x)
		subtrees, err := lt.Append(uint64(x), h)
		kit.NoErr(err, "appending entry %d", x)
		lroot, err := log.Root(c.Suite, uint64(x)+1, subtrees)
		kit.NoErr(err, "root of the log at size %d", x+1)
		sig, _ := c.SignatureKey.Sign(Encode(&structs.TreeHeadTBS{Config: l.Public, TreeSize: uint64(x) + 1, Root: lroot}))
		l.entries = append(l.entries, e)
		l.heads = append(l.heads, &structs.TreeHead{TreeSize: uint64(x) + 1, Signature: sig})
		prev = has[x]
	}
	l.Size = uint64(len(times))
	return l
}

// greatest version in an entry, -1 for none.
func (l *Liar) greatest(x uint64) int {
	g := -1
	for v := range l.Has[x] {
		g = max(g, int(v))
	}
	return g
}

// story is the value the operator tells for a version: the current one, or the
// last one that was in the log.
func (l *Liar) story(ver uint32) (string, bool) {
	for x := int(l.Size) - 1; x >= 0; x-- {
		if v, ok := l.Has[x][ver]; ok {
			return v, true
		}
	}
	return "", false
}

func (l *Liar) head(last *uint64) (structs.FullTreeHead, error) {
	if last != nil && *last == l.Size {
		return structs.FullTreeHead{}, nil
	} else if last != nil && *last > l.Size {
		return structs.FullTreeHead{}, errors.New("client is ahead")
	}
	h := structs.FullTreeHead{TreeHead: l.heads[l.Size]}
	if l.Auditor != nil {
		h.AuditorTreeHead = l.Auditor(l.Size)
	}
	return h, nil
}

// Head is the one published with the given size.
func (l *Liar) Head(size uint64) *structs.TreeHead { return l.heads[size] }

// Entry of the log.
func (l *Liar) Entry(x uint64) structs.LogEntry { return l.entries[x] }

// Root of the log with the given size.
func (l *Liar) Root(size uint64) []byte {
	var leaves [][]byte
	for _, e := range l.entries[:size] {
		h, err := e.Hash(l.Config.Suite)
		kit.NoErr(err, "hashing an entry")
		leaves = append(leaves, h)
	}
	return ref.LogRoot(leaves)
}

// AuditorHead is signed by the given key.
func (l *Liar) AuditorHead(key suites.SigningPrivateKey, timestamp, size, rootOf uint64) *structs.AuditorTreeHead {
	tbs := Encode(&structs.AuditorTreeHeadTBS{Config: l.Public, Timestamp: timestamp, TreeSize: size, Root: l.Root(rootOf)})
	sig, err := key.Sign(tbs)
	kit.NoErr(err, "signing an auditor head")
	return &structs.AuditorTreeHead{Timestamp: timestamp, TreeSize: size, Signature: sig}
}

// Commitment of a version and value.
func (l *Liar) Commitment(ver uint32, value string) []byte { return l.commit(ver, value) }

// start prepares a proof for a client that last saw the given size.
func (l *Liar) start(last *uint64) (*lie, *algorithms.DataProvider, error) {
	h := &lie{l: l}
	p := algorithms.NewDataProvider(l.Config.Suite, h)
	if last != nil {
		retained := map[uint64]structs.LogEntry{}
		for _, x := range math.Frontier(*last) {
			retained[x] = l.entries[x]
		}
		if err := p.AddRetained(nil, retained); err != nil {
			return nil, nil, err
		}
	}
	return h, p, algorithms.UpdateView(l.Rules, l.Size, last, p)
}

func (l *Liar) output(h *lie, p *algorithms.DataProvider, last *uint64) (structs.CombinedTreeProof, error) {
	var nP *uint64
	if fth, err := l.head(last); err == nil && fth.AuditorTreeHead != nil {
		nP = &fth.AuditorTreeHead.TreeSize
	}
	out, err := p.Output(l.Size, nP, last)
	if err != nil {
		return structs.CombinedTreeProof{}, err
	}
	return *out, nil
}

// steps of a binary ladder; versions in skip have their commitment left out.
func (l *Liar) steps(vers []uint32, skip func(uint32) bool) []structs.BinaryLadderStep {
	out := make([]structs.BinaryLadderStep, len(vers))
	for i, v := range vers {
		_, out[i].Proof = l.vrf(v)
		if s, ok := l.story(v); ok && !skip(v) {
			out[i].Commitment = l.commit(v, s)
		}
	}
	return out
}

func (l *Liar) Search(_ context.Context, req *structs.SearchRequest) (*structs.SearchResponse, error) {
	fth, err := l.head(req.Last)
	if err != nil {
		return nil, err
	}
	h, p, err := l.start(req.Last)
	if err != nil {
		return nil, err
	}
	res := &structs.SearchResponse{FullTreeHead: fth}
	var target uint32
	if req.Version != nil {
		target = *req.Version
	} else {
		target = uint32(max(0, l.greatest(l.Size-1)))
		if l.Cheat != nil {
			target = l.Cheat.Target
		}
		res.Version = &target
	}
	if req.Version == nil {
		_, err = algorithms.GreatestVersionSearch(l.Rules, target, l.Size, p)
	} else {
		_, err = algorithms.FixedVersionSearch(l.Rules, target, l.Size, p)
	}
	if err != nil && err != algorithms.ErrLabelNotFound && l.Cheat == nil {
		return nil, err
	}
	res.Opening = make([]byte, l.Config.Suite.CommitmentOpeningSize())
	if l.Cheat != nil {
		res.Opening, res.Value.Value = pad(l.Cheat.Value), []byte(l.Cheat.Value)
	} else if v, ok := l.story(target); ok {
		res.Opening, res.Value.Value = pad(v), []byte(v)
	}
	res.BinaryLadder = l.steps(math.SearchBinaryLadder(target, target, nil, nil), func(v uint32) bool { return v == target })
	res.Search, err = l.output(h, p, req.Last)
	return res, err
}

func (l *Liar) monitor(last *uint64) (structs.FullTreeHead, *lie, *algorithms.DataProvider, *algorithms.Monitor, error) {
	fth, err := l.head(last)
	if err != nil {
		return fth, nil, nil, nil, err
	}
	h, p, err := l.start(last)
	if err != nil {
		return fth, nil, nil, nil, err
	}
	m, err := algorithms.NewMonitor(l.Rules, l.Size, p)
	return fth, h, p, m, err
}

func (l *Liar) ContactMonitor(_ context.Context, req *structs.ContactMonitorRequest) (*structs.ContactMonitorResponse, error) {
	fth, h, p, m, err := l.monitor(req.Last)
	if err != nil {
		return nil, err
	}
	m.Contact = algorithms.NewContactState(req.Entries)
	if err := m.ContactMonitor(); err != nil {
		return nil, err
	}
	out, err := l.output(h, p, req.Last)
	return &structs.ContactMonitorResponse{FullTreeHead: fth, Monitor: out}, err
}

func (l *Liar) OwnerInit(_ context.Context, req *structs.OwnerInitRequest) (*structs.OwnerInitResponse, error) {
	fth, h, p, m, err := l.monitor(req.Last)
	if err != nil {
		return nil, err
	}
	xs, err := m.InitEntries(req.Start)
	if err != nil {
		return nil, err
	}
	var vers []uint32
	for _, x := range xs {
		g := l.greatest(x)
		if l.Claim {
			g, _ = slices.BinarySearch(l.Index, x+1)
			g--
		}
		if g < 0 {
			break
		}
		vers = append(vers, uint32(g))
	}
	for i, x := range xs {
		var v uint32
		if i < len(vers) {
			v = vers[i]
		}
		if _, err := p.GetSearchBinaryLadder(x, v, false); err != nil {
			return nil, err
		}
	}
	all := map[uint32]bool{0: true}
	for _, v := range vers {
		for _, x := range math.SearchBinaryLadder(v, v, nil, nil) {
			all[x] = true
		}
	}
	out, err := l.output(h, p, req.Last)
	known := l.greatest(req.Start)
	for _, v := range vers {
		if !l.Claim {
			known = max(known, int(v))
		}
	}
	if l.Claim && len(vers) > 0 {
		known = int(vers[0])
	}
	return &structs.OwnerInitResponse{
		FullTreeHead: fth, GreatestVersions: vers, Init: out,
		BinaryLadder: l.steps(slices.Sorted(maps.Keys(all)), func(v uint32) bool { return int(v) > known }),
	}, err
}

func (l *Liar) OwnerMonitor(_ context.Context, req *structs.OwnerMonitorRequest) (*structs.OwnerMonitorResponse, error) {
	fth, h, p, m, err := l.monitor(req.Last)
	if err != nil {
		return nil, err
	} else if l.Owner == nil {
		return nil, errors.New("the owner's state is not known")
	}
	m.Contact = algorithms.NewContactState(req.Entries)
	m.Owner = algorithms.NewOwnerState(l.Owner).Clone()
	if err := m.ContactMonitor(); err != nil {
		return nil, err
	}
	if l.Stop >= 0 {
		h.limit = len(h.proofs) + l.Stop
		h.limited = true
	}
	if err := m.OwnerMonitor(); err != nil {
		return nil, err
	}
	out, err := l.output(h, p, req.Last)
	return &structs.OwnerMonitorResponse{FullTreeHead: fth, Monitor: out}, err
}

// Told is the value the owner is told for a version.
func (l *Liar) Told(ver uint32) string {
	if v, ok := l.Has[l.Index[ver]][ver]; ok {
		return v
	}
	s, _ := l.story(ver)
	return s
}

// Update tells the owner about the versions in Index it doesn't know.
func (l *Liar) Update(_ context.Context, req *structs.UpdateRequest) (<-chan wire.UpdateResponse, error) {
	ch := make(chan wire.UpdateResponse, len(l.Index)+1)
	defer close(ch)
	next, last := 0, req.Last
	if req.GreatestVersion != nil {
		next = int(*req.GreatestVersion) + 1
	}
	for next < len(l.Index) && l.Index[next] < l.Size {
		start := next
		pos := l.Index[start]
		for next < len(l.Index) && l.Index[next] == pos {
			next++
		}
		res, err := l.update(last, uint32(start), uint32(next-1), pos)
		if err != nil {
			ch <- wire.UpdateResponse{Err: err}
			return ch, nil
		}
		ch <- wire.UpdateResponse{Out: res}
		size := l.Size
		last = &size
	}
	return ch, nil
}

func (l *Liar) update(last *uint64, start, end uint32, pos uint64) (*structs.UpdateResponse, error) {
	fth, h, p, m, err := l.monitor(last)
	if err != nil {
		return nil, err
	}
	m.Owner = &algorithms.OwnerState{VerAtStarting: -1, UpcomingVers: slices.Clone(l.Index[:start])}
	if err := m.Update(pos, int(end-start)+1); err != nil {
		return nil, err
	}
	res := &structs.UpdateResponse{FullTreeHead: fth, Position: pos}
	need := map[uint32]bool{}
	for _, v := range math.SearchBinaryLadder(end, end, nil, nil) {
		need[v] = true
	}
	for v := start; v <= end; v++ {
		need[v] = true
		res.Values = append(res.Values, structs.LabelValue{Value: []byte(l.Told(v))})
		res.Info = append(res.Info, structs.UpdateInfo{Opening: pad(l.Told(v))})
	}
	if start == 0 {
		delete(need, 0)
	} else {
		for _, v := range math.SearchBinaryLadder(start-1, start-1, nil, nil) {
			delete(need, v)
		}
	}
	res.BinaryLadder = l.steps(slices.Sorted(maps.Keys(need)), func(v uint32) bool { return v >= start })
	res.Update, err = l.output(h, p, last)
	return res, err
}

// lie produces genuine proofs about what is in each log entry.
type lie struct {
	l          *Liar
	tracker    math.VersionTracker
	timestamps []uint64
	proofs     []prefix.PrefixProof
	roots      [][]byte
	limit      int
	limited    bool
}

var _ algorithms.ProofHandle = &lie{}

func (h *lie) entry(x uint64) (structs.LogEntry, error) {
	if x >= h.l.Size {
		return structs.LogEntry{}, fmt.Errorf("entry %d does not exist", x)
	}
	return h.l.entries[x], nil
}

func (h *lie) GetTimestamp(x uint64) (uint64, error) {
	e, err := h.entry(x)
	if err != nil {
		return 0, err
	}
	h.timestamps = append(h.timestamps, e.Timestamp)
	return e.Timestamp, nil
}

func (h *lie) prove(x uint64, vers []uint32) (*prefix.PrefixProof, []byte, error) {
	e, err := h.entry(x)
	if err != nil {
		return nil, nil, err
	}
	outs := make([][]byte, len(vers))
	for i, v := range vers {
		outs[i], _ = h.l.vrf(v)
	}
	res, err := prefix.NewTree(h.l.Config.Suite, h.l.store.PrefixStore()).Search([]prefix.PrefixSearch{{Version: x + 1, VrfOutputs: outs}})
	if err != nil {
		return nil, nil, err
	}
	h.proofs = append(h.proofs, res[0].Proof)
	return &res[0].Proof, e.PrefixTree, nil
}

func (h *lie) GetSearchBinaryLadder(x uint64, ver uint32, omit bool) ([]byte, int, error) {
	if x >= h.l.Size {
		return nil, 0, fmt.Errorf("entry %d does not exist", x)
	}
	left, right := h.tracker.SearchMaps(x, omit)
	ladder := math.SearchBinaryLadder(ver, ver, left, right)
	res, walked := 0, 0
	for _, v := range ladder {
		walked++
		_, ok := h.l.Has[x][v]
		if ok && v > ver {
			res = 1
			break
		} else if !ok && v <= ver {
			res = -1
			break
		}
	}
	proof, root, err := h.prove(x, ladder[:walked])
	if err != nil {
		return nil, 0, err
	}
	h.tracker.AddResults(x, omit, ladder, proof.Results)
	return root, res, nil
}

func (h *lie) GetMonitoringBinaryLadder(x uint64, ver uint32) ([]byte, error) {
	_, root, err := h.prove(x, math.MonitoringBinaryLadder(ver))
	return root, err
}

func (h *lie) GetInclusionProof(x uint64, vers []uint32) ([]byte, error) {
	_, root, err := h.prove(x, vers)
	return root, err
}

func (h *lie) GetPrefixTrees(xs []uint64) ([][]byte, error) {
	out := make([][]byte, len(xs))
	for i, x := range xs {
		e, err := h.entry(x)
		if err != nil {
			return nil, err
		}
		out[i] = e.PrefixTree
	}
	h.roots = out
	return out, nil
}

func (h *lie) Finish() ([][]byte, error) { panic("unreachable") }

func (h *lie) Output(leaves []uint64, n uint64, nP, m *uint64) (*structs.CombinedTreeProof, error) {
	inclusion, err := log.NewTree(h.l.Config.Suite, h.l.store.LogStore()).GetBatch(leaves, n, nP, m)
	if err != nil {
		return nil, err
	}
	return &structs.CombinedTreeProof{Timestamps: h.timestamps, PrefixProofs: h.proofs, PrefixRoots: h.roots, Inclusion: structs.InclusionProof{Elements: inclusion}}, nil
}

func (h *lie) StopCondition(uint64, int) bool { return h.limited && len(h.proofs) >= h.limit }

func (h *lie) Tracker() *math.VersionTracker { return &h.tracker }
