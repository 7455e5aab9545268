package sim

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"maps"
	"slices"
	"strings"
	"time"

	"katiemc/kit"
	"katiemc/ref"
	"katiemc/toy"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// Opts describe a deployment.
type Opts struct {
	Mode     structs.DeploymentMode
	Window   uint64 // reasonable monitoring window
	Lifetime uint64 // maximum lifetime, 0 for none
	Ahead    uint64
	Behind   uint64
	Lag      uint64 // third-party auditing
	StartPos uint64
}

// Keys of the participants. They are capabilities: only their owner signs.
const (
	ServerKey  = toy.SigKey("log-key")
	LeafKey    = toy.SigKey("operator-key")
	AuditorKey = toy.SigKey("auditor-key")
)

// Config builds the private configuration.
func Config(o Opts) structs.PrivateConfig {
	if o.Mode == 0 {
		o.Mode = structs.ContactMonitoring
	}
	if o.Ahead == 0 {
		o.Ahead = 1000
	}
	if o.Behind == 0 {
		o.Behind = 1 << 40
	}
	c := structs.PrivateConfig{
		SignatureKey: ServerKey,
		VrfKey:       toy.VRFKey{Name: "vrf-key", Size: toy.Default.Proof},
		Config: structs.Config{
			Suite: toy.Default, Mode: o.Mode,
			MaxAhead: o.Ahead, MaxBehind: o.Behind,
			ReasonableMonitoringWindow: o.Window, MaximumLifetime: o.Lifetime,
		},
	}
	switch o.Mode {
	case structs.ThirdPartyManagement:
		c.LeafPublicKey = LeafKey.Public()
	case structs.ThirdPartyAuditing:
		c.AuditorPublicKey = AuditorKey.Public()
		c.MaxAuditorLag = o.Lag
		c.AuditorStartPos = o.StartPos
	}
	return c
}

// Put is one update request: Count new versions of Label.
type Put struct {
	Label string
	Count int
}

// Step is one sequenced batch, DT milliseconds after the previous one.
type Step struct {
	DT     int64
	Put    []Put    `json:",omitempty"`
	Remove []string `json:",omitempty"`
}

func (s Step) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "+%dms", s.DT)
	for _, p := range s.Put {
		fmt.Fprintf(&b, " %s*%d", p.Label, p.Count)
	}
	for _, l := range s.Remove {
		fmt.Fprintf(&b, " -%s", l)
	}
	return b.String()
}

// Version is one published version of a label.
type Version struct {
	Pos   uint64
	Value string
}

// Model is what the log contains after some number of entries.
type Model struct {
	Times  []uint64
	Labels map[string][]Version
	Gone   map[string]bool // labels that were removed at some point
}

func (m *Model) Copy() *Model {
	c := &Model{Times: append([]uint64(nil), m.Times...), Labels: map[string][]Version{}, Gone: maps.Clone(m.Gone)}
	if c.Gone == nil {
		c.Gone = map[string]bool{}
	}
	for l, v := range m.Labels {
		c.Labels[l] = append([]Version(nil), v...)
	}
	return c
}

// GreatestAt is the greatest version of the label at entry x, or -1.
func (m *Model) GreatestAt(label string, x uint64) int {
	g := -1
	for i, v := range m.Labels[label] {
		if v.Pos <= x {
			g = i
		}
	}
	return g
}

// World is a log with every past state.
type World struct {
	Config structs.PrivateConfig
	Public *structs.PublicConfig
	Disk   *Disk
	Store  db.TransparencyStore // the log's store if it isn't Disk; there are no Snaps then
	Salt   string               // distinguishes the values of forked worlds
	Behind int                  // how many entries the auditor is behind (third-party auditing)

	RealClock bool // the harness doesn't know the time

	// SignLeaf, if set, makes the operator's signature of a new version.
	SignLeaf func(label string, ver int, v string) []byte

	Snaps  []*Disk  // by tree size
	Models []*Model // by tree size
	Audit  []*structs.AuditorUpdate
	Heads  []*structs.TreeHead // by tree size, nil for 0
}

func NewWorld(c structs.PrivateConfig) *World {
	return &World{Config: c, Public: c.Public(), Disk: NewDisk(), Snaps: []*Disk{NewDisk()}, Models: []*Model{{Labels: map[string][]Version{}}}, Heads: []*structs.TreeHead{nil}}
}

func (w *World) Size() uint64  { return uint64(len(w.Snaps) - 1) }
func (w *World) Model() *Model { return w.Models[len(w.Models)-1] }

// Value is what gets published as a version of a label.
func (w *World) Value(label string, ver int, pos uint64) string {
	return fmt.Sprintf("%s%s#%d@%d", w.Salt, label, ver, pos)
}

// UpdateValue wraps a value for sequencing, signed by the operator if needed.
func (w *World) UpdateValue(label string, ver int, v string) structs.UpdateValue {
	u := structs.UpdateValue{Value: []byte(v)}
	if w.SignLeaf != nil {
		u.Signature = w.SignLeaf(label, ver, v)
		return u
	}
	if w.Config.Mode == structs.ThirdPartyManagement {
		tbs, err := structs.Marshal(&structs.UpdateTBS{Config: w.Public, Label: []byte(label), Version: uint32(ver), Value: []byte(v)})
		kit.NoErr(err, "marshal update")
		u.Signature, _ = LeafKey.Sign(tbs)
	}
	return u
}

// Fork is a world that goes on from the log's state at the given size.
func (w *World) Fork(size uint64) *World {
	c := *w
	c.Disk = w.Snaps[size].Copy()
	c.Snaps = slices.Clone(w.Snaps[:size+1])
	c.Models = slices.Clone(w.Models[:size+1])
	c.Audit = slices.Clone(w.Audit[:size])
	c.Heads = slices.Clone(w.Heads[:size+1])
	return &c
}

// open the log's store for writing.
func (w *World) open() db.TransparencyStore {
	if w.Store != nil {
		return w.Store
	}
	return w.Disk.Open()
}

// Apply sequences one batch and records the new state.
func (w *World) Apply(s Step) error {
	time.Sleep(time.Duration(s.DT) * time.Millisecond)
	tree, err := transparency.NewTree(w.Config, w.open(), nil)
	if err != nil {
		return err
	}
	n := w.Size()
	next := w.Model().Copy()
	var add []transparency.LabelValue
	var remove [][]byte
	for _, l := range s.Remove {
		remove = append(remove, []byte(l))
		if len(next.Labels[l]) > 0 {
			next.Gone[l] = true
		}
		delete(next.Labels, l)
	}
	for _, p := range s.Put {
		for range p.Count {
			ver := len(next.Labels[p.Label])
			v := w.Value(p.Label, ver, n)
			add = append(add, transparency.LabelValue{Label: []byte(p.Label), Value: w.UpdateValue(p.Label, ver, v)})
			next.Labels[p.Label] = append(next.Labels[p.Label], Version{n, v})
		}
	}
	au, err := tree.Mutate(add, remove)
	if err != nil {
		return err
	}
	w.record(tree, au, next)
	return nil
}

// record keeps the state after an entry was added.
func (w *World) record(tree *transparency.Tree, au *structs.AuditorUpdate, next *Model) {
	n := w.Size()
	now := uint64(time.Now().UnixMilli())
	if w.Store != nil || w.RealClock {
		now = au.Timestamp
	}
	next.Times = append(next.Times, now)
	if w.Config.Mode == structs.ThirdPartyAuditing {
		size := int(n) + 1 - w.Behind
		if size < 1 {
			size = 1
		}
		st := w.open()
		kit.NoErr(st.PutAuditorTreeHead(Encode(w.AuditorHead(uint64(size), next.Times[size-1]))), "storing the auditor's head")
		kit.NoErr(st.Commit(), "storing the auditor's head")
	}
	w.Snaps = append(w.Snaps, w.Disk.Copy())
	w.Models = append(w.Models, next)
	w.Audit = append(w.Audit, au)
	w.Heads = append(w.Heads, tree.TreeHead())
}

// Entry is the log entry at x.
func (w *World) Entry(x uint64) *structs.LogEntry {
	es, err := w.open().BatchGet([]uint64{x})
	raw, ok := es[x]
	kit.Check(ok && err == nil, "log entry %d is missing", x)
	return MustDecode(raw, func(b *buffer) (*structs.LogEntry, error) { return structs.NewLogEntry(w.Config.Suite, b) })
}

// Root is the root of the log's first size entries, computed from scratch.
func (w *World) Root(size uint64) []byte {
	var leaves [][]byte
	for x := uint64(0); x < size; x++ {
		h := sha256.Sum256(Encode(w.Entry(x)))
		leaves = append(leaves, h[:])
	}
	return ref.LogRoot(leaves)
}

// AuditorHead is the auditor's signature over the first size entries.
func (w *World) AuditorHead(size, timestamp uint64) *structs.AuditorTreeHead {
	sig, _ := AuditorKey.Sign(Encode(&structs.AuditorTreeHeadTBS{Config: w.Public, Timestamp: timestamp, TreeSize: size, Root: w.Root(size)}))
	return &structs.AuditorTreeHead{Timestamp: timestamp, TreeSize: size, Signature: sig}
}

// Run applies a whole history.
func (w *World) Run(h []Step) {
	for i, s := range h {
		kit.NoErr(w.Apply(s), "sequencing step %d (%v)", i, s)
	}
}

// Server serves the log as it was at the given size.
func (w *World) Server(size uint64) *transparency.Tree {
	t, err := transparency.NewTree(w.Config, w.Snaps[size].ReadOnly(), nil)
	kit.NoErr(err, "opening the log at size %d", size)
	return t
}

// Client runs on the given phone.
func (w *World) Client(p *Phone) *transparency.Client {
	c, err := transparency.NewClient(w.Public, p)
	kit.NoErr(err, "creating a client")
	return c
}

type buffer = bytes.Buffer

type marshaler interface{ Marshal(*bytes.Buffer) error }

// Encode marshals a message.
func Encode(m marshaler) []byte {
	buf := &bytes.Buffer{}
	kit.NoErr(m.Marshal(buf), "encoding %T", m)
	return buf.Bytes()
}

// Decode parses a message and insists that all bytes were used.
func Decode[T any](raw []byte, f func(*bytes.Buffer) (T, error)) (T, error) {
	buf := bytes.NewBuffer(bytes.Clone(raw))
	v, err := f(buf)
	if err == nil && buf.Len() != 0 {
		err = fmt.Errorf("%d bytes left over", buf.Len())
	}
	return v, err
}

// MustDecode is Decode for messages an honest party sent.
func MustDecode[T any](raw []byte, f func(*bytes.Buffer) (T, error)) T {
	v, err := Decode(raw, f)
	kit.NoErr(err, "decoding %T", v)
	return v
}
