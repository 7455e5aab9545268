// Package sim drives the real server and client end to end: stores that can be
// copied, interrupted and inspected, histories, and the reference model of
// what a log contains.
package sim

import (
	"bytes"
	"errors"
	"fmt"
	"maps"
	"slices"
	"strings"
	"sync"

	"github.com/Bren2010/katie/db"
)

// ErrFault is what a failing storage operation returns.
var ErrFault = errors.New("injected storage failure")

// Disk is the committed content of a store.
type Disk struct {
	mu sync.Mutex
	m  map[string]string
}

func NewDisk() *Disk { return &Disk{m: map[string]string{}} }

func (d *Disk) Copy() *Disk {
	d.mu.Lock()
	defer d.mu.Unlock()
	return &Disk{m: maps.Clone(d.m)}
}

func (d *Disk) get(k string) (string, bool) {
	d.mu.Lock()
	defer d.mu.Unlock()
	v, ok := d.m[k]
	return v, ok
}

// Dump renders the content canonically.
func (d *Disk) Dump() string {
	d.mu.Lock()
	defer d.mu.Unlock()
	var b strings.Builder
	for _, k := range slices.Sorted(maps.Keys(d.m)) {
		fmt.Fprintf(&b, "%s=%x;", k, d.m[k])
	}
	return b.String()
}

// Store implements db.TransparencyStore with a pending write set that becomes
// visible atomically when committed. A write or commit that fails aborts the
// transaction, a failing read does not.
type Store struct {
	disk     *Disk
	pending  map[string]*string
	readonly bool

	// Fault, if set, is asked before every operation.
	Fault func(op string) error
	// Mangle, if set, is asked what to return for every record that is read
	// from the disk, nil for none.
	Mangle func(key string, v []byte) []byte
	// Reads and Writes count operations.
	Ops int
}

var _ db.TransparencyStore = &Store{}

func (d *Disk) Open() *Store     { return &Store{disk: d, pending: map[string]*string{}} }
func (d *Disk) ReadOnly() *Store { return &Store{disk: d, readonly: true} }

func (s *Store) op(name string) error {
	s.Ops++
	if s.Fault != nil {
		return s.Fault(name)
	}
	return nil
}

func (s *Store) get(k string) []byte {
	if v, ok := s.pending[k]; ok {
		if v == nil {
			return nil
		}
		return []byte(*v)
	}
	v, ok := s.disk.get(k)
	switch {
	case !ok:
		return nil
	case s.Mangle != nil:
		return s.Mangle(k, []byte(v))
	}
	return []byte(v)
}

func (s *Store) put(name, k string, v []byte) error {
	if s.readonly {
		panic("write through a read-only clone of the store")
	}
	if err := s.op(name); err != nil {
		s.pending = map[string]*string{}
		return err
	}
	x := string(v)
	s.pending[k] = &x
	return nil
}

func (s *Store) del(name, k string) error {
	if s.readonly {
		panic("delete through a read-only clone of the store")
	}
	if err := s.op(name); err != nil {
		s.pending = map[string]*string{}
		return err
	}
	s.pending[k] = nil
	return nil
}

func (s *Store) Clone() db.TransparencyStore {
	return &Store{disk: s.disk, readonly: true, Fault: s.Fault, Mangle: s.Mangle}
}

func (s *Store) GetTreeHead() ([]byte, []byte, error) {
	if err := s.op("GetTreeHead"); err != nil {
		return nil, nil, err
	}
	return s.get("head"), s.get("auditor"), nil
}
func (s *Store) PutTreeHead(raw []byte) error { return s.put("PutTreeHead", "head", raw) }
func (s *Store) PutAuditorTreeHead(raw []byte) error {
	return s.put("PutAuditorTreeHead", "auditor", raw)
}

func (s *Store) BatchGetIndex(labels [][]byte) ([][]byte, error) {
	if err := s.op("BatchGetIndex"); err != nil {
		return nil, err
	}
	out := make([][]byte, len(labels))
	for i, l := range labels {
		out[i] = s.get(fmt.Sprintf("i%x", l))
	}
	return out, nil
}
func (s *Store) PutIndex(label, index []byte) error {
	return s.put("PutIndex", fmt.Sprintf("i%x", label), index)
}
func (s *Store) DeleteIndex(label []byte) error {
	return s.del("DeleteIndex", fmt.Sprintf("i%x", label))
}
func (s *Store) GetVersion(label []byte, ver uint32) ([]byte, error) {
	if err := s.op("GetVersion"); err != nil {
		return nil, err
	}
	return s.get(fmt.Sprintf("v%x:%d", label, ver)), nil
}
func (s *Store) PutVersion(label []byte, ver uint32, data []byte) error {
	return s.put("PutVersion", fmt.Sprintf("v%x:%d", label, ver), data)
}
func (s *Store) DeleteVersion(label []byte, ver uint32) error {
	return s.del("DeleteVersion", fmt.Sprintf("v%x:%d", label, ver))
}

func (s *Store) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	return s.batch("e", "BatchGet", keys)
}
func (s *Store) batch(p, name string, keys []uint64) (map[uint64][]byte, error) {
	if err := s.op(name); err != nil {
		return nil, err
	}
	out := map[uint64][]byte{}
	for _, k := range keys {
		if v := s.get(fmt.Sprintf("%s%d", p, k)); v != nil {
			out[k] = v
		}
	}
	return out, nil
}
func (s *Store) Put(key uint64, data []byte) error {
	return s.put("Put", fmt.Sprintf("e%d", key), data)
}
func (s *Store) Delete(key uint64) error { return s.del("Delete", fmt.Sprintf("e%d", key)) }

func (s *Store) LogStore() db.LogStore       { return logStore{s} }
func (s *Store) PrefixStore() db.PrefixStore { return prefixStore{s} }

func (s *Store) Commit() error {
	if s.readonly {
		panic("commit through a read-only clone of the store")
	}
	if err := s.op("Commit"); err != nil {
		s.pending = map[string]*string{}
		return err
	}
	s.disk.mu.Lock()
	for k, v := range s.pending {
		if v == nil {
			delete(s.disk.m, k)
		} else {
			s.disk.m[k] = *v
		}
	}
	s.disk.mu.Unlock()
	s.pending = map[string]*string{}
	return nil
}

type logStore struct{ s *Store }

func (l logStore) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	return l.s.batch("l", "log.BatchGet", keys)
}
func (l logStore) Put(key uint64, v []byte) error {
	return l.s.put("log.Put", fmt.Sprintf("l%d", key), v)
}
func (l logStore) Delete(key uint64) error { return l.s.del("log.Delete", fmt.Sprintf("l%d", key)) }

type prefixStore struct{ s *Store }

func (p prefixStore) BatchGet(keys []string) (map[string][]byte, error) {
	if err := p.s.op("prefix.BatchGet"); err != nil {
		return nil, err
	}
	out := map[string][]byte{}
	for _, k := range keys {
		if v := p.s.get("p" + k); v != nil {
			out[k] = v
		}
	}
	return out, nil
}
func (p prefixStore) Put(key string, v []byte) error { return p.s.put("prefix.Put", "p"+key, v) }
func (p prefixStore) Delete(key string) error        { return p.s.del("prefix.Delete", "p"+key) }

// Phone is a client's storage.
type Phone struct {
	State  []byte
	Labels map[string]LabelRec
	Writes int
	Fault  func(op string) error
}

type LabelRec struct {
	Raw      []byte
	Terminal uint64
}

var _ db.ClientStore = &Phone{}

func NewPhone() *Phone { return &Phone{Labels: map[string]LabelRec{}} }

func (p *Phone) Copy() *Phone {
	q := &Phone{State: bytes.Clone(p.State), Labels: map[string]LabelRec{}}
	for k, v := range p.Labels {
		q.Labels[k] = LabelRec{bytes.Clone(v.Raw), v.Terminal}
	}
	return q
}

// Dump renders the content canonically.
func (p *Phone) Dump() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%x;", p.State)
	for _, k := range slices.Sorted(maps.Keys(p.Labels)) {
		fmt.Fprintf(&b, "%q=%x@%d;", k, p.Labels[k].Raw, p.Labels[k].Terminal)
	}
	return b.String()
}

func (p *Phone) op(n string) error {
	if p.Fault != nil {
		return p.Fault(n)
	}
	return nil
}

func (p *Phone) GetState() ([]byte, error) {
	if err := p.op("GetState"); err != nil {
		return nil, err
	}
	return bytes.Clone(p.State), nil
}
func (p *Phone) GetLabelState(label []byte) ([]byte, error) {
	if err := p.op("GetLabelState"); err != nil {
		return nil, err
	}
	r, ok := p.Labels[string(label)]
	if !ok {
		return nil, nil
	}
	return bytes.Clone(r.Raw), nil
}
func (p *Phone) GetStaleLabel(cutoff uint64) ([]byte, []byte, error) {
	if err := p.op("GetStaleLabel"); err != nil {
		return nil, nil, err
	}
	for _, k := range slices.Sorted(maps.Keys(p.Labels)) {
		if r := p.Labels[k]; r.Terminal <= cutoff {
			return []byte(k), bytes.Clone(r.Raw), nil
		}
	}
	return nil, nil, nil
}
func (p *Phone) PutState(raw []byte) error {
	if err := p.op("PutState"); err != nil {
		return err
	}
	p.Writes++
	p.State = bytes.Clone(raw)
	return nil
}
func (p *Phone) PutLabelState(raw, label, rawLabel []byte, terminal uint64) error {
	if err := p.op("PutLabelState"); err != nil {
		return err
	}
	p.Writes++
	p.State = bytes.Clone(raw)
	if rawLabel == nil {
		delete(p.Labels, string(label))
	} else {
		p.Labels[string(label)] = LabelRec{bytes.Clone(rawLabel), terminal}
	}
	return nil
}

// AuditorDisk is an auditor's storage.
type AuditorDisk struct {
	Raw   []byte
	Puts  int
	Fault func(op string) error
}

var _ db.AuditorStore = &AuditorDisk{}

func (a *AuditorDisk) GetState() ([]byte, error) {
	if a.Fault != nil {
		if err := a.Fault("GetState"); err != nil {
			return nil, err
		}
	}
	return bytes.Clone(a.Raw), nil
}
func (a *AuditorDisk) PutState(raw []byte) error {
	if a.Fault != nil {
		if err := a.Fault("PutState"); err != nil {
			return err
		}
	}
	a.Puts++
	a.Raw = bytes.Clone(raw)
	return nil
}
func (a *AuditorDisk) Copy() *AuditorDisk { return &AuditorDisk{Raw: bytes.Clone(a.Raw)} }

// Jump is a moment at which a log that is being read from grows: before the
// At-th storage operation of the reader it gets to the given size.
type Jump struct {
	At   int
	Size uint64
}

// Growing is a read-only store of the log at the given size that grows while
// it is being read from. ops is the number of operations so far.
func (w *World) Growing(size uint64, jumps ...Jump) (s *Store, ops *int) {
	s, grow, ops := w.GrowOnDemand(size)
	for _, j := range jumps {
		grow(j.At, j.Size)
	}
	return s, ops
}

// GrowOnDemand is a read-only store of the log at the given size, and a
// function to let it grow before its at-th operation, or right now if that is
// 0. It isn't used by several goroutines at once.
func (w *World) GrowOnDemand(size uint64) (s *Store, grow func(at int, size uint64), ops *int) {
	d := &Disk{m: w.Snaps[size].m}
	plan := map[int]uint64{}
	become := func(size uint64) {
		d.mu.Lock()
		d.m = w.Snaps[size].m
		d.mu.Unlock()
	}
	s, ops = d.ReadOnly(), new(int)
	s.Fault = func(string) error {
		*ops++
		if size, ok := plan[*ops]; ok {
			become(size)
		}
		return nil
	}
	return s, func(at int, size uint64) {
		if at == 0 {
			become(size)
		} else {
			plan[at] = size
		}
	}, ops
}

// CopyTo writes everything to another kind of store.
func (d *Disk) CopyTo(s db.TransparencyStore) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, k := range slices.Sorted(maps.Keys(d.m)) {
		v := []byte(d.m[k])
		var label []byte
		var num uint64
		var err error
		switch {
		case k == "head":
			err = s.PutTreeHead(v)
		case k == "auditor":
			err = s.PutAuditorTreeHead(v)
		case k[0] == 'p':
			err = s.PrefixStore().Put(k[1:], v)
		case k[0] == 'i':
			fmt.Sscanf(k, "i%x", &label)
			err = s.PutIndex(label, v)
		case k[0] == 'v':
			l, n, _ := strings.Cut(k[1:], ":")
			fmt.Sscanf(l, "%x", &label)
			fmt.Sscan(n, &num)
			err = s.PutVersion(label, uint32(num), v)
		case k[0] == 'e':
			fmt.Sscan(k[1:], &num)
			err = s.Put(num, v)
		case k[0] == 'l':
			fmt.Sscan(k[1:], &num)
			err = s.LogStore().Put(num, v)
		default:
			err = fmt.Errorf("unknown key %q", k)
		}
		if err != nil {
			return err
		}
	}
	return s.Commit()
}
