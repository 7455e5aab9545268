// Package c26 interleaves what a process does at the same time.
package c26

import (
	"context"
	"hash"
	"sync"
	"time"

	"katiemc/kit"
	"katiemc/toy"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/crypto/vrf"
	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/tree/transparency/wire"
)

const (
	fine   = iota // every use of the suite
	coarse        // operations of stores, messages in transit
)

// sched runs tasks one at a time, in an order that is given in advance.
type sched struct {
	mu   sync.Mutex
	on   bool
	free bool // the order can't be followed
	cur  *task
}

type task struct {
	f      func()
	on     bool
	coarse bool          // only the coarse points count
	n      int           // points so far
	until  int           // point to pause at
	resume chan struct{} // lets it go on
	event  chan bool     // false when it pauses, true when it's done
	panics any
}

// point is called by whatever runs, wherever it can be interrupted.
func (s *sched) point(kind int) {
	if s == nil { // nothing is interrupted
		return
	}
	s.mu.Lock()
	t := s.cur
	if !s.on || s.free || t == nil || (t.coarse && kind != coarse) {
		s.mu.Unlock()
		return
	}
	t.n++
	stop := t.n == t.until
	s.mu.Unlock()
	if stop {
		t.event <- false
		<-t.resume
	}
}

// segment lets a task run up to a point, or to its end if that is 0.
type segment struct{ task, until int }

// run has tasks take turns. It returns how many points each went through.
func (s *sched) run(onlyCoarse bool, order []segment, fs ...func()) []int {
	var ts []*task
	for _, f := range fs {
		ts = append(ts, &task{f: f, coarse: onlyCoarse, resume: make(chan struct{}, 1), event: make(chan bool, 2)})
	}
	done := make([]bool, len(ts))
	let := func(i int) {
		t := ts[i]
		if t.on {
			t.resume <- struct{}{}
			return
		}
		t.on = true
		go func() {
			defer func() {
				t.panics = recover()
				t.event <- true
			}()
			t.f()
		}()
	}
	s.mu.Lock()
	s.on, s.free = true, false
	s.mu.Unlock()
	for _, g := range order {
		if done[g.task] {
			continue
		}
		s.mu.Lock()
		s.cur = ts[g.task]
		s.cur.until = g.until
		s.mu.Unlock()
		let(g.task)
		timer := time.NewTimer(5 * time.Second)
		select {
		case done[g.task] = <-ts[g.task].event:
		case <-timer.C: // it may wait for one that was interrupted
			s.mu.Lock()
			s.free = true
			s.mu.Unlock()
		}
		timer.Stop()
		if s.free {
			break
		}
	}
	s.mu.Lock()
	free := s.free
	s.free = true
	s.mu.Unlock()
	for i, t := range ts {
		if !done[i] && (free || t.on) {
			if t.on {
				select {
				case t.resume <- struct{}{}:
				default:
				}
			} else {
				let(i)
			}
		}
	}
	for i, t := range ts {
		timer := time.NewTimer(100 * time.Second)
		for !done[i] && t.on {
			select {
			case done[i] = <-t.event:
			case <-timer.C:
				kit.Failf("tasks wait for each other forever")
			}
		}
		timer.Stop()
	}
	s.mu.Lock()
	s.on, s.free, s.cur = false, false, nil
	s.mu.Unlock()
	var out []int
	for _, t := range ts {
		if t.panics != nil {
			panic(t.panics)
		}
		out = append(out, t.n)
	}
	return out
}

// suite is the toy suite with points of interruption.
type suite struct {
	toy.Suite
	s *sched
}

type hasher struct {
	hash.Hash
	s *sched
}

func (c suite) Hash() hash.Hash { return hasher{c.Suite.Hash(), c.s} }
func (h hasher) Write(b []byte) (int, error) {
	h.s.point(fine)
	return h.Hash.Write(b)
}
func (h hasher) Sum(b []byte) []byte {
	h.s.point(fine)
	return h.Hash.Sum(b)
}

type signer struct {
	toy.SigKey
	s *sched
}
type verifier struct {
	suites.SigningPublicKey
	s *sched
}

func (k signer) Sign(m []byte) ([]byte, error) {
	k.s.point(coarse)
	return k.SigKey.Sign(m)
}
func (k signer) Public() suites.SigningPublicKey { return verifier{k.SigKey.Public(), k.s} }
func (k verifier) Verify(m, sig []byte) bool {
	k.s.point(coarse)
	return k.SigningPublicKey.Verify(m, sig)
}

type prover struct {
	toy.VRFKey
	s *sched
}
type checker struct {
	vrf.PublicKey
	s *sched
}

func (k prover) Prove(m []byte) (output, proof []byte) {
	k.s.point(fine)
	return k.VRFKey.Prove(m)
}
func (k prover) PublicKey() vrf.PublicKey { return checker{k.VRFKey.PublicKey(), k.s} }
func (k checker) Verify(m, proof []byte) ([]byte, error) {
	k.s.point(fine)
	return k.PublicKey.Verify(m, proof)
}

// store is a store with points of interruption before and after it's read.
type store struct {
	db.TransparencyStore
	s *sched
}

func (t store) Clone() db.TransparencyStore { return store{t.TransparencyStore.Clone(), t.s} }
func (t store) GetTreeHead() ([]byte, []byte, error) {
	t.s.point(coarse)
	a, b, err := t.TransparencyStore.GetTreeHead()
	t.s.point(coarse)
	return a, b, err
}
func (t store) BatchGetIndex(labels [][]byte) ([][]byte, error) {
	t.s.point(coarse)
	x, err := t.TransparencyStore.BatchGetIndex(labels)
	t.s.point(coarse)
	return x, err
}
func (t store) GetVersion(label []byte, ver uint32) ([]byte, error) {
	t.s.point(coarse)
	x, err := t.TransparencyStore.GetVersion(label, ver)
	t.s.point(coarse)
	return x, err
}
func (t store) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	t.s.point(coarse)
	x, err := t.TransparencyStore.BatchGet(keys)
	t.s.point(coarse)
	return x, err
}
func (t store) LogStore() db.LogStore { return logStore{t.TransparencyStore.LogStore(), t.s} }
func (t store) PrefixStore() db.PrefixStore {
	return prefixStore{t.TransparencyStore.PrefixStore(), t.s}
}

type logStore struct {
	db.LogStore
	s *sched
}

func (t logStore) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	t.s.point(coarse)
	x, err := t.LogStore.BatchGet(keys)
	t.s.point(coarse)
	return x, err
}

type prefixStore struct {
	db.PrefixStore
	s *sched
}

func (t prefixStore) BatchGet(keys []string) (map[string][]byte, error) {
	t.s.point(coarse)
	x, err := t.PrefixStore.BatchGet(keys)
	t.s.point(coarse)
	return x, err
}

// transit is a server whose messages can be in transit for long.
type transit struct {
	wire.Interface
	s *sched
}

func through[Q, R any](s *sched, f func(context.Context, Q) (R, error), ctx context.Context, req Q) (R, error) {
	s.point(coarse)
	res, err := f(ctx, req)
	s.point(coarse)
	return res, err
}

func (t transit) Search(ctx context.Context, req *structs.SearchRequest) (*structs.SearchResponse, error) {
	return through(t.s, t.Interface.Search, ctx, req)
}
func (t transit) ContactMonitor(ctx context.Context, req *structs.ContactMonitorRequest) (*structs.ContactMonitorResponse, error) {
	return through(t.s, t.Interface.ContactMonitor, ctx, req)
}
func (t transit) OwnerInit(ctx context.Context, req *structs.OwnerInitRequest) (*structs.OwnerInitResponse, error) {
	return through(t.s, t.Interface.OwnerInit, ctx, req)
}
func (t transit) OwnerMonitor(ctx context.Context, req *structs.OwnerMonitorRequest) (*structs.OwnerMonitorResponse, error) {
	return through(t.s, t.Interface.OwnerMonitor, ctx, req)
}
