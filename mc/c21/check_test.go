// C21: a service operator counts each label's versions without gaps.
package c21

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"slices"
	"strings"
	"testing"

	"katiemc/kit"
	"katiemc/sim"
	"katiemc/toy"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/transparency/managed"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/tree/transparency/wire"
)

// manager records what it is asked.
type manager struct {
	wire.ManagerInterface
	hook  func(string)
	fail  error
	reqs  []*structs.ManagerUpdateRequest
	ch    chan wire.UpdateResponse
	other []any
}

func (m *manager) ManagerUpdate(ctx context.Context, req *structs.ManagerUpdateRequest) (<-chan wire.UpdateResponse, error) {
	m.hook("submit")
	if m.fail != nil {
		return nil, m.fail
	}
	m.reqs = append(m.reqs, req)
	return m.ch, nil
}

var (
	searchRes = &structs.SearchResponse{Opening: []byte("o")}
	monRes    = &structs.ContactMonitorResponse{}
	initRes   = &structs.OwnerInitResponse{GreatestVersions: []uint32{3}}
	ownRes    = &structs.OwnerMonitorResponse{}
	errOther  = errors.New("manager's answer")
)

func (m *manager) Search(ctx context.Context, r *structs.SearchRequest) (*structs.SearchResponse, error) {
	m.other = append(m.other, r)
	return searchRes, m.fail
}
func (m *manager) ContactMonitor(ctx context.Context, r *structs.ContactMonitorRequest) (*structs.ContactMonitorResponse, error) {
	m.other = append(m.other, r)
	return monRes, m.fail
}
func (m *manager) OwnerInit(ctx context.Context, r *structs.OwnerInitRequest) (*structs.OwnerInitResponse, error) {
	m.other = append(m.other, r)
	return initRes, m.fail
}
func (m *manager) OwnerMonitor(ctx context.Context, r *structs.OwnerMonitorRequest) (*structs.OwnerMonitorResponse, error) {
	m.other = append(m.other, r)
	return ownRes, m.fail
}

// store is an atomic version counter.
type store struct {
	hook func(string)
	fail error
	m    map[string]int
}

func (s *store) IncrementGreatestVersion(label []byte, count int) (int, error) {
	s.hook("count")
	if s.fail != nil {
		return 0, s.fail
	}
	n := s.m[string(label)]
	s.m[string(label)] += count
	return n - 1, nil
}

// key signs with the operator's key.
type key struct {
	toy.SigKey
	hook func(string)
	fail error
}

func (k *key) Sign(m []byte) ([]byte, error) {
	k.hook("sign")
	if k.fail != nil {
		return nil, k.fail
	}
	return k.SigKey.Sign(m)
}

var _ suites.SigningPrivateKey = &key{}

type update struct {
	Label  string
	Values []string
	Last   *uint64
	Known  *uint32
}

func (u update) req() *structs.UpdateRequest {
	r := &structs.UpdateRequest{Last: u.Last, Label: []byte(u.Label), GreatestVersion: u.Known}
	for _, v := range u.Values {
		r.Values = append(r.Values, structs.LabelValue{Value: []byte(v)})
	}
	return r
}

func eq[T comparable](a, b *T) bool { return (a == nil) == (b == nil) && (a == nil || *a == *b) }

// judge checks a submitted request against the update and the first version it
// must get.
func judge(pub *structs.PublicConfig, u update, first int, got *structs.ManagerUpdateRequest) {
	kit.Check(string(got.Label) == u.Label && eq(got.Last, u.Last) && eq(got.GreatestVersion, u.Known), "update %+v was submitted as %+v", u, got)
	kit.Check(int(got.SignedVersion) == first, "update of %q was submitted to start at version %d, want %d", u.Label, got.SignedVersion, first)
	kit.Check(len(got.Values) == len(u.Values), "update of %q was submitted with %d values, want %d", u.Label, len(got.Values), len(u.Values))
	for i, v := range u.Values {
		kit.Check(string(got.Values[i].Value) == v, "value %d of %q was submitted as %q, want %q", i, u.Label, got.Values[i].Value, v)
		tbs := sim.Encode(&structs.UpdateTBS{Config: pub, Label: []byte(u.Label), Version: uint32(first + i), Value: []byte(v)})
		kit.Check(pub.LeafPublicKey.Verify(tbs, got.Values[i].Signature), "value %d of %q does not carry a signature over version %d", i, u.Label, first+i)
	}
}

func none(string) {}

// sequences explores every sequence of updates.
func sequences(r *kit.Run, pub *structs.PublicConfig, us []update, pick []int, backend string, restart bool) {
	r.Trace()
	seq := make([]update, len(pick))
	for i, p := range pick {
		seq[i] = us[p]
	}
	r.Try(func() any { return map[string]any{"updates": seq, "backend": backend, "restart": restart} }, func() {
		var st db.ManagedLogStore = memory.NewManagedLogStore()
		if backend != "memory" {
			st = &store{hook: none, m: map[string]int{}}
		}
		m := &manager{hook: none, ch: make(chan wire.UpdateResponse)}
		ml, err := managed.NewManagedLog(pub, m, st, &key{SigKey: sim.LeafKey, hook: none})
		kit.NoErr(err, "creating a managed log")
		next := map[string]int{}
		name := fmt.Sprint(backend, restart)
		for i, u := range seq {
			r.Transition()
			name += fmt.Sprintf("|%q%q", u.Label, u.Values)
			r.State(name)
			req := u.req()
			before := sim.Encode(req)
			ch, err := ml.Update(context.Background(), req)
			kit.NoErr(err, "update %d of %q", i, u.Label)
			kit.Check(ch == (<-chan wire.UpdateResponse)(m.ch), "update %d: the manager's responses are not handed on", i)
			kit.Check(bytes.Equal(before, sim.Encode(req)), "update %d: the request was changed", i)
			kit.Check(len(m.reqs) == i+1, "update %d was submitted %d times", i, len(m.reqs)-i)
			judge(pub, u, next[u.Label], m.reqs[i])
			next[u.Label] += len(u.Values)
			if restart {
				ml, err = managed.NewManagedLog(pub, m, st, &key{SigKey: sim.LeafKey, hook: none})
				kit.NoErr(err, "creating a managed log again")
			}
		}
		r.Outcome("submitted")
	})
}

// schedules explores every interleaving of concurrent updates at their visible
// steps.
func schedules(r *kit.Run, pub *structs.PublicConfig, us []update) {
	var rec func(prefix []int)
	run := func(prefix []int) (choices []int) {
		r.Trace()
		r.Try(func() any { return map[string]any{"concurrent updates": us, "schedule": prefix} }, func() {
			type ev struct {
				id   int
				done bool
			}
			events := make(chan ev)
			resume := make([]chan bool, len(us))
			cur := 0
			hook := func(string) {
				id := cur
				events <- ev{id, false}
				<-resume[id]
			}
			st := &store{hook: hook, m: map[string]int{}}
			m := &manager{hook: hook, ch: make(chan wire.UpdateResponse)}
			ml, err := managed.NewManagedLog(pub, m, st, &key{SigKey: sim.LeafKey, hook: hook})
			kit.NoErr(err, "creating a managed log")
			fin := make([]bool, len(us))
			errs := make([]error, len(us))
			for i, u := range us {
				resume[i] = make(chan bool)
				go func() {
					<-resume[i]
					defer func() {
						if x := recover(); x != nil {
							errs[i] = fmt.Errorf("panic: %v", x)
						}
						events <- ev{i, true}
					}()
					_, errs[i] = ml.Update(context.Background(), u.req())
				}()
			}
			for step := 0; ; step++ {
				choices = choices[:0]
				for i := range us {
					if !fin[i] {
						choices = append(choices, i)
					}
				}
				if len(choices) == 0 {
					break
				}
				if step == len(prefix) {
					// Let the rest finish in order; the caller extends the prefix.
					prefix = append(slices.Clone(prefix), choices[0])
				}
				cur = prefix[step]
				resume[cur] <- true
				e := <-events
				if e.done {
					fin[e.id] = true
				}
				r.Transition()
			}
			for i, u := range us {
				kit.NoErr(errs[i], "update %d of %q", i, u.Label)
			}
			kit.Check(len(m.reqs) == len(us), "%d updates were submitted as %d requests", len(us), len(m.reqs))
			// Each request must have its own range; together the ranges of a
			// label have no gap.
			taken := map[string][]int{}
			for _, q := range m.reqs {
				var u *update
				for i := range us {
					if us[i].Label == string(q.Label) && len(us[i].Values) == len(q.Values) && (len(q.Values) == 0 || us[i].Values[0] == string(q.Values[0].Value)) {
						u = &us[i]
					}
				}
				kit.Check(u != nil, "a request for %q was submitted that nobody made", q.Label)
				judge(pub, *u, int(q.SignedVersion), q)
				for i := range q.Values {
					taken[u.Label] = append(taken[u.Label], int(q.SignedVersion)+i)
				}
			}
			for l, vs := range taken {
				slices.Sort(vs)
				for i, v := range vs {
					kit.Check(i == v, "concurrent updates of %q got versions %v", l, vs)
				}
			}
			r.State(fmt.Sprint(us, prefix))
			r.Outcome("interleaved")
			full = prefix
		})
		return
	}
	rec = func(prefix []int) {
		if r.Expired() {
			return
		}
		full = nil
		run(prefix)
		if full == nil {
			return
		}
		// Branch at every later step to each other unfinished update.
		path := slices.Clone(full)
		for i := len(prefix); i < len(path); i++ {
			left := map[int]bool{}
			for _, p := range path[i:] {
				left[p] = true
			}
			for alt := range us {
				if alt != path[i] && left[alt] {
					rec(append(slices.Clone(path[:i]), alt))
				}
			}
		}
	}
	rec(nil)
}

var full []int

func TestCheck(t *testing.T) {
	r := kit.Start("C21", "model_checking", "every sequence of managed updates over the alphabet up to the depth, on two stores, and every interleaving of concurrent updates at their visible steps")
	cfg := sim.Config(sim.Opts{Window: 1000, Mode: structs.ThirdPartyManagement})
	pub := cfg.Public()
	last, known := uint64(7), uint32(1)
	us := []update{
		{Label: "a", Values: []string{"x"}},
		{Label: "a", Values: []string{"x", "x", "y"}, Last: &last},
		{Label: "a", Known: &known},
		{Label: "", Values: []string{"", "z"}},
		{Label: "aa", Values: []string{"x"}, Last: &last, Known: &known},
		{Label: "a\x00", Values: []string{"\x00"}},
		{Label: strings.Repeat("L", 255), Values: []string{"x", "w"}},
	}
	depth := kit.Pick(r, 5, 6)
	var picks [][]int
	var gen func(p []int)
	gen = func(p []int) {
		if len(p) > 0 {
			picks = append(picks, p)
		}
		if len(p) < depth {
			for i := range us {
				gen(append(slices.Clone(p), i))
			}
		}
	}
	gen(nil)
	r.Parallel(len(picks)*3, func(i int) {
		p := picks[i/3]
		switch i % 3 {
		case 0:
			sequences(r, pub, us, p, "memory", false)
		case 1:
			sequences(r, pub, us, p, "memory", true)
		case 2:
			sequences(r, pub, us, p, "atomic", len(p)%2 == 0)
		}
	})

	for _, c := range [][]update{
		{{Label: "a", Values: []string{"p"}}, {Label: "a", Values: []string{"q"}}},
		{{Label: "a", Values: []string{"p", "p"}}, {Label: "a", Values: []string{"q"}}, {Label: "b", Values: []string{"p"}}},
		{{Label: "a", Values: []string{"p"}}, {Label: "b", Values: []string{"q", "r"}}},
		{{Label: "a", Values: []string{"p", "r"}}, {Label: "a", Values: []string{"q", "s"}}, {Label: "a", Values: []string{"t"}}},
	} {
		schedules(r, pub, c)
	}

	// Failures are handed on, and nothing is submitted without a count and
	// signatures.
	r.Try(func() any { return "failures" }, func() {
		boom := errors.New("boom")
		for _, u := range us {
			for _, where := range []string{"count", "sign", "submit"} {
				st := &store{hook: none, m: map[string]int{}}
				k := &key{SigKey: sim.LeafKey, hook: none}
				m := &manager{hook: none}
				switch where {
				case "count":
					st.fail = boom
				case "sign":
					k.fail = boom
				case "submit":
					m.fail = boom
				}
				ml, err := managed.NewManagedLog(pub, m, st, k)
				kit.NoErr(err, "creating a managed log")
				_, err = ml.Update(context.Background(), u.req())
				r.Transition()
				if where == "sign" && len(u.Values) == 0 {
					kit.NoErr(err, "an update without values")
					continue
				}
				kit.Check(errors.Is(err, boom), "%s fails, but the update reports %v", where, err)
				kit.Check(len(m.reqs) == 0, "%s fails, but the update was submitted", where)
				// The next update works and its versions were not used before.
				st.fail, k.fail, m.fail = nil, nil, nil
				first := st.m[u.Label]
				_, err = ml.Update(context.Background(), u.req())
				kit.NoErr(err, "an update after a failure")
				judge(pub, u, first, m.reqs[0])
				r.Outcome("failure handed on")
			}
		}
	})

	// The other operations go to the manager as they are.
	r.Try(func() any { return "proxied operations" }, func() {
		for _, fail := range []error{nil, errOther} {
			m := &manager{hook: none, fail: fail}
			ml, err := managed.NewManagedLog(pub, m, memory.NewManagedLogStore(), &key{SigKey: sim.LeafKey, hook: none})
			kit.NoErr(err, "creating a managed log")
			ctx := context.Background()
			a, b, c, d := &structs.SearchRequest{}, &structs.ContactMonitorRequest{}, &structs.OwnerInitRequest{}, &structs.OwnerMonitorRequest{}
			ra, ea := ml.Search(ctx, a)
			rb, eb := ml.ContactMonitor(ctx, b)
			rc, ec := ml.OwnerInit(ctx, c)
			rd, ed := ml.OwnerMonitor(ctx, d)
			kit.Check(ea == fail && eb == fail && ec == fail && ed == fail, "errors of the manager are not handed on: %v %v %v %v", ea, eb, ec, ed)
			kit.Check(ra == searchRes && rb == monRes && rc == initRes && rd == ownRes || fail != nil, "responses of the manager are not handed on")
			kit.Check(slices.Equal(m.other, []any{a, b, c, d}), "requests were not handed on as they are")
			kit.Check(len(m.reqs) == 0, "a read was submitted as an update")
			r.Transitions(4)
			r.Outcome("proxied")
		}
	})

	// Configurations under which nobody could verify the signatures.
	r.Try(func() any { return "configurations" }, func() {
		for _, mode := range []structs.DeploymentMode{structs.ContactMonitoring, structs.ThirdPartyAuditing} {
			c := sim.Config(sim.Opts{Window: 1000, Mode: mode})
			_, err := managed.NewManagedLog(c.Public(), &manager{hook: none}, memory.NewManagedLogStore(), &key{SigKey: sim.LeafKey, hook: none})
			kit.Check(err != nil, "a managed log was created in mode %v", mode)
			bad := cfg.Public()
			bad.Mode = mode
			_, err = managed.NewManagedLog(bad, &manager{hook: none}, memory.NewManagedLogStore(), &key{SigKey: sim.LeafKey, hook: none})
			kit.Check(err != nil, "a managed log was created in mode %v", mode)
		}
		bad := cfg.Public()
		bad.LeafPublicKey = nil
		_, err := managed.NewManagedLog(bad, &manager{hook: none}, memory.NewManagedLogStore(), &key{SigKey: sim.LeafKey, hook: none})
		kit.Check(err != nil, "a managed log was created without a leaf public key")
		_, err = managed.NewManagedLog(pub, &manager{hook: none}, memory.NewManagedLogStore(), &key{SigKey: sim.ServerKey, hook: none})
		kit.Check(err != nil, "a managed log was created with somebody else's key")
		r.Outcome("configuration refused")
	})
	r.Assume("the store increments atomically, as its interface requires")
	r.Assume("the toy suite's symmetric signatures stand in for the real ones, which C20 covers")
	r.Finish()
}
