// C23: no request harms a server or its log.
package c23

import (
	"bytes"
	"context"
	"fmt"
	"slices"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"katiemc/kit"
	"katiemc/ref"
	"katiemc/sim"

	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/tree/transparency/wire"
)

const (
	maxOps   = 2000    // storage operations per request
	maxBytes = 1 << 20 // size of a response
)

func pool(n uint64) []*uint64 {
	out := []*uint64{nil}
	for x := uint64(0); x <= n+1; x++ {
		out = append(out, &x)
	}
	for _, x := range []uint64{1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 2, 1<<64 - 1} {
		out = append(out, &x)
	}
	return out
}

func versions(g int) (out []uint32) {
	for v := 0; v <= g+2; v++ {
		out = append(out, uint32(v))
	}
	return append(out, 1<<31-1, 1<<31, 1<<32-2, 1<<32-1)
}

func optional(vs []uint32) []*uint32 {
	out := []*uint32{nil}
	for _, v := range vs {
		out = append(out, &v)
	}
	return out
}

func show[T any](p *T) string {
	if p == nil {
		return "none"
	}
	return fmt.Sprint(*p)
}

// site is a log in some state.
type site struct {
	r    *kit.Run
	w    *sim.World
	size uint64
	name string
	at   string
}

var labels = []string{"A", "B", "", strings.Repeat("x", 255)}

func (s *site) check(ok bool, f string, a ...any) {
	kit.Check(ok, "%s: %s", s.at, fmt.Sprintf(f, a...))
}

// serve opens the log with a store that counts operations.
func (s *site) serve(ch chan<- transparency.UpdateRequest) (*transparency.Tree, *sim.Store) {
	st := s.w.Snaps[s.size].ReadOnly()
	t, err := transparency.NewTree(s.w.Config, st, ch)
	kit.NoErr(err, "opening the log")
	return t, st
}

type message interface{ Marshal(*bytes.Buffer) error }

// done checks what a request led to. true tells that an honest client in no
// state makes the request.
func (s *site) done(st *sim.Store, res message, err error, bad string) {
	s.r.Eval()
	s.r.Distinct(s.name + s.at)
	s.check(st.Ops < maxOps, "the server made %d storage operations", st.Ops)
	if err != nil {
		s.r.Outcome("refused")
		return
	}
	s.r.Outcome("answered")
	s.check(bad == "", "answered, but %s", bad)
	n := len(sim.Encode(res))
	s.check(n < maxBytes, "the response has %d bytes", n)
}

// last tells what is wrong with the size a request advertises.
func (s *site) last(last *uint64) string {
	if last != nil && (*last == 0 || *last > s.size) {
		return fmt.Sprintf("there is no tree of size %d", *last)
	}
	if s.size == 0 {
		return "the log is empty"
	}
	return ""
}

// entries tells what is wrong with a monitoring map.
func (s *site) entries(label string, es []structs.MonitorMapEntry) string {
	vs := s.w.Models[s.size].Labels[label]
	for i, e := range es {
		if i > 0 && (es[i-1].Position >= e.Position || es[i-1].Version >= e.Version) {
			return "the map is not in order"
		}
		if int64(e.Version) >= int64(len(vs)) {
			return "there is no such version"
		}
		first := vs[e.Version].Pos
		if e.Position != first && !slices.Contains(ref.RightPath(first, s.size), e.Position) {
			return fmt.Sprintf("version %d can't be monitored at entry %d", e.Version, e.Position)
		}
	}
	return ""
}

func why(xs ...string) string {
	for _, x := range xs {
		if x != "" {
			return x
		}
	}
	return ""
}

var bg = context.Background()

func (s *site) search(req *structs.SearchRequest) {
	s.at = fmt.Sprintf("search(%.3q, %s) since %s", req.Label, show(req.Version), show(req.Last))
	t, st := s.serve(nil)
	res, err := t.Search(bg, sim.MustDecode(sim.Encode(req), structs.NewSearchRequest))
	s.done(st, res, err, s.last(req.Last))
	if s.last(req.Last) == "" && !s.w.Models[s.size].Gone[string(req.Label)] {
		s.check(err == nil, "refused: %v", err)
	}
}

func (s *site) contact(req *structs.ContactMonitorRequest) {
	s.at = fmt.Sprintf("contact monitoring(%.3q, %v) since %s", req.Label, req.Entries, show(req.Last))
	t, st := s.serve(nil)
	res, err := t.ContactMonitor(bg, sim.MustDecode(sim.Encode(req), structs.NewContactMonitorRequest))
	s.done(st, res, err, why(s.last(req.Last), s.entries(string(req.Label), req.Entries)))
}

func (s *site) init(req *structs.OwnerInitRequest) {
	s.at = fmt.Sprintf("owner init(%.3q, %d) since %s", req.Label, req.Start, show(req.Last))
	t, st := s.serve(nil)
	res, err := t.OwnerInit(bg, sim.MustDecode(sim.Encode(req), structs.NewOwnerInitRequest))
	bad := s.last(req.Last)
	if bad == "" {
		dist := ref.Distinguished(s.w.Models[s.size].Times, s.w.Config.ReasonableMonitoringWindow)
		if req.Start >= s.size || !dist[req.Start] {
			bad = "the starting entry is not distinguished"
		}
	}
	s.done(st, res, err, bad)
}

func (s *site) owner(req *structs.OwnerMonitorRequest) {
	s.at = fmt.Sprintf("owner monitoring(%.3q, %v, %d, %s) since %s", req.Label, req.Entries, req.Start, show(req.GreatestVersion), show(req.Last))
	t, st := s.serve(nil)
	res, err := t.OwnerMonitor(bg, sim.MustDecode(sim.Encode(req), structs.NewOwnerMonitorRequest))
	bad := why(s.last(req.Last), s.entries(string(req.Label), req.Entries))
	if bad == "" {
		m := s.w.Models[s.size]
		g := len(m.Labels[string(req.Label)]) - 1
		switch {
		case req.Start >= s.size:
			bad = "the starting entry does not exist"
		case req.GreatestVersion != nil && int64(*req.GreatestVersion) > int64(g):
			bad = "the version does not exist"
		case m.GreatestAt(string(req.Label), req.Start) >= 0 && (req.GreatestVersion == nil || int(*req.GreatestVersion) < m.GreatestAt(string(req.Label), req.Start)):
			bad = "the starting entry has a greater version"
		}
	}
	s.done(st, res, err, bad)
}

// stream reads all responses of an update, in which the sequencer refuses what
// it gets, or puts it into an entry.
func (s *site) stream(t *testing.T, start func(srv *transparency.Tree) (<-chan wire.UpdateResponse, error), seal bool) {
	w := s.w
	seq := sim.NewSequencer(w.Fork(s.size))
	seq.Lenient = true
	srv, err := transparency.NewTree(w.Config, seq.W.Disk.ReadOnly(), seq.Ch)
	kit.NoErr(err, "opening the log")
	ch, err := start(srv)
	s.r.Eval()
	s.r.Distinct(s.name + s.at)
	if err != nil {
		s.r.Outcome("update refused")
		return
	}
	for i := 0; ; i++ {
		s.check(i < 50, "the stream of responses does not end")
		synctest.Wait()
		open := true
		select {
		case u, ok := <-ch:
			open = ok
			if ok && u.Err == nil {
				n := len(sim.Encode(u.Out))
				s.check(n < maxBytes, "the response has %d bytes", n)
			}
		default:
			if seq.Take() {
				if seal {
					seq.Seal(0, nil, true)
				} else {
					seq.Fail()
				}
			} else {
				time.Sleep(time.Hour)
			}
		}
		if !open {
			break
		}
	}
	s.r.Outcome("update ended")
	// The log is still in order for everyone.
	now := seq.W.Size()
	for _, q := range []sim.Query{{Label: "A", Version: -1}, {Label: "A", Version: 0}, {Label: "B", Version: -1}} {
		if now == 0 {
			break
		}
		a, served := sim.Search(seq.W, now, sim.NewPhone(), q)
		gone := seq.W.Models[now].Gone[q.Label] && a.Kind != "value" // entries from before prove other versions
		s.check(gone || served && sim.Acceptable(a, sim.Expect(seq.W, now, q)), "afterwards %v comes to %v", q, a)
	}
}

func TestCheck(t *testing.T) {
	r := kit.Start("C23", "exploration", "every request of every kind over boundary values of every field, every single changed byte of honest requests, to logs in every deployment mode and state; non-trivial = distinct (log, request)")
	defer r.Finish()
	histories := [][]sim.Step{
		{},
		{{}},
		{{Put: []sim.Put{{Label: "A", Count: 1}}}},
		{{}, {DT: 600, Put: []sim.Put{{Label: "A", Count: 2}}}, {DT: 600}},
		{{Put: []sim.Put{{Label: "A", Count: 1}}}, {DT: 600, Put: []sim.Put{{Label: "B", Count: 1}}}, {DT: 600, Put: []sim.Put{{Label: "A", Count: 1}}}, {DT: 600}, {DT: 600, Put: []sim.Put{{Label: "A", Count: 2}}}},
		{{Put: []sim.Put{{Label: "A", Count: 1}}}, {DT: 600}, {DT: 600}, {DT: 600}, {DT: 600, Remove: []string{"A"}}, {DT: 600}, {DT: 600}},
	}
	type job struct {
		h    int
		mode structs.DeploymentMode
		part int
	}
	var jobs []job
	for h := range histories {
		for _, m := range []structs.DeploymentMode{structs.ContactMonitoring, structs.ThirdPartyManagement, structs.ThirdPartyAuditing} {
			for part := range 7 {
				jobs = append(jobs, job{h, m, part})
			}
		}
	}
	r.Sample(map[string]any{"history": histories[4], "mode": structs.ContactMonitoring, "request": "search(A, 2147483648) since 1"})
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		s := &site{r: r, name: fmt.Sprint(j)}
		r.Try(func() any { return map[string]any{"history": histories[j.h], "mode": j.mode, "request": s.at} }, func() {
			kit.Bubble(t, func() {
				s.w = sim.NewWorld(sim.Config(sim.Opts{Mode: j.mode, Window: 1000, Lag: 1 << 40}))
				s.w.Run(histories[j.h])
				s.size = s.w.Size()
				before := s.w.Snaps[s.size].Dump()
				s.part(t, j.part)
				kit.Check(before == s.w.Snaps[s.size].Dump(), "requests changed the log")
			})
		})
	})
}

func (s *site) part(t *testing.T, part int) {
	r := s.r
	lasts := pool(s.size)
	greatest := len(s.w.Models[s.size].Labels["A"]) - 1
	vers := versions(greatest)
	var es []structs.MonitorMapEntry
	for _, p := range lasts[1:] {
		for _, v := range vers {
			es = append(es, structs.MonitorMapEntry{Position: *p, Version: v})
		}
	}
	lists := [][]structs.MonitorMapEntry{nil}
	for _, a := range es {
		lists = append(lists, []structs.MonitorMapEntry{a})
	}
	var near []structs.MonitorMapEntry // entries that could well be right
	for _, e := range es {
		if e.Position <= s.size && int64(e.Version) <= int64(greatest)+1 {
			near = append(near, e)
		}
	}
	for _, a := range near {
		for _, b := range near {
			lists = append(lists, []structs.MonitorMapEntry{a, b})
			if len(near) <= kit.Pick(r, 12, 20) {
				for _, c := range near {
					lists = append(lists, []structs.MonitorMapEntry{a, b, c})
				}
			}
		}
	}
	switch part {
	case 0:
		for _, l := range labels {
			for _, last := range lasts {
				for _, v := range optional(vers) {
					s.search(&structs.SearchRequest{Last: last, Label: []byte(l), Version: v})
				}
				for _, x := range lasts[1:] {
					s.init(&structs.OwnerInitRequest{Last: last, Label: []byte(l), Start: *x})
				}
			}
		}
	case 1:
		for _, l := range labels[:2] {
			for _, es := range lists {
				for _, last := range lasts {
					if len(es) > 1 && last != nil && *last != s.size {
						continue
					}
					s.contact(&structs.ContactMonitorRequest{Last: last, Label: []byte(l), Entries: es})
				}
			}
		}
	case 2:
		for _, l := range labels[:2] {
			for _, es := range lists {
				if len(es) > kit.Pick(r, 1, 2) {
					continue
				}
				for _, x := range lasts[1:] {
					for _, v := range optional(vers) {
						for _, last := range lasts {
							if len(es) > 0 && last != nil && *last != s.size {
								continue
							}
							s.owner(&structs.OwnerMonitorRequest{Last: last, Label: []byte(l), Entries: es, Start: *x, GreatestVersion: v})
						}
					}
				}
			}
		}
	case 3, 4:
		seal := part == 4
		for _, l := range []string{"A", "C", "", strings.Repeat("x", 255)} {
			for _, last := range lasts {
				for _, v := range optional(vers) {
					for _, values := range [][]string{nil, {"x"}, {"", strings.Repeat("y", 1000)}} {
						req := &structs.UpdateRequest{Last: last, Label: []byte(l), GreatestVersion: v}
						for _, x := range values {
							req.Values = append(req.Values, structs.LabelValue{Value: []byte(x)})
						}
						s.at = fmt.Sprintf("update(%.3q, %s, %d values, sequenced: %v) since %s", l, show(v), len(values), seal, show(last))
						s.stream(t, func(srv *transparency.Tree) (<-chan wire.UpdateResponse, error) {
							return srv.Update(bg, sim.MustDecode(sim.Encode(req), structs.NewUpdateRequest))
						}, seal)
					}
				}
			}
		}
	case 5:
		s.managed(t)
	case 6:
		s.bytes()
	}
}

// bytes sends requests that differ in one byte from ones that an honest client
// would make, and parts of them.
func (s *site) bytes() {
	m := s.w.Models[s.size]
	index := m.Labels["A"]
	var lasts []*uint64
	if n := s.size; n > 0 {
		lasts = []*uint64{nil, &n}
	}
	var es []structs.MonitorMapEntry
	start := uint64(0)
	var greatest *uint32
	for v, x := range index {
		if v == 0 || index[v-1].Pos < x.Pos {
			es = append(es, structs.MonitorMapEntry{Position: x.Pos, Version: uint32(v)})
		}
	}
	if g := m.GreatestAt("A", start); s.size > 0 && g >= 0 {
		v := uint32(g)
		greatest = &v
	}
	zero := uint32(0)
	for _, last := range lasts {
		alter(s, &structs.SearchRequest{Last: last, Label: []byte("A")}, structs.NewSearchRequest, s.search)
		alter(s, &structs.SearchRequest{Last: last, Label: []byte("A"), Version: &zero}, structs.NewSearchRequest, s.search)
		alter(s, &structs.ContactMonitorRequest{Last: last, Label: []byte("A"), Entries: es}, structs.NewContactMonitorRequest, s.contact)
		alter(s, &structs.OwnerInitRequest{Last: last, Label: []byte("A"), Start: start}, structs.NewOwnerInitRequest, s.init)
		alter(s, &structs.OwnerMonitorRequest{Last: last, Label: []byte("A"), Entries: es, Start: start, GreatestVersion: greatest}, structs.NewOwnerMonitorRequest, s.owner)
	}
}

func alter[T any, P interface {
	*T
	message
}](s *site, req P, read func(*bytes.Buffer) (P, error), serve func(P)) {
	raw := sim.Encode(req)
	serve(req)
	for i := range raw {
		got, err := sim.Decode(raw[:i], read)
		s.at = fmt.Sprintf("%T %x without its end", req, raw[:i])
		s.check(err != nil, "taken for %+v", got)
		old := raw[i]
		for x := range 256 {
			raw[i] = byte(x)
			if got, err := sim.Decode(raw, read); err == nil {
				s.at = ""
				s.check(bytes.Equal(sim.Encode(got), raw), "%T %x is read as %+v", req, raw, got)
				serve(got)
			} else {
				s.r.Eval()
				s.r.Outcome("not a request")
			}
		}
		raw[i] = old
	}
}

func (s *site) managed(t *testing.T) {
	lasts := []*uint64{nil}
	zero, one, big := uint64(0), uint64(1), uint64(1<<63)
	lasts = append(lasts, &zero, &one, &big)
	mode := s.w.Config.Mode
	greatest := len(s.w.Models[s.size].Labels["A"]) - 1
	for _, seal := range []bool{false, true} {
		for _, l := range []string{"A", "C", strings.Repeat("x", 255)} {
			for _, last := range lasts {
				for _, v := range optional(versions(greatest)) {
					for _, signed := range versions(greatest) {
						for n := range 3 {
							for sig := range 4 {
								req := &structs.ManagerUpdateRequest{Last: last, Label: []byte(l), GreatestVersion: v, SignedVersion: signed}
								for k := range n {
									u := s.w.UpdateValue(l, int(signed)+k, fmt.Sprint("value", k))
									switch sig {
									case 1:
										u.Signature = nil
									case 2:
										u.Signature = []byte{}
									case 3:
										u.Signature = []byte("not a signature")
									}
									req.Values = append(req.Values, u)
								}
								s.at = fmt.Sprintf("managed update(%.3q, %s, %d values from %d, signature %d, sequenced: %v) since %s", l, show(v), n, signed, sig, seal, show(last))
								s.stream(t, func(srv *transparency.Tree) (<-chan wire.UpdateResponse, error) {
									ch, err := srv.ManagerUpdate(bg, req)
									s.check(err != nil || n == 0 || mode == structs.ThirdPartyManagement, "taken, but the log is not managed")
									s.check(err != nil || n == 0 || sig == 0, "taken without the operator's signature")
									return ch, err
								}, seal)
								if n == 0 {
									break
								}
							}
						}
					}
				}
			}
		}
	}
}
