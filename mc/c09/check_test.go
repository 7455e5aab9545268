// C09: a client never accepts an answer that the log does not contain.
package c09

import (
	"bytes"
	"fmt"
	"maps"
	"slices"
	"strings"
	"testing"
	"time"

	"katiemc/kit"
	"katiemc/sim"
	"katiemc/toy"

	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/tree/transparency/wire"
)

type setting struct {
	Name   string
	Opts   sim.Opts
	Behind int
	Start  int64
	Steps  []sim.Step
}

// exchange is an honest one: what a client asked and was told.
type exchange struct {
	size  uint64
	phone *sim.Phone
	op    sim.Action
	kind  string
	raw   []byte
}

func (e exchange) String() string {
	return fmt.Sprintf("%v (%s) at size %d", e.op, e.kind, e.size)
}

func server(w *sim.World, size uint64) wire.Interface {
	if w.Config.Mode == structs.ThirdPartyManagement {
		return w.Managed(w.Server(size), w.Models[size])
	}
	return w.Server(size)
}

// collect runs the history and gathers exchanges of clients along the way.
func collect(w *sim.World, steps []sim.Step, ops []sim.Action, queries []sim.Action, max int) (all []exchange) {
	phones := map[string]*sim.Phone{"": sim.NewPhone()}
	for i, s := range steps {
		kit.NoErr(w.Apply(s), "sequencing step %d (%v)", i, s)
		next := map[string]*sim.Phone{}
		var work []*sim.Phone
		push := func(ph *sim.Phone) {
			if k := ph.Dump(); next[k] == nil && len(next) < max {
				next[k] = ph
				work = append(work, ph)
			}
		}
		for _, k := range slices.Sorted(maps.Keys(phones)) {
			push(phones[k])
		}
		for len(work) > 0 {
			ph := work[0]
			work = work[1:]
			for k, op := range append(slices.Clone(ops), queries...) {
				c := ph.Copy()
				a, _ := sim.Ask(w.Public, c, op)
				if a == nil {
					continue
				}
				raw, err := a.Call(server(w, w.Size()))
				if err != nil || raw == nil {
					continue
				}
				_, err = a.Judge(raw)
				kit.NoErr(err, "%v at size %d", op, w.Size())
				all = append(all, exchange{w.Size(), ph, op, a.Kind, raw})
				if k < len(ops) {
					push(c)
				}
			}
		}
		phones = next
	}
	return all
}

// misshapen tells if a change makes some list of a response longer or shorter.
// Only the proofs of an owner's monitoring may stop early.
func misshapen(e exchange, what string) bool {
	if e.kind == "owner monitor" && strings.HasPrefix(what, ".Monitor.PrefixProofs") {
		return false
	}
	for _, s := range []string{" dropped", " doubled", " with one more"} {
		if strings.HasSuffix(what, s) {
			return true
		}
	}
	return false
}

// offer gives a client something in place of the honest response.
func offer(r *kit.Run, w *sim.World, e exchange, raw []byte, what string) {
	c := e.phone.Copy()
	a, err := sim.Ask(w.Public, c, e.op)
	kit.NoErr(err, "%v", e)
	before := c.Dump()
	r.Transition()
	ans, err := a.Judge(raw)
	if err != nil {
		kit.Check(c.Dump() == before, "%v: the response was refused (%v), but changed what the client retains", e, err)
		r.Outcome(e.kind + ": refused")
		return
	}
	kit.Check(!misshapen(e, what), "%v: the client accepted a response with a part missing or too many", e)
	if e.kind == "sync" {
		// What an owner is told about its versions is proven when the owner
		// monitors the label, which C12 covers.
		c.Labels = nil
	}
	sim.CheckView(w, c)
	st := sim.State(w.Public, c)
	if old := sim.State(w.Public, e.phone); old != nil {
		kit.Check(st.TreeHead.TreeSize >= old.TreeHead.TreeSize, "%v: the client went back to size %d", e, st.TreeHead.TreeSize)
	}
	if e.op.Op == "search" {
		q := sim.Query{Label: e.op.Label, Version: e.op.Search}
		want := sim.Expect(w, st.TreeHead.TreeSize, q)
		kit.Check(sim.Acceptable(ans, want), "%v, answered for size %d: the client accepted %v, the truth is %v", e, st.TreeHead.TreeSize, ans, want)
	}
	r.Outcome(e.kind + ": " + ans.Kind)
}

func tamper(r *kit.Run, w *sim.World, e exchange, pool []exchange, at *string) {
	parse := func(raw []byte) any {
		a, err := sim.Ask(w.Public, e.phone.Copy(), e.op)
		kit.NoErr(err, "%v", e)
		m, err := a.Parse(raw)
		kit.NoErr(err, "%v: decoding", e)
		return m
	}
	r.State(e.String() + e.phone.Dump())
	try := func(what string, raw []byte) {
		if !bytes.Equal(raw, e.raw) {
			*at = fmt.Sprintf("%v by a client that knows %s: %s", e, e.phone.Dump(), what)
			offer(r, w, e, raw, what)
		}
	}
	// Bytes.
	for i := range e.raw {
		for bit := range 8 {
			raw := bytes.Clone(e.raw)
			raw[i] ^= 1 << bit
			try(fmt.Sprintf("bit %d of byte %d of %d flipped", bit, i, len(raw)), raw)
		}
		try(fmt.Sprintf("cut after %d of %d bytes", i, len(e.raw)), e.raw[:i])
	}
	try("a byte more", append(bytes.Clone(e.raw), 0))
	// Parts.
	encode := func(m any) (raw []byte) {
		buf := &bytes.Buffer{}
		if m.(interface{ Marshal(*bytes.Buffer) error }).Marshal(buf) != nil {
			return e.raw
		}
		return buf.Bytes()
	}
	for k := 0; ; k++ {
		m := parse(e.raw)
		what := sim.Edit(m, k)
		if what == "" {
			break
		}
		try(what, encode(m))
	}
	// Other responses, whole or in parts.
	seen := map[string]bool{string(e.raw): true}
	deep := 0
	for _, o := range pool {
		if seen[string(o.raw)] {
			continue
		}
		seen[string(o.raw)] = true
		try(fmt.Sprintf("the response to %v", o), o.raw)
		if o.kind != e.kind {
			continue
		}
		n := sim.NumFields(parse(e.raw))
		for set := 1; set < 1<<n-1; set++ {
			m := parse(e.raw)
			sim.Fields(m, parse(o.raw), set)
			try(fmt.Sprintf("fields %b of the response to %v", set, o), encode(m))
		}
		if deep++; deep > kit.Pick(r, 6, 40) {
			continue
		}
		for k := 0; ; k++ {
			m := parse(e.raw)
			what := sim.Graft(m, parse(o.raw), k)
			if what == "" {
				break
			}
			try(fmt.Sprintf("%s, %v", what, o), encode(m))
		}
	}
}

// faults lets every storage operation of the client fail while it judges the
// honest response.
func faults(r *kit.Run, w *sim.World, e exchange, at *string) {
	for k := 1; ; k++ {
		*at = fmt.Sprintf("%v: storage operation %d of the client fails", e, k)
		c := e.phone.Copy()
		before := c.Dump()
		n, hit := 0, false
		c.Fault = func(string) error {
			if n++; n == k {
				hit = true
				return sim.ErrFault
			}
			return nil
		}
		a, err := sim.Ask(w.Public, c, e.op)
		if err == nil && a == nil {
			kit.Check(!hit, "%v: no request and no error", e)
		}
		if a != nil {
			_, err = a.Judge(e.raw)
		}
		if !hit {
			kit.NoErr(err, "%v: the honest response", e)
			return
		}
		r.Transition()
		kit.Check(err != nil, "%v: a storage failure was not reported", e)
		kit.Check(c.Dump() == before, "%v: after a storage failure the client's state is half changed", e)
	}
}

func explore(t *testing.T, r *kit.Run, s setting, ops, queries []sim.Action, shard, shards int) {
	if r.Expired() {
		return
	}
	r.Trace()
	var at string
	r.Try(func() any { return map[string]any{"setting": s, "at": at} }, func() {
		kit.Bubble(t, func() {
			time.Sleep(time.Duration(s.Start) * time.Millisecond)
			// A log with the same contents that is run by someone else.
			cfg := sim.Config(s.Opts)
			cfg.SignatureKey = toy.SigKey("someone else")
			foreign := sim.NewWorld(cfg)
			foreign.Behind = s.Behind
			w := sim.NewWorld(sim.Config(s.Opts))
			w.Behind = s.Behind
			pool := collect(w, s.Steps, ops, queries, kit.Pick(r, 12, 60))
			fs := collect(foreign, s.Steps, ops, queries, 4)
			for i, e := range pool {
				if i%shards != shard || r.Expired() {
					continue
				}
				faults(r, w, e, &at)
				for _, o := range fs {
					at = fmt.Sprintf("%v: response to %v by another log", e, o)
					offer(r, w, e, o.raw, "")
				}
				if e.size >= w.Size()-1 {
					tamper(r, w, e, pool, &at)
				}
			}
		})
	})
}

func TestCheck(t *testing.T) {
	r := kit.Start("C09", "exploration", "every exchange of every client of a set of histories x every changed bit, every changed part, every other response and every combination of parts of two responses; every failing storage operation of the client")
	A := func(n int) []sim.Put { return []sim.Put{{Label: "A", Count: n}} }
	AB := []sim.Put{{Label: "A", Count: 1}, {Label: "B", Count: 1}}
	ops := []sim.Action{{Op: "search", Label: "A", Search: -1}, {Op: "monitor"}, {Op: "init", Label: "A"}, {Op: "sync", Label: "A"}, {Op: "search", Label: "B", Search: -1}}
	queries := []sim.Action{{Op: "search", Label: "A"}, {Op: "search", Label: "A", Search: 2}, {Op: "search", Label: "A", Search: 5}, {Op: "search", Label: "Z", Search: -1}}
	main := []sim.Step{{DT: 400, Put: AB}, {DT: 400}, {DT: 400, Put: A(2)}, {DT: 400}, {DT: 400, Put: A(1)}, {DT: 400}}
	settings := []setting{
		{"plain", sim.Opts{Window: 1000}, 0, 0, main},
		{"lifetime", sim.Opts{Window: 700, Lifetime: 1500}, 0, 0, main},
		{"managed", sim.Opts{Window: 1000, Mode: structs.ThirdPartyManagement}, 0, 0, main},
		{"audited", sim.Opts{Window: 1000, Mode: structs.ThirdPartyAuditing, Lag: 1 << 40}, 1, 0, main},
	}
	const shards = 24
	r.Parallel(shards*len(settings), func(i int) { explore(t, r, settings[i/shards], ops, queries, i%shards, shards) })
	claims(t, r)
	r.Finish()
}
