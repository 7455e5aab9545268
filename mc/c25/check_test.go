// C25: what outlives or leaves a process keeps its format and meaning.
package c25

import (
	"bytes"
	"fmt"
	"maps"
	"slices"
	"strings"
	"testing"
	"time"

	"katiemc/kit"
	"katiemc/ldb"
	"katiemc/sim"
)

var sides = []func(setup) world{newNew, oldNew}
var names = []string{"current", "published"}

// history is a log whose entries are added by either side.
type history struct {
	Setup setup
	Start int64
	Steps []sim.Step
	Mask  int // bit i is the side that adds entry i
}

func (h history) String() string {
	s := h.Setup
	salt := len(s.Salt)
	s.Salt = ""
	return fmt.Sprintf("%+v salt %d %d %v %b", s, salt, h.Start, h.Steps, h.Mask)
}

// add has one of the sides add an entry. ok is false if it was refused.
func add(ws []world, side int, s sim.Step) (ok bool) {
	if err := ws[side].Apply(s); err != nil {
		kit.Check(len(s.Remove) > 0, "the %s side can't add %v: %v", names[side], s, err)
		return false // C14 decides when a removal is refused
	}
	ws[1-side].Adopt(ws[side].Last())
	return true
}

var actions = []sim.Action{
	{Op: "search", Label: "A", Search: -1}, {Op: "search", Label: "A", Search: 0}, {Op: "search", Label: "A", Search: 2},
	{Op: "search", Label: "B", Search: -1}, {Op: "search", Label: "Z", Search: -1},
	{Op: "init", Label: "A"}, {Op: "sync", Label: "A"}, {Op: "monitor"},
}

func fine(r sim.Result) bool { return r.Kind == "done" || r.Kind == "nothing" }

// exchange has a client make a request in all combinations of sides. It
// returns the states the clients end in.
func exchange(r *kit.Run, ws []world, serve func(side int) server, ph *sim.Phone, a sim.Action) (out []*sim.Phone) {
	var want sim.Result
	for k := 3; k >= 0; k-- {
		c, s := k&1, k>>1
		p := ph.Copy()
		res := ws[c].Do(serve(s), p, a)
		r.Transition()
		r.Eval()
		who := fmt.Sprintf("%v by a client of the %s side with state %s at a server of the %s side", a, names[c], ph.Dump(), names[s])
		if k == 3 {
			want = res
		} else {
			kit.Check(fine(res) == fine(want), "%s: %v, among the published side alone: %v", who, res, want)
		}
		if a.Op == "search" && res.Kind == "done" {
			q := sim.Query{Label: a.Label, Version: a.Search}
			w := ws[0].(*newWorld).w
			e := sim.Expect(w, w.Size(), q)
			kit.Check(sim.Acceptable(res.Answer, e), "%s: %v instead of %v", who, res, e)
		}
		if len(ws[0].(*newWorld).w.Model().Gone) == 0 {
			for _, w := range ws {
				w.CheckView(p)
			}
		}
		r.Outcome(a.Op + " " + res.Kind)
		out = append(out, p)
	}
	return out
}

// explore visits every state a client can get to by requests between the
// sides, in every combination, while the log grows.
func explore(t *testing.T, r *kit.Run, h history, acts []sim.Action, max int) {
	if r.Expired() {
		return
	}
	r.Trace()
	var at string
	r.Try(func() any { return map[string]any{"history": h.String(), "at": at} }, func() {
		kit.Bubble(t, func() {
			time.Sleep(time.Duration(h.Start) * time.Millisecond)
			ws := []world{newNew(h.Setup), oldNew(h.Setup)}
			phones := map[string]*sim.Phone{"": sim.NewPhone()}
			for i, s := range h.Steps {
				at = fmt.Sprintf("entry %d", i)
				if !add(ws, h.Mask>>i&1, s) {
					r.Outcome("history ends at a refused removal")
					return
				}
				next := map[string]*sim.Phone{}
				var work []*sim.Phone
				push := func(p *sim.Phone) {
					if d := p.Dump(); next[d] == nil && len(next) < max {
						next[d] = p
						work = append(work, p)
						r.State(h.String() + fmt.Sprint(i) + d)
					}
				}
				for _, d := range slices.Sorted(maps.Keys(phones)) {
					push(phones[d])
				}
				for len(work) > 0 {
					ph := work[0]
					work = work[1:]
					for _, a := range acts {
						for _, p := range exchange(r, ws, func(side int) server { return ws[side].Serve(ws[side].Size()) }, ph, a) {
							push(p)
						}
					}
				}
				phones = next
			}
		})
	})
}

// updateCase is an owner's update between the sides.
type updateCase struct {
	Setup  setup
	Before []int  // versions in the entries there are
	Mask   int    // who added them
	Prior  string // what the client did before, at the first entry
	Count  int    // new versions
	Client int
	Server int
	Front  int // of the service operator
	Prep   int // side of the client before
}

func runUpdate(t *testing.T, r *kit.Run, c updateCase) (out string) {
	r.Trace()
	r.Try(func() any { return c }, func() {
		kit.Bubble(t, func() {
			ws := []world{newNew(c.Setup), oldNew(c.Setup)}
			ph := sim.NewPhone()
			for i, n := range c.Before {
				add(ws, c.Mask>>i&1, sim.Step{DT: 10, Put: []sim.Put{{Label: "A", Count: n}, {Label: "B", Count: 1}}})
				if i == 0 && c.Prior != "" {
					for _, op := range []string{"search", c.Prior} {
						res := ws[c.Prep].Do(ws[c.Prep].Serve(1), ph, sim.Action{Op: op, Label: "A", Search: -1})
						kit.Check(fine(res), "%s: %v", op, res)
					}
				}
			}
			q := ws[c.Server].Sequencer()
			var s server
			s = q.Server()
			if c.Setup.Mode == 2 {
				s = ws[c.Front].Front(s, uint64(len(c.Before)))
			}
			var values []string
			for i := range c.Count {
				values = append(values, fmt.Sprintf("new %d%s", i, c.Setup.Salt))
			}
			st, res := ws[c.Client].StartUpdate(s, ph, "A", values)
			out = res.Kind
			if res.Kind != "done" {
				return
			}
			if q.Take() {
				out += " taken"
				q.Seal(10, true)
				ws[1-c.Server].Adopt(ws[c.Server].Last())
			}
			st.Drain()
			a, b := st.Errs()
			kit.Check(a == nil && b == nil && st.Closed(), "an update ends with %v, refused by the client: %v, closed %v", a, b, st.Closed())
			out += fmt.Sprintf(" %d responses", st.Responses())
			for _, w := range ws {
				w.CheckView(ph)
			}
			out += " then"
			for _, a := range []sim.Action{{Op: "search", Label: "A", Search: -1}, {Op: "monitor"}, {Op: "sync", Label: "A"}} {
				for _, p := range exchange(r, ws, func(side int) server { return ws[side].Serve(ws[side].Size()) }, ph, a)[:1] {
					ph = p
				}
			}
			r.Eval()
		})
	})
	return out
}

func updates(t *testing.T, r *kit.Run) {
	var cases []updateCase
	for mode := byte(1); mode <= 3; mode++ {
		for _, salt := range []string{"", strings.Repeat("long ", 100)} {
			for _, before := range [][]int{{1}, {1, 1}, {2, 1}, {4}, {3, 4}, {15, 2}} {
				for mask := range 1 << len(before) {
					for _, prior := range []string{"", "search", "init"} {
						for count := range 4 {
							for prep := range 2 {
								if prior == "" && prep > 0 {
									continue
								}
								cases = append(cases, updateCase{Setup: setup{Mode: mode, Window: 1000, Suite: "toy", Salt: salt}, Before: before, Mask: mask, Prior: prior, Count: count, Prep: prep})
							}
						}
					}
				}
			}
		}
	}
	r.Parallel(len(cases), func(i int) {
		c := cases[i]
		c.Client, c.Server, c.Front = 1, 1, 1
		want := runUpdate(t, r, c)
		for k := range 7 {
			c.Client, c.Server, c.Front = k&1, k>>1&1, k>>2
			if c.Setup.Mode != 2 && c.Front == 0 {
				continue
			}
			got := runUpdate(t, r, c)
			r.State(fmt.Sprint(c))
			r.Try(func() any { return c }, func() { kit.Check(got == want, "an update: %q, among the published side alone: %q", got, want) })
			r.Outcome("update " + got)
		}
	})
}

// audits has the auditor change sides at every entry.
func audits(t *testing.T, r *kit.Run, h history) {
	r.Trace()
	for mask := range 1 << len(h.Steps) {
		var at string
		r.Try(func() any { return map[string]any{"history": h.String(), "auditors": mask, "at": at} }, func() {
			kit.Bubble(t, func() {
				ws := []world{newNew(h.Setup), oldNew(h.Setup)}
				var state []byte
				gone := false
				for i, s := range h.Steps {
					at = fmt.Sprintf("entry %d", i)
					if !add(ws, h.Mask>>i&1, s) {
						return
					}
					a := mask >> i & 1
					next, head, err := ws[a].Audit(state, ws[0].Last().Audit)
					_, want, err2 := ws[1].Audit(state, ws[0].Last().Audit)
					gone = gone || len(s.Remove) > 0
					if gone && err2 != nil {
						kit.Check(err != nil, "the auditor of the %s side accepts what that of the published side refuses: %v", names[a], err2)
						return // see the known findings of C17
					}
					kit.NoErr(err, "the auditor of the %s side", names[a])
					kit.Check(bytes.Equal(head, want), "the auditor of the %s side signs %x, that of the published side %x", names[a], head, want)
					if !gone {
						w := ws[0].(*newWorld).w
						want := sim.Encode(w.AuditorHead(w.Size(), w.Model().Times[i]))
						kit.Check(bytes.Equal(head, want), "the auditor of the %s side signs %x, not %x", names[a], head, want)
					}
					for b := range 2 {
						_, again, err := ws[b].Audit(next, nil)
						kit.NoErr(err, "the auditor of the %s side starts again", names[b])
						kit.Check(bytes.Equal(head, again), "the auditor of the %s side has head %x, not %x", names[b], again, head)
					}
					state = next
					r.State(fmt.Sprint("audit", h, mask, i))
					r.Eval()
				}
			})
		})
	}
}

// onDisk has the sides take turns with a database.
func onDisk(r *kit.Run, tmp string, h history, acts []sim.Action, last int) {
	r.Trace()
	var at string
	r.Try(func() any { return map[string]any{"history": h.String(), "at": at, "store": "LevelDB"} }, func() {
		ws := []world{newNew(h.Setup), oldNew(h.Setup)}
		files := map[string][]byte{}
		seq := 0
		dir := func() string {
			seq++
			d := fmt.Sprintf("%s/%d-%d", tmp, dirs.Add(1), seq)
			kit.NoErr(ldb.Write(d, files), "writing the database")
			return d
		}
		ph := sim.NewPhone()
		for i, s := range h.Steps {
			at = fmt.Sprintf("entry %d", i)
			k := h.Mask >> i & 1
			d := dir()
			ws[k].OpenDir(d)
			ok := func() bool {
				defer ws[k].CloseDir()
				return add(ws, k, s)
			}()
			if !ok {
				return
			}
			var err error
			files, err = ldb.Files(d)
			kit.NoErr(err, "reading the database")
			remove(d)
			if i < len(h.Steps)-last {
				continue
			}
			dirsOf := []string{dir(), dir()}
			func() {
				for b, d := range dirsOf {
					ws[b].OpenDir(d)
					defer remove(d)
					defer ws[b].CloseDir()
				}
				for _, a := range acts {
					ph = exchange(r, ws, func(side int) server { return ws[side].ServeDir() }, ph, a)[0]
				}
				r.State(fmt.Sprint("disk", h, i))
			}()
		}
	})
}
