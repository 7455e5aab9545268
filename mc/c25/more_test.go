package c25

import (
	"bytes"
	"fmt"
	"os"
	"slices"
	"strings"
	"sync/atomic"
	"testing"

	"katiemc/kit"
	"katiemc/ldb"
	"katiemc/sim"
)

var dirs atomic.Int64

func remove(dir string) { os.RemoveAll(dir) }

var suiteNames = []string{"toy", "p256", "ed25519"}

// primitive compares everything that is hashed, signed, sent or stored.
func primitive(r *kit.Run) {
	ps := []primitives{newPrimitives{}, oldPrimitives{}}
	try := func(desc string, f func()) {
		r.Eval()
		r.Distinct(desc)
		r.Try(func() any { return map[string]any{"compared": desc} }, f)
	}
	lists := func(suite, what string, f func(p primitives) []encoding) {
		try(what+" of "+suite, func() {
			a, b := f(ps[0]), f(ps[1])
			kit.Check(len(a) == len(b), "%d and %d values", len(a), len(b))
			for i := range a {
				r.Eval()
				kit.Check(a[i].Name == b[i].Name && bytes.Equal(a[i].Raw, b[i].Raw), "%s (%s) is encoded as %s, formerly as %s", a[i].Name, b[i].Name, short(a[i].Raw), short(b[i].Raw))
			}
			r.Count("encodings compared", int64(len(a)))
		})
	}
	for _, s := range suiteNames {
		lists(s, "messages and states", func(p primitives) []encoding { return p.Encodings(s) })
		lists(s, "hashed and signed inputs", func(p primitives) []encoding { return p.TBS(s) })
		if s == "toy" {
			continue
		}
		try("constants of "+s, func() {
			a, b := ps[0].Constants(s), ps[1].Constants(s)
			kit.Check(a == b, "%s, formerly %s", a, b)
		})
		n := kit.Pick(r, 24, 200)
		r.Parallel(n, func(i int) {
			key := append(bytes.Repeat([]byte{byte(i)}, 31), byte(i+1))
			msg := bytes.Repeat([]byte{byte(i)}, i)
			try(fmt.Sprintf("keys of %s %d", s, i), func() {
				a, b := ps[0].Keys(s, key), ps[1].Keys(s, key)
				kit.Check(a == b, "public keys %s, formerly %s", a, b)
			})
			for k := range 2 {
				try(fmt.Sprintf("VRF of %s %d %s", s, i, names[k]), func() {
					out, proof, pub := ps[k].VRF(s, key, msg)
					got, err := ps[1-k].VRFVerify(s, pub, msg, proof)
					kit.Check(err == nil && bytes.Equal(out, got), "a VRF proof of the %s side verifies to %x, %v instead of %x", names[k], got, err, out)
				})
				try(fmt.Sprintf("signatures of %s %d %s", s, i, names[k]), func() {
					sig, pub := ps[k].Sign(s, key, msg)
					kit.Check(ps[1-k].Verify(s, pub, msg, sig), "a signature of the %s side doesn't verify", names[k])
				})
			}
			try(fmt.Sprintf("commitment of %s %d", s, i), func() {
				a, b := ps[0].Commit(s, key[:16], msg), ps[1].Commit(s, key[:16], msg)
				kit.Check(bytes.Equal(a, b), "commitment %x, formerly %x", a, b)
			})
		})
	}
}

func short(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%x... (%d bytes)", b[:80], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func TestCheck(t *testing.T) {
	r := kit.Start("C25", "model_checking", "every history up to a depth in which each entry is added by the current tree or the published release, every client state reached by exchanges between servers and clients of either, on either store; every assignment of auditor, owner, operator and server to a side; every sample value of every encoding; distinct = comparison")
	primitive(r)
	updates(t, r)

	alphabet := []sim.Step{
		{DT: 100, Put: []sim.Put{{Label: "A", Count: 1}}},
		{DT: 600, Put: []sim.Put{{Label: "B", Count: 1}, {Label: "A", Count: 3}}},
		{DT: 100, Put: []sim.Put{{Label: "B", Count: 1}}},
		{DT: 100, Remove: []string{"A"}, Put: []sim.Put{{Label: "C", Count: 1}}},
	}
	var seqs func(n int) [][]sim.Step
	seqs = func(n int) [][]sim.Step {
		if n == 0 {
			return [][]sim.Step{nil}
		}
		var out [][]sim.Step
		for _, s := range seqs(n - 1) {
			for _, x := range alphabet {
				out = append(out, append(append([]sim.Step{}, s...), x))
			}
		}
		return out
	}
	var hs []history
	depth := kit.Pick(r, 3, 4)
	for mode := byte(1); mode <= 3; mode++ {
		for _, window := range []uint64{400, 1 << 50} {
			if r.Quick() && mode != 1 && window != 400 {
				continue
			}
			for _, s := range seqs(depth) {
				for mask := range 1 << depth {
					hs = append(hs, history{setup{Mode: mode, Window: window, Suite: "toy", Behind: mask & 1}, 0, s, mask})
				}
			}
		}
	}
	for _, s := range seqs(2) {
		for mask := range 4 {
			hs = append(hs, history{setup{Mode: 1, Window: 300, Lifetime: 650, Suite: "toy", Salt: strings.Repeat("long ", 20000)}, 0, s, mask})
			for _, suite := range suiteNames[1:] {
				for mode := byte(1); mode <= 2; mode++ {
					hs = append(hs, history{setup{Mode: mode, Window: 400, Suite: suite}, 0, s, mask})
				}
			}
		}
	}
	// A longer log, with the sides taking turns in every rhythm.
	for _, mode := range []byte{1, 3} {
		for mask := range 16 {
			var s []sim.Step
			m := 0
			for i := range kit.Pick(r, 9, 20) {
				s = append(s, alphabet[i%3])
				m |= (mask >> (i % 4) & 1) << i
			}
			hs = append(hs, history{setup{Mode: mode, Window: 1000, Suite: "toy"}, 0, s, m})
		}
	}
	r.Parallel(len(hs), func(i int) { explore(t, r, hs[i], actions, kit.Pick(r, 8, 40)) })

	// Every client state there can be.
	hs = nil
	for i, s := range seqs(kit.Pick(r, 6, 7)) {
		if i%kit.Pick(r, 25, 3) > 0 || slices.ContainsFunc(s, func(s sim.Step) bool { return len(s.Remove) > 0 }) {
			continue
		}
		hs = append(hs, history{setup{Mode: byte(1 + i/5%2), Window: 150 + 200*uint64(i/10%4), Suite: "toy"}, 0, s, 0b101101 >> (i / 40 % 2)})
	}
	r.Parallel(len(hs), func(i int) {
		explore(t, r, hs[i], []sim.Action{
			{Op: "search", Label: "A", Search: -1}, {Op: "search", Label: "A", Search: 0}, {Op: "search", Label: "Z", Search: -1},
			{Op: "init", Label: "A"}, {Op: "sync", Label: "A"}, {Op: "monitor"},
		}, kit.Pick(r, 400, 5000))
	})

	var as []history
	for _, s := range seqs(kit.Pick(r, 3, 4)) {
		for mask := range 1 << len(s) {
			as = append(as, history{setup{Mode: 3, Window: 400, Suite: "toy"}, 0, s, mask})
		}
	}
	r.Parallel(len(as), func(i int) { audits(t, r, as[i]) })

	tmp, err := ldb.Scratch("c25")
	kit.NoErr(err, "making a scratch directory")
	defer os.RemoveAll(tmp)
	var ds []history
	for mode := byte(1); mode <= 3; mode++ {
		for _, s := range seqs(kit.Pick(r, 2, 3)) {
			if len(s[0].Put) == 0 || len(s[1].Remove) > 0 {
				continue
			}
			for mask := range 1 << len(s) {
				ds = append(ds, history{setup{Mode: mode, Window: 400, Suite: "toy"}, 0, s, mask})
			}
		}
	}
	for i := range ds { // no real time passes between entries
		for j := range ds[i].Steps {
			ds[i].Steps[j].DT = 0
		}
	}
	r.Parallel(len(ds), func(i int) { onDisk(r, tmp, ds[i], actions, len(ds[i].Steps)) })
	// Numbers of entries, versions and parts of trees that take more than a digit
	// or a byte.
	acts := slices.Clone(actions)
	for _, v := range []int64{1, 9, 10, 15, 16, 17, 40, 127, 128, 129} {
		acts = append(acts, sim.Action{Op: "search", Label: "A", Search: v})
	}
	for i := range 12 {
		acts = append(acts, sim.Action{Op: "search", Label: fmt.Sprint("many ", i*i*3%240), Search: -1})
	}
	ds = nil
	for mask := range 16 {
		var s []sim.Step
		m := 0
		for i := range 24 + kit.Pick(r, 1, 120) {
			x := sim.Step{Put: []sim.Put{{Label: "A", Count: 1 + i%3}, {Label: "B", Count: 1}}}
			switch i {
			case 2, 18:
				for k := range 240 {
					x.Put = append(x.Put, sim.Put{Label: fmt.Sprint("many ", k), Count: 1})
				}
			case 5, 21:
				x.Put[0].Count = 60
			}
			s = append(s, x)
			if i < 30 {
				m |= (mask >> (i % 4) & 1) << i
			}
		}
		ds = append(ds, history{setup{Mode: byte(1 + mask%3), Window: 400, Suite: "toy"}, 0, s, m})
	}
	r.Parallel(len(ds), func(i int) { onDisk(r, tmp, ds[i], acts, 2) })
	os.RemoveAll(tmp)

	r.Sample(map[string]any{"history": hs[len(hs)/2].String()})
	r.Assume("the published release is the repository at the commit in mc/old")
	r.Finish()
}
