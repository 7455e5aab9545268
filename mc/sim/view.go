package sim

import (
	"bytes"
	"maps"
	"slices"

	"katiemc/kit"

	"github.com/Bren2010/katie/tree/log"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// CheckView compares everything a phone retains about the log and its labels
// with the log itself.
func CheckView(w *World, ph *Phone) {
	st := State(w.Public, ph)
	if st == nil {
		kit.Check(len(ph.Labels) == 0, "labels are retained without a view of the log")
		return
	}
	n := st.TreeHead.TreeSize
	kit.Check(n > 0 && n <= w.Size(), "the client believes in a log of %d entries, there are %d", n, w.Size())
	kit.Check(bytes.Equal(Encode(&st.TreeHead), Encode(w.Heads[n])), "the client retains a tree head of size %d that was never published", n)
	for x, e := range st.LogEntries {
		kit.Check(x < n && bytes.Equal(Encode(&e), Encode(w.Entry(x))), "the client retains an entry %d that is not in the log", x)
	}
	root, err := log.Root(w.Config.Suite, n, st.FullSubtrees)
	kit.Check(err == nil && bytes.Equal(root, w.Root(n)), "the client retains subtrees that are not those of the log of size %d: %v", n, err)
	if a := st.AuditorTreeHead; a != nil {
		kit.Check(a.TreeSize > 0 && a.TreeSize <= n, "the client retains an auditor head of size %d at size %d", a.TreeSize, n)
		tbs := Encode(&structs.AuditorTreeHeadTBS{Config: w.Public, Timestamp: a.Timestamp, TreeSize: a.TreeSize, Root: w.Root(a.TreeSize)})
		kit.Check(AuditorKey.Public().Verify(tbs, a.Signature), "the client retains a head of size %d that the auditor didn't sign", a.TreeSize)
	} else {
		kit.Check(w.Config.Mode != structs.ThirdPartyAuditing, "the client retains no auditor head")
	}
	for _, label := range slices.Sorted(maps.Keys(ph.Labels)) {
		CheckOwner(w, ph, label)
		ls := LabelState(w.Public, ph, label)
		vs := w.Models[n].Labels[label]
		for _, e := range ls.Contact {
			kit.Check(int(e.Version) < len(vs) && vs[e.Version].Pos <= e.Position && e.Position < n, "version %d of %q is monitored at entry %d of %d: %v", e.Version, label, e.Position, n, vs)
		}
		for _, v := range ls.Versions {
			out := VRF(w.Config, label, int(v.Version))
			kit.Check(bytes.Equal(v.VrfOutput, out), "the client retains a wrong VRF output for version %d of %q", v.Version, label)
			var want []byte
			if int(v.Version) < len(vs) {
				want = w.Commitment(out, n)
			}
			kit.Check(v.Commitment == nil || bytes.Equal(v.Commitment, want), "the client retains commitment %x for version %d of %q, it is %x", v.Commitment, v.Version, label, want)
		}
	}
}

// Commitment is the latest one that was published for a VRF output in the
// first n entries.
func (w *World) Commitment(out []byte, n uint64) (c []byte) {
	for _, a := range w.Audit[:n] {
		for _, e := range a.Added {
			if bytes.Equal(e.VrfOutput, out) {
				c = e.Commitment
			}
		}
	}
	return c
}
