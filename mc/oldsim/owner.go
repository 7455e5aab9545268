package oldsim

import (
	"katiemc/kit"
	"katiemc/ref"

	"katiemc/old/tree/transparency/structs"
)

// OwnerState is what the phone knows as the owner of a label, nil if it isn't.
func OwnerState(p *structs.PublicConfig, ph *Phone, label string) *structs.LabelOwnerState {
	ls := LabelState(p, ph, label)
	if ls == nil {
		return nil
	}
	return ls.Owner
}

// OwnerGreatest is the greatest version the owner knows of, -1 for none.
func OwnerGreatest(o *structs.LabelOwnerState) int { return o.VerAtStarting + len(o.UpcomingVers) }

// CheckOwner compares what the owner of a label knows with the log at the size
// the phone last saw: it may lag behind, but is never wrong.
func CheckOwner(w *World, ph *Phone, label string) {
	o := OwnerState(w.Public, ph, label)
	if o == nil {
		return
	}
	m := w.Models[State(w.Public, ph).TreeHead.TreeSize]
	dist := ref.Distinguished(m.Times, w.Config.ReasonableMonitoringWindow)
	kit.Check(o.Starting < uint64(len(dist)) && dist[o.Starting], "the owner of %q verified up to entry %d, which is not distinguished: %v", label, o.Starting, dist)
	kit.Check(o.VerAtStarting == m.GreatestAt(label, o.Starting), "the owner of %q believes that version %d exists at entry %d, but it is %d", label, o.VerAtStarting, o.Starting, m.GreatestAt(label, o.Starting))
	for i, x := range o.UpcomingVers {
		ver := o.VerAtStarting + 1 + i
		kit.Check(ver < len(m.Labels[label]) && m.Labels[label][ver].Pos == x, "the owner of %q believes that version %d was added in entry %d: %v", label, ver, x, m.Labels[label])
	}
}

// OwnerCurrent reports whether the owner knows all versions of the label at
// the size the phone last saw.
func OwnerCurrent(w *World, ph *Phone, label string) bool {
	o := OwnerState(w.Public, ph, label)
	return OwnerGreatest(o) == len(w.Models[State(w.Public, ph).TreeHead.TreeSize].Labels[label])-1
}
