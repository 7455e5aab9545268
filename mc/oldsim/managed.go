package oldsim

import (
	"context"

	"katiemc/kit"

	"katiemc/old/tree/transparency/managed"
	"katiemc/old/tree/transparency/structs"
	"katiemc/old/tree/transparency/wire"
)

// counter is an operator's store that knows how many versions a label has.
type counter map[string]int

func (c counter) IncrementGreatestVersion(label []byte, count int) (int, error) {
	c[string(label)] += count
	return c[string(label)] - count - 1, nil
}

// manager passes managed updates on through their encoding.
type manager struct {
	wire.ManagerInterface
	p *structs.PublicConfig
}

func (m manager) ManagerUpdate(ctx context.Context, req *structs.ManagerUpdateRequest) (<-chan wire.UpdateResponse, error) {
	return m.ManagerInterface.ManagerUpdate(ctx, MustDecode(Encode(req), func(b *buffer) (*structs.ManagerUpdateRequest, error) {
		return structs.NewManagerUpdateRequest(m.p, b)
	}))
}

// Managed is the operator's front of a log that is hosted by a third party, at
// a time when labels have the given numbers of versions.
func (w *World) Managed(log wire.ManagerInterface, m *Model) wire.Interface {
	c := counter{}
	for l, vs := range m.Labels {
		c[l] = len(vs)
	}
	return w.managed(log, c)
}

func (w *World) managed(log wire.ManagerInterface, c counter) wire.Interface {
	ml, err := managed.NewManagedLog(w.Public, manager{log, w.Public}, c, LeafKey)
	kit.NoErr(err, "creating the operator's front")
	return ml
}
