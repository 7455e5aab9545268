package c10

import (
	"bytes"
	"context"
	"reflect"

	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/tree/transparency/wire"
)

type marshaler interface{ Marshal(*bytes.Buffer) error }

// head of a response of any kind.
func head(m any) *structs.FullTreeHead {
	return reflect.ValueOf(m).Elem().FieldByName("FullTreeHead").Addr().Interface().(*structs.FullTreeHead)
}

// relast lets a server see requests as if they came from a client that last
// saw another size.
type relast struct {
	s    wire.Interface
	last *uint64
}

func (x relast) Search(c context.Context, q *structs.SearchRequest) (*structs.SearchResponse, error) {
	q.Last = x.last
	return x.s.Search(c, q)
}

func (x relast) ContactMonitor(c context.Context, q *structs.ContactMonitorRequest) (*structs.ContactMonitorResponse, error) {
	q.Last = x.last
	return x.s.ContactMonitor(c, q)
}

func (x relast) OwnerInit(c context.Context, q *structs.OwnerInitRequest) (*structs.OwnerInitResponse, error) {
	q.Last = x.last
	return x.s.OwnerInit(c, q)
}

func (x relast) OwnerMonitor(c context.Context, q *structs.OwnerMonitorRequest) (*structs.OwnerMonitorResponse, error) {
	q.Last = x.last
	return x.s.OwnerMonitor(c, q)
}

func (x relast) Update(c context.Context, q *structs.UpdateRequest) (<-chan wire.UpdateResponse, error) {
	q.Last = x.last
	return x.s.Update(c, q)
}
