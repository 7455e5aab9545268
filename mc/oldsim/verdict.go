package oldsim

import (
	"context"
	"errors"
	"fmt"

	"katiemc/kit"
	"katiemc/ref"

	"katiemc/old/tree/transparency"
	"katiemc/old/tree/transparency/algorithms"
	"katiemc/old/tree/transparency/structs"
)

// Query asks for a label: Version -1 is the greatest version.
type Query struct {
	Label   string
	Version int64
}

func (q Query) String() string {
	if q.Version < 0 {
		return fmt.Sprintf("search(%q)", q.Label)
	}
	return fmt.Sprintf("search(%q,%d)", q.Label, q.Version)
}

// Request prepares the query at a client.
func (q Query) Request(c *transparency.Client) (*structs.SearchRequest, transparency.VerifyFunc[*structs.SearchResponse], error) {
	if q.Version < 0 {
		return c.GreatestVersionSearch([]byte(q.Label))
	}
	return c.FixedVersionSearch([]byte(q.Label), uint32(q.Version))
}

// Answer is what a search came to.
type Answer struct {
	Kind    string // value, notfound, expired, refused
	Version uint32
	Value   string
	Err     error
}

func (a Answer) String() string {
	switch a.Kind {
	case "value":
		return fmt.Sprintf("version %d = %q", a.Version, a.Value)
	case "refused":
		return "error: " + a.Err.Error()
	}
	return a.Kind
}

// Classify turns an error into an answer.
func Classify(err error) Answer {
	switch {
	case errors.Is(err, algorithms.ErrLabelNotFound):
		return Answer{Kind: "notfound", Err: err}
	case errors.Is(err, algorithms.ErrLabelExpired):
		return Answer{Kind: "expired", Err: err}
	}
	return Answer{Kind: "refused", Err: err}
}

// Verify lets the client judge an encoded response.
func Verify(w *World, q Query, req *structs.SearchRequest, verify transparency.VerifyFunc[*structs.SearchResponse], raw []byte) Answer {
	res, err := Decode(raw, DecodeSearch(w.Public, req))
	if err != nil {
		return Answer{Kind: "refused", Err: fmt.Errorf("decoding: %w", err)}
	}
	if err := verify(res); err != nil {
		return Classify(err)
	}
	a := Answer{Kind: "value", Value: string(res.Value.Value)}
	if req.Version != nil {
		a.Version = *req.Version
	} else if res.Version != nil {
		a.Version = *res.Version
	}
	return a
}

// DecodeSearch is the response decoder for a request.
func DecodeSearch(p *structs.PublicConfig, req *structs.SearchRequest) func(*buffer) (*structs.SearchResponse, error) {
	return func(b *buffer) (*structs.SearchResponse, error) { return structs.NewSearchResponse(p, req, b) }
}

// Search runs a query from a phone against the log at the given size. served
// is false if the server answered with an error.
func Search(w *World, size uint64, p *Phone, q Query) (a Answer, served bool) {
	req, verify, err := q.Request(w.Client(p))
	kit.NoErr(err, "%v: preparing the request", q)
	got := MustDecode(Encode(req), structs.NewSearchRequest)
	res, err := w.Server(size).Search(context.Background(), got)
	if err != nil {
		return Classify(err), false
	}
	return Verify(w, q, req, verify, Encode(res)), true
}

// SearchFaulty is Search against a server whose k-th storage operation fails.
// hit is false if the server needed fewer operations.
func SearchFaulty(w *World, size uint64, p *Phone, q Query, k int) (a Answer, served, hit bool) {
	req, verify, err := q.Request(w.Client(p))
	kit.NoErr(err, "%v: preparing the request", q)
	st := w.Snaps[size].ReadOnly()
	n := 0
	st.Fault = func(string) error {
		n++
		if n == k {
			hit = true
			return ErrFault
		}
		return nil
	}
	t, err := transparency.NewTree(w.Config, st, nil)
	if err != nil {
		return Classify(err), false, hit
	}
	res, err := t.Search(context.Background(), req)
	if err != nil {
		return Classify(err), false, hit
	}
	return Verify(w, q, req, verify, Encode(res)), true, hit
}

// Expect is the set of acceptable honest answers.
func Expect(w *World, size uint64, q Query) []Answer {
	m := w.Models[size]
	vs := m.Labels[q.Label]
	if m.Gone[q.Label] {
		// Older entries still prove the removed versions, so a search may end
		// in any error; it must not end in another value.
		out := []Answer{{Kind: "notfound"}, {Kind: "expired"}, {Kind: "refused"}}
		v := q.Version
		if v < 0 {
			v = int64(len(vs)) - 1
		}
		if v >= 0 && v < int64(len(vs)) {
			out = append(out, Answer{Kind: "value", Version: uint32(v), Value: vs[v].Value})
		}
		return out
	}
	if q.Version < 0 {
		if len(vs) == 0 {
			return []Answer{{Kind: "notfound"}}
		}
		return []Answer{{Kind: "value", Version: uint32(len(vs) - 1), Value: vs[len(vs)-1].Value}}
	}
	if q.Version >= int64(len(vs)) {
		return []Answer{{Kind: "notfound"}}
	}
	v := vs[q.Version]
	value := Answer{Kind: "value", Version: uint32(q.Version), Value: v.Value}
	life := w.Config.MaximumLifetime
	last := m.Times[len(m.Times)-1]
	expired := func(x int) bool { return life > 0 && last-m.Times[x] >= life }
	if !expired(0) {
		return []Answer{value}
	}
	dist := ref.Distinguished(m.Times, w.Config.ReasonableMonitoringWindow)
	d0 := -1
	for x := range m.Times {
		if dist[x] && !expired(x) {
			d0 = x
			break
		}
	}
	// Is it current at any unexpired entry?
	current := false
	for x := range m.Times {
		if !expired(x) && m.GreatestAt(q.Label, uint64(x)) == int(q.Version) {
			current = true
		}
	}
	switch {
	case d0 >= 0 && (v.Pos > uint64(d0) || m.GreatestAt(q.Label, uint64(d0)) == int(q.Version)):
		return []Answer{value}
	case !current && expired(int(v.Pos)):
		return []Answer{{Kind: "expired"}}
	}
	return []Answer{value, {Kind: "expired"}}
}

// Acceptable compares an answer with the acceptable ones.
func Acceptable(a Answer, want []Answer) bool {
	for _, w := range want {
		if a.Kind == w.Kind && (a.Kind != "value" || (a.Version == w.Version && a.Value == w.Value)) {
			return true
		}
	}
	return false
}
