package oldsim

import (
	"context"
	"fmt"

	"katiemc/kit"

	"katiemc/old/tree/transparency"
	"katiemc/old/tree/transparency/structs"
	"katiemc/old/tree/transparency/wire"
)

// Asked is a request a client has made and the way it judges the response.
type Asked struct {
	Kind   string // kind of request and response
	Label  string
	Target int64 // version looked for by a search, -1 for the greatest

	// Call gets the encoded response to the request from a server. For updates
	// it is the first response, nil if there is none.
	Call func(s wire.Interface) ([]byte, error)
	// Parse decodes a response.
	Parse func(raw []byte) (any, error)
	// Judge lets the client verify an encoded response, and says what it
	// found. The error is the client's refusal.
	Judge func(raw []byte) (Answer, error)
}

// Ask lets the client make a request: nil if it doesn't want to.
func Ask(p *structs.PublicConfig, ph *Phone, a Action) (*Asked, error) {
	c, err := transparency.NewClient(p, ph)
	kit.NoErr(err, "creating a client")
	bg := context.Background()
	switch a.Op {
	case "search":
		req, verify, err := (Query{a.Label, a.Search}).Request(c)
		if err != nil {
			return nil, err
		}
		out := &Asked{Kind: "search", Label: a.Label, Target: a.Search}
		if a.Search >= 0 {
			out.Kind = "search for a version"
		}
		out.Parse = func(raw []byte) (any, error) { return Decode(raw, DecodeSearch(p, req)) }
		out.Call = func(s wire.Interface) ([]byte, error) {
			res, err := s.Search(bg, MustDecode(Encode(req), structs.NewSearchRequest))
			if err != nil {
				return nil, err
			}
			return Encode(res), nil
		}
		out.Judge = func(raw []byte) (Answer, error) {
			got, err := Decode(raw, DecodeSearch(p, req))
			if err != nil {
				return Answer{}, err
			}
			if err := verify(got); err != nil {
				if x := Classify(err); x.Kind != "refused" {
					return x, nil
				}
				return Answer{}, err
			}
			x := Answer{Kind: "value", Value: string(got.Value.Value)}
			if req.Version != nil {
				x.Version = *req.Version
			} else {
				x.Version = *got.Version
			}
			return x, nil
		}
		return out, nil
	case "init":
		req, verify, err := c.OwnerInit([]byte(a.Label))
		if err != nil {
			return nil, err
		}
		parse := func(b *buffer) (*structs.OwnerInitResponse, error) { return structs.NewOwnerInitResponse(p, b) }
		return &Asked{
			Kind: "init", Label: a.Label,
			Parse: func(raw []byte) (any, error) { return Decode(raw, parse) },
			Call: func(s wire.Interface) ([]byte, error) {
				res, err := s.OwnerInit(bg, MustDecode(Encode(req), structs.NewOwnerInitRequest))
				if err != nil {
					return nil, err
				}
				return Encode(res), nil
			},
			Judge: func(raw []byte) (Answer, error) {
				got, err := Decode(raw, parse)
				if err != nil {
					return Answer{}, err
				}
				return Answer{Kind: "done"}, verify(got)
			},
		}, nil
	case "monitor":
		req, verify, err := c.Monitor()
		if err != nil {
			return nil, err
		} else if req == nil {
			return nil, nil
		}
		out := &Asked{}
		var parse func(b *buffer) (structs.Marshaller, error)
		switch req := req.(type) {
		case *structs.ContactMonitorRequest:
			out.Kind, out.Label = "contact monitor", string(req.Label)
			parse = func(b *buffer) (structs.Marshaller, error) { return structs.NewContactMonitorResponse(p, b) }
			out.Call = func(s wire.Interface) ([]byte, error) {
				res, err := s.ContactMonitor(bg, MustDecode(Encode(req), structs.NewContactMonitorRequest))
				if err != nil {
					return nil, err
				}
				return Encode(res), nil
			}
		case *structs.OwnerMonitorRequest:
			out.Kind, out.Label = "owner monitor", string(req.Label)
			parse = func(b *buffer) (structs.Marshaller, error) { return structs.NewOwnerMonitorResponse(p, b) }
			out.Call = func(s wire.Interface) ([]byte, error) {
				res, err := s.OwnerMonitor(bg, MustDecode(Encode(req), structs.NewOwnerMonitorRequest))
				if err != nil {
					return nil, err
				}
				return Encode(res), nil
			}
		default:
			kit.Failf("Monitor returned a request of type %T", req)
		}
		out.Parse = func(raw []byte) (any, error) { return Decode(raw, parse) }
		out.Judge = func(raw []byte) (Answer, error) {
			got, err := Decode(raw, parse)
			if err != nil {
				return Answer{}, err
			}
			return Answer{Kind: "done"}, verify(got)
		}
		return out, nil
	case "sync":
		req, sv, err := c.Update([]byte(a.Label), nil)
		if err != nil {
			return nil, err
		}
		parse := func(b *buffer) (*structs.UpdateResponse, error) { return structs.NewUpdateResponse(p, b) }
		return &Asked{
			Kind: "sync", Label: a.Label,
			Parse: func(raw []byte) (any, error) { return Decode(raw, parse) },
			Call: func(s wire.Interface) ([]byte, error) {
				ctx, cancel := context.WithCancel(bg)
				defer cancel()
				ch, err := s.Update(ctx, MustDecode(Encode(req), structs.NewUpdateRequest))
				if err != nil {
					return nil, err
				}
				u, ok := <-ch
				if !ok {
					return nil, nil
				} else if u.Err != nil {
					return nil, u.Err
				}
				return Encode(u.Out), nil
			},
			Judge: func(raw []byte) (Answer, error) {
				got, err := Decode(raw, parse)
				if err != nil {
					return Answer{}, err
				}
				return Answer{Kind: "done"}, sv.Verify(got)
			},
		}, nil
	}
	return nil, fmt.Errorf("unknown action %v", a)
}
