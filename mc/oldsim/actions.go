package oldsim

import (
	"context"
	"errors"
	"fmt"

	"katiemc/kit"

	"katiemc/old/tree/transparency"
	"katiemc/old/tree/transparency/structs"
	"katiemc/old/tree/transparency/wire"
)

// Action is one exchange a client starts.
type Action struct {
	Op     string // search, init, monitor, sync
	Label  string `json:",omitempty"`
	Search int64  `json:",omitempty"` // version, -1 for the greatest
}

func (a Action) String() string {
	switch a.Op {
	case "search":
		return Query{a.Label, a.Search}.String()
	case "monitor":
		return "monitor"
	}
	return fmt.Sprintf("%s(%q)", a.Op, a.Label)
}

// Result is what became of an action.
type Result struct {
	Kind    string // done, nothing (no request to make), unable (request refused by the client), unserved, refused
	Label   string // label that was monitored
	Owner   bool   // owner monitoring
	Answer  Answer // searches
	Updates int    // responses received by a sync
	Err     error
}

func (r Result) String() string {
	if r.Err != nil {
		return r.Kind + ": " + r.Err.Error()
	}
	if r.Answer.Kind != "" {
		return r.Kind + ": " + r.Answer.String()
	}
	return r.Kind
}

// Do runs an action of the client on the given phone against a server.
func Do(p *structs.PublicConfig, s wire.Interface, ph *Phone, a Action) Result {
	c, err := transparency.NewClient(p, ph)
	kit.NoErr(err, "creating a client")
	switch a.Op {
	case "search":
		q := Query{a.Label, a.Search}
		req, verify, err := q.Request(c)
		if err != nil {
			return Result{Kind: "unable", Err: err}
		}
		res, err := s.Search(context.Background(), MustDecode(Encode(req), structs.NewSearchRequest))
		if err != nil {
			return Result{Kind: "unserved", Err: err}
		}
		got, err := Decode(Encode(res), DecodeSearch(p, req))
		if err != nil {
			return Result{Kind: "refused", Err: err}
		}
		if err := verify(got); err != nil {
			if x := Classify(err); x.Kind != "refused" {
				return Result{Kind: "done", Answer: x}
			}
			return Result{Kind: "refused", Err: err}
		}
		out := Answer{Kind: "value", Value: string(got.Value.Value)}
		if req.Version != nil {
			out.Version = *req.Version
		} else {
			out.Version = *got.Version
		}
		return Result{Kind: "done", Answer: out}
	case "init":
		req, verify, err := c.OwnerInit([]byte(a.Label))
		if err != nil {
			return Result{Kind: "unable", Err: err}
		}
		res, err := s.OwnerInit(context.Background(), MustDecode(Encode(req), structs.NewOwnerInitRequest))
		if err != nil {
			return Result{Kind: "unserved", Err: err}
		}
		got, err := Decode(Encode(res), func(b *buffer) (*structs.OwnerInitResponse, error) { return structs.NewOwnerInitResponse(p, b) })
		if err == nil {
			err = verify(got)
		}
		if err != nil {
			return Result{Kind: "refused", Err: err}
		}
		return Result{Kind: "done"}
	case "monitor":
		req, verify, err := c.Monitor()
		if err != nil {
			return Result{Kind: "unable", Err: err}
		} else if req == nil {
			return Result{Kind: "nothing"}
		}
		var got structs.Marshaller
		out := Result{}
		switch req := req.(type) {
		case *structs.ContactMonitorRequest:
			out.Label = string(req.Label)
			res, err := s.ContactMonitor(context.Background(), MustDecode(Encode(req), structs.NewContactMonitorRequest))
			if err != nil {
				out.Kind, out.Err = "unserved", err
				return out
			}
			got, err = Decode(Encode(res), func(b *buffer) (structs.Marshaller, error) { return structs.NewContactMonitorResponse(p, b) })
			out.Err = err
		case *structs.OwnerMonitorRequest:
			out.Label, out.Owner = string(req.Label), true
			res, err := s.OwnerMonitor(context.Background(), MustDecode(Encode(req), structs.NewOwnerMonitorRequest))
			if err != nil {
				out.Kind, out.Err = "unserved", err
				return out
			}
			got, err = Decode(Encode(res), func(b *buffer) (structs.Marshaller, error) { return structs.NewOwnerMonitorResponse(p, b) })
			out.Err = err
		default:
			kit.Failf("Monitor returned a request of type %T", req)
		}
		if out.Err == nil {
			out.Err = verify(got)
		}
		if out.Err != nil {
			out.Kind = "refused"
			return out
		}
		out.Kind = "done"
		return out
	case "sync":
		req, sv, err := c.Update([]byte(a.Label), nil)
		if err != nil {
			return Result{Kind: "unable", Err: err}
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		ch, err := s.Update(ctx, MustDecode(Encode(req), structs.NewUpdateRequest))
		if err != nil {
			return Result{Kind: "unserved", Err: err}
		}
		out := Result{Kind: "done"}
		for u := range ch {
			if u.Err != nil {
				out.Kind, out.Err = "unserved", u.Err
				return out
			}
			got, err := Decode(Encode(u.Out), func(b *buffer) (*structs.UpdateResponse, error) { return structs.NewUpdateResponse(p, b) })
			if err == nil {
				err = sv.Verify(got)
			}
			if err != nil {
				out.Kind, out.Err = "refused", err
				return out
			}
			out.Updates++
		}
		return out
	}
	return Result{Kind: "unable", Err: errors.New("unknown action")}
}

// LabelState is what a phone retains about a label, nil for nothing.
func LabelState(p *structs.PublicConfig, ph *Phone, label string) *structs.ClientLabelState {
	r, ok := ph.Labels[label]
	if !ok {
		return nil
	}
	return MustDecode(r.Raw, func(b *buffer) (*structs.ClientLabelState, error) { return structs.NewClientLabelState(p.Suite, b) })
}

// State is what a phone retains about the log, nil for nothing.
func State(p *structs.PublicConfig, ph *Phone) *structs.ClientState {
	if ph.State == nil {
		return nil
	}
	return MustDecode(ph.State, func(b *buffer) (*structs.ClientState, error) { return structs.NewClientState(p, b) })
}
