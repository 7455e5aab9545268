package oldsim

import (
	"context"
	"fmt"
	"testing/synctest"
	"time"

	"katiemc/kit"

	"katiemc/old/tree/transparency"
	"katiemc/old/tree/transparency/structs"
	"katiemc/old/tree/transparency/wire"
)

// Sequencer is the process that turns the update requests of a log's servers
// into log entries, one request per label and entry.
type Sequencer struct {
	W  *World
	Ch chan transparency.UpdateRequest

	Taken    []transparency.UpdateRequest // received, not yet part of an entry
	Sealed   []transparency.UpdateRequest // part of the latest entry
	Rejected []transparency.UpdateRequest // not acceptable when the latest entry was made

	Lenient bool // requests that can't be sequenced are refused

	Fault func(op string) error // for the storage of servers, see Store

	signed counter // of the operator's front, if the log is managed
}

func NewSequencer(w *World) *Sequencer {
	return &Sequencer{W: w, Ch: make(chan transparency.UpdateRequest), signed: counter{}}
}

// Server is a server of the log as it is now that takes updates.
func (s *Sequencer) Server() wire.Interface {
	st := s.W.Disk.ReadOnly()
	t, err := transparency.NewTree(s.W.Config, st, s.Ch)
	st.Fault = s.Fault
	kit.NoErr(err, "opening the log at size %d", s.W.Size())
	if s.W.Config.Mode != structs.ThirdPartyManagement {
		return t
	}
	for l, vs := range s.W.Model().Labels {
		s.signed[l] = max(s.signed[l], len(vs))
	}
	return s.W.managed(t, s.signed)
}

// Take receives one request, if a server is waiting to hand one over.
func (s *Sequencer) Take() bool {
	synctest.Wait()
	select {
	case r := <-s.Ch:
		s.Taken = append(s.Taken, r)
		return true
	default:
		return false
	}
}

// Seal publishes an entry with the first of the received requests of each
// label, and further puts. The requests are answered if answer is set, and
// otherwise returned to be answered later.
func (s *Sequencer) Seal(dt int64, puts []Put, answer bool) (late []func()) {
	w := s.W
	time.Sleep(time.Duration(dt) * time.Millisecond)
	n := w.Size()
	tree, err := transparency.NewTree(w.Config, w.Disk.Open(), nil)
	kit.NoErr(err, "opening the log to sequence entry %d", n)
	next := w.Model().Copy()
	var add []transparency.LabelValue
	used := map[string]bool{}
	var rest []transparency.UpdateRequest
	s.Sealed, s.Rejected = nil, nil
	for _, r := range s.Taken {
		l := string(r.Label)
		if used[l] {
			rest = append(rest, r)
			continue
		}
		if r.StartingVersion != nil && int(*r.StartingVersion) != len(next.Labels[l]) {
			close(r.Response)
			s.Rejected = append(s.Rejected, r)
			continue
		}
		s.Sealed = append(s.Sealed, r)
		used[l] = true
		for _, v := range r.Values {
			add = append(add, transparency.LabelValue{Label: r.Label, Value: v})
			next.Labels[l] = append(next.Labels[l], Version{n, string(v.Value)})
		}
		late = append(late, func() { r.Response <- n })
	}
	for _, p := range puts {
		if used[p.Label] {
			continue
		}
		for range p.Count {
			ver := len(next.Labels[p.Label])
			v := w.Value(p.Label, ver, n)
			add = append(add, transparency.LabelValue{Label: []byte(p.Label), Value: w.UpdateValue(p.Label, ver, v)})
			next.Labels[p.Label] = append(next.Labels[p.Label], Version{n, v})
		}
	}
	s.Taken = rest
	au, err := tree.Mutate(add, nil)
	if err != nil && s.Lenient {
		for _, r := range s.Sealed {
			close(r.Response)
		}
		s.Rejected = append(s.Rejected, s.Sealed...)
		s.Sealed = nil
		return nil
	}
	kit.NoErr(err, "sequencing entry %d", n)
	w.record(tree, au, next)
	if answer {
		for _, f := range late {
			f()
		}
		late = nil
	}
	return late
}

// Fail refuses the oldest received request.
func (s *Sequencer) Fail() {
	close(s.Taken[0].Response)
	s.Taken = s.Taken[1:]
}

// Stream is an update under way.
type Stream struct {
	Label     string
	Values    []string
	Responses []*structs.UpdateResponse // accepted by the client
	Closed    bool                      // the server closed the stream
	Err       error                     // reported by the server
	Refused   error                     // the client refused a response

	Cancel context.CancelFunc
	public *structs.PublicConfig
	sv     *transparency.StreamVerifier
	ch     <-chan wire.UpdateResponse
}

// StartUpdate sends the client's request to create new versions of a label.
func StartUpdate(p *structs.PublicConfig, s wire.Interface, ph *Phone, label string, values []string) (*Stream, Result) {
	c, err := transparency.NewClient(p, ph)
	kit.NoErr(err, "creating a client")
	var vs [][]byte
	for _, v := range values {
		vs = append(vs, []byte(v))
	}
	req, sv, err := c.Update([]byte(label), vs)
	if err != nil {
		return nil, Result{Kind: "unable", Err: err}
	}
	ctx, cancel := context.WithCancel(context.Background())
	ch, err := s.Update(ctx, MustDecode(Encode(req), structs.NewUpdateRequest))
	if err != nil {
		cancel()
		return nil, Result{Kind: "unserved", Err: err}
	}
	return &Stream{Label: label, Values: values, Cancel: cancel, public: p, sv: sv, ch: ch}, Result{Kind: "done"}
}

// Read takes what the server has to say right now: a response, an error, the
// end of the stream, or nothing (false).
func (st *Stream) Read() bool {
	synctest.Wait()
	select {
	case u, ok := <-st.ch:
		switch {
		case !ok:
			st.Closed = true
		case u.Err != nil:
			kit.Check(st.Err == nil, "the server reports a second error: %v, then %v", st.Err, u.Err)
			st.Err = u.Err
		default:
			kit.Check(st.Err == nil && u.Out != nil, "the server sends a response after an error, or an empty one")
			if st.Refused != nil {
				return true
			}
			got, err := Decode(Encode(u.Out), func(b *buffer) (*structs.UpdateResponse, error) { return structs.NewUpdateResponse(st.public, b) })
			if err == nil {
				err = st.sv.Verify(got)
			}
			if err != nil {
				st.Refused = err
			} else {
				st.Responses = append(st.Responses, got)
			}
		}
		return true
	default:
		return false
	}
}

// Drain reads until the stream ends or nothing more comes.
func (st *Stream) Drain() {
	for i := 0; !st.Closed && st.Read(); i++ {
		kit.Check(i < 1000, "the server keeps sending responses")
	}
}

func (st *Stream) String() string {
	return fmt.Sprintf("update of %q with %q: %d responses, closed %v, server error %v, refused by the client: %v", st.Label, st.Values, len(st.Responses), st.Closed, st.Err, st.Refused)
}
