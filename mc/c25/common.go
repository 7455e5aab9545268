// Package c25 pairs the current tree with the published release.
package c25

import (
	"context"

	"katiemc/sim"
)

// setup is a deployment, in terms that both sides understand.
type setup struct {
	Mode     byte
	Window   uint64
	Lifetime uint64
	Suite    string // toy, p256, ed25519
	Salt     string
	Behind   int
}

// record is what a side leaves behind when it adds an entry to the log: bytes,
// and what the harness knows about the log.
type record struct {
	Disk        *sim.Disk
	Model       *sim.Model
	Audit, Head []byte
}

// update is an element of an update stream on the wire.
type update struct {
	Raw []byte
	Err error
}

// server is one that is reached over the network.
type server interface {
	Call(op string, req []byte) ([]byte, error)
	Update(ctx context.Context, managed bool, req []byte) (<-chan update, error)
}

// stream is an update request of a client.
type stream interface {
	Drain()
	Closed() bool
	Errs() (server, refused error)
	Responses() int
}

// sequencer takes update requests on behalf of the log.
type sequencer interface {
	Server() server
	Take() bool
	Seal(dt int64, answer bool)
}

// world is a log, as one of the sides sees it.
type world interface {
	Apply(s sim.Step) error
	Last() record
	Adopt(record)
	Size() uint64
	Serve(size uint64) server
	Do(s server, ph *sim.Phone, a sim.Action) sim.Result
	CheckView(ph *sim.Phone)
	Sequencer() sequencer
	Front(s server, size uint64) server // the service operator's
	StartUpdate(s server, ph *sim.Phone, label string, values []string) (stream, sim.Result)
	Audit(state, upd []byte) (next, head []byte, err error)
	OpenDir(dir string)
	CloseDir()
	ServeDir() server
}

// primitives are functions whose results leave the process.
type primitives interface {
	Constants(suite string) string
	Keys(suite string, raw []byte) (public string)
	VRF(suite string, raw, input []byte) (out, proof, pub []byte)
	VRFVerify(suite string, pub, input, proof []byte) ([]byte, error)
	Sign(suite string, raw, msg []byte) (sig, pub []byte)
	Verify(suite string, pub, msg, sig []byte) bool
	Commit(suite string, opening, body []byte) []byte
	Encodings(suite string) []encoding
	TBS(suite string) []encoding
}

type encoding struct {
	Name string
	Raw  []byte
}
