package c25

import (
	"bytes"
	"context"
	"fmt"
	"reflect"
	"unsafe"

	"katiemc/codecs"
	"katiemc/kit"
	"katiemc/ldb"
	"katiemc/sim"
	common "katiemc/sim"
	"katiemc/toy"

	"github.com/Bren2010/katie/crypto/commitments"
	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/tree/transparency/wire"
)

type newBuf = bytes.Buffer

// newCast turns a type of the harness into the same type of the harness's copy
// for the other side.
func newCast[To, From any](x *From) *To { return (*To)(unsafe.Pointer(x)) }

func newSuite(name string) suites.CipherSuite {
	switch name {
	case "p256":
		return suites.KTSha256P256{}
	case "ed25519":
		return suites.KTSha256Ed25519{}
	}
	return toy.Default
}

func newKey(b byte) []byte { return append(bytes.Repeat([]byte{b}, 31), 1) }

type newWorld struct {
	w   *sim.World
	dir db.TransparencyStore
}

func newNew(s setup) world {
	c := sim.Config(sim.Opts{Mode: structs.DeploymentMode(s.Mode), Window: s.Window, Lifetime: s.Lifetime, Lag: 1 << 40})
	var leaf suites.SigningPrivateKey
	if s.Suite != "toy" {
		cs := newSuite(s.Suite)
		var err error
		c.Suite = cs
		c.SignatureKey, err = cs.ParseSigningPrivateKey(newKey(3))
		kit.NoErr(err, "parsing a signature key")
		c.VrfKey, err = cs.ParseVRFPrivateKey(newKey(5))
		kit.NoErr(err, "parsing a VRF key")
		if c.Mode == structs.ThirdPartyManagement {
			leaf, err = cs.ParseSigningPrivateKey(newKey(4))
			kit.NoErr(err, "parsing a signature key")
			c.LeafPublicKey = leaf.Public()
		}
	}
	w := sim.NewWorld(c)
	w.Salt, w.Behind = s.Salt, s.Behind
	if leaf != nil {
		w.SignLeaf = func(l string, ver int, v string) []byte {
			sig, err := leaf.Sign(sim.Encode(&structs.UpdateTBS{Config: w.Public, Label: []byte(l), Version: uint32(ver), Value: []byte(v)}))
			kit.NoErr(err, "signing")
			return sig
		}
	}
	return &newWorld{w: w}
}

func (n *newWorld) Apply(s common.Step) error { return n.w.Apply(*newCast[sim.Step](&s)) }
func (n *newWorld) Size() uint64              { return n.w.Size() }

func (n *newWorld) Last() record {
	w := n.w
	return record{
		Disk: newCast[common.Disk](w.Disk.Copy()), Model: newCast[common.Model](w.Model().Copy()),
		Audit: sim.Encode(w.Audit[len(w.Audit)-1]), Head: sim.Encode(w.Heads[len(w.Heads)-1]),
	}
}

func (n *newWorld) Adopt(r record) {
	w := n.w
	w.Disk = newCast[sim.Disk](r.Disk.Copy())
	w.Snaps = append(w.Snaps, newCast[sim.Disk](r.Disk.Copy()))
	w.Models = append(w.Models, newCast[sim.Model](r.Model.Copy()))
	w.Audit = append(w.Audit, sim.MustDecode(r.Audit, func(b *newBuf) (*structs.AuditorUpdate, error) { return structs.NewAuditorUpdate(w.Config.Suite, b) }))
	w.Heads = append(w.Heads, sim.MustDecode(r.Head, structs.NewTreeHead))
}

// newServer puts a server on the network.
type newServer struct {
	s wire.Interface
	p *structs.PublicConfig
}

func newReply(m interface{ Marshal(*newBuf) error }, err error) ([]byte, error) {
	if err != nil {
		return nil, err
	}
	return sim.Encode(m), nil
}

func (s newServer) Call(op string, req []byte) ([]byte, error) {
	ctx := context.Background()
	switch op {
	case "Search":
		res, err := s.s.Search(ctx, sim.MustDecode(req, structs.NewSearchRequest))
		if err != nil {
			return nil, err
		}
		return newReply(res, nil)
	case "ContactMonitor":
		res, err := s.s.ContactMonitor(ctx, sim.MustDecode(req, structs.NewContactMonitorRequest))
		if err != nil {
			return nil, err
		}
		return newReply(res, nil)
	case "OwnerInit":
		res, err := s.s.OwnerInit(ctx, sim.MustDecode(req, structs.NewOwnerInitRequest))
		if err != nil {
			return nil, err
		}
		return newReply(res, nil)
	case "OwnerMonitor":
		res, err := s.s.OwnerMonitor(ctx, sim.MustDecode(req, structs.NewOwnerMonitorRequest))
		if err != nil {
			return nil, err
		}
		return newReply(res, nil)
	}
	panic(op)
}

func (s newServer) Update(ctx context.Context, managed bool, req []byte) (<-chan update, error) {
	var ch <-chan wire.UpdateResponse
	var err error
	if managed {
		ch, err = s.s.(wire.ManagerInterface).ManagerUpdate(ctx, sim.MustDecode(req, func(b *newBuf) (*structs.ManagerUpdateRequest, error) {
			return structs.NewManagerUpdateRequest(s.p, b)
		}))
	} else {
		ch, err = s.s.Update(ctx, sim.MustDecode(req, structs.NewUpdateRequest))
	}
	if err != nil {
		return nil, err
	}
	out := make(chan update)
	go func() {
		defer close(out)
		for u := range ch {
			x := update{Err: u.Err}
			if u.Out != nil {
				x.Raw = sim.Encode(u.Out)
			}
			select {
			case out <- x:
			case <-ctx.Done():
				return
			}
		}
	}()
	return out, nil
}

// newRemote is a server on the network, as a client sees it.
type newRemote struct {
	s server
	p *structs.PublicConfig
}

func newCall[T any](r newRemote, op string, req interface{ Marshal(*newBuf) error }, dec func(*newBuf) (*T, error)) (*T, error) {
	raw, err := r.s.Call(op, sim.Encode(req))
	if err != nil {
		return nil, err
	}
	return sim.MustDecode(raw, dec), nil
}

func (r newRemote) Search(_ context.Context, req *structs.SearchRequest) (*structs.SearchResponse, error) {
	return newCall(r, "Search", req, func(b *newBuf) (*structs.SearchResponse, error) { return structs.NewSearchResponse(r.p, req, b) })
}
func (r newRemote) ContactMonitor(_ context.Context, req *structs.ContactMonitorRequest) (*structs.ContactMonitorResponse, error) {
	return newCall(r, "ContactMonitor", req, func(b *newBuf) (*structs.ContactMonitorResponse, error) {
		return structs.NewContactMonitorResponse(r.p, b)
	})
}
func (r newRemote) OwnerInit(_ context.Context, req *structs.OwnerInitRequest) (*structs.OwnerInitResponse, error) {
	return newCall(r, "OwnerInit", req, func(b *newBuf) (*structs.OwnerInitResponse, error) { return structs.NewOwnerInitResponse(r.p, b) })
}
func (r newRemote) OwnerMonitor(_ context.Context, req *structs.OwnerMonitorRequest) (*structs.OwnerMonitorResponse, error) {
	return newCall(r, "OwnerMonitor", req, func(b *newBuf) (*structs.OwnerMonitorResponse, error) {
		return structs.NewOwnerMonitorResponse(r.p, b)
	})
}
func (r newRemote) stream(ctx context.Context, managed bool, req interface{ Marshal(*newBuf) error }) (<-chan wire.UpdateResponse, error) {
	ch, err := r.s.Update(ctx, managed, sim.Encode(req))
	if err != nil {
		return nil, err
	}
	out := make(chan wire.UpdateResponse)
	go func() {
		defer close(out)
		for u := range ch {
			x := wire.UpdateResponse{Err: u.Err}
			if u.Raw != nil {
				x.Out, x.Err = sim.Decode(u.Raw, func(b *newBuf) (*structs.UpdateResponse, error) { return structs.NewUpdateResponse(r.p, b) })
			}
			select {
			case out <- x:
			case <-ctx.Done():
				return
			}
		}
	}()
	return out, nil
}
func (r newRemote) Update(ctx context.Context, req *structs.UpdateRequest) (<-chan wire.UpdateResponse, error) {
	return r.stream(ctx, false, req)
}
func (r newRemote) ManagerUpdate(ctx context.Context, req *structs.ManagerUpdateRequest) (<-chan wire.UpdateResponse, error) {
	return r.stream(ctx, true, req)
}

func (n *newWorld) Serve(size uint64) server { return newServer{n.w.Server(size), n.w.Public} }

func (n *newWorld) Do(s server, ph *common.Phone, a common.Action) common.Result {
	res := sim.Do(n.w.Public, newRemote{s, n.w.Public}, newCast[sim.Phone](ph), *newCast[sim.Action](&a))
	return *newCast[common.Result](&res)
}

func (n *newWorld) CheckView(ph *common.Phone) { sim.CheckView(n.w, newCast[sim.Phone](ph)) }

type newSequencer struct {
	s *sim.Sequencer
}

func (n *newWorld) Sequencer() sequencer { return newSequencer{sim.NewSequencer(n.w)} }
func (q newSequencer) Server() server {
	t, err := transparency.NewTree(q.s.W.Config, q.s.W.Disk.ReadOnly(), q.s.Ch)
	kit.NoErr(err, "opening the log")
	return newServer{t, q.s.W.Public}
}
func (q newSequencer) Take() bool                 { return q.s.Take() }
func (q newSequencer) Seal(dt int64, answer bool) { q.s.Seal(dt, nil, answer) }

func (n *newWorld) Front(s server, size uint64) server {
	return newServer{n.w.Managed(newRemote{s, n.w.Public}, n.w.Models[size]), n.w.Public}
}

type newStream struct{ s *sim.Stream }

func (n *newWorld) StartUpdate(s server, ph *common.Phone, label string, values []string) (stream, common.Result) {
	st, res := sim.StartUpdate(n.w.Public, newRemote{s, n.w.Public}, newCast[sim.Phone](ph), label, values)
	return newStream{st}, *newCast[common.Result](&res)
}
func (s newStream) Drain()               { s.s.Drain() }
func (s newStream) Closed() bool         { return s.s.Closed }
func (s newStream) Errs() (error, error) { return s.s.Err, s.s.Refused }
func (s newStream) Responses() int       { return len(s.s.Responses) }

func (n *newWorld) Audit(state, upd []byte) (next, head []byte, err error) {
	store := &sim.AuditorDisk{Raw: state}
	a, err := auditor.NewAuditor(n.w.Public, sim.AuditorKey, store)
	if err != nil {
		return nil, nil, err
	}
	if upd != nil {
		u := sim.MustDecode(upd, func(b *newBuf) (*structs.AuditorUpdate, error) { return structs.NewAuditorUpdate(n.w.Config.Suite, b) })
		if err := a.Process(u); err != nil {
			return nil, nil, err
		}
	}
	h, err := a.Commit()
	if err != nil {
		return nil, nil, err
	}
	return store.Raw, sim.Encode(h), nil
}

func (n *newWorld) OpenDir(dir string) {
	s, err := ldb.Open(dir)
	kit.NoErr(err, "opening the database")
	n.dir, n.w.Store = s, s
}

func (n *newWorld) CloseDir() {
	ldb.Close(n.dir)
	n.dir, n.w.Store = nil, nil
}

func (n *newWorld) ServeDir() server {
	t, err := transparency.NewTree(n.w.Config, n.dir.Clone(), nil)
	kit.NoErr(err, "opening the log")
	return newServer{t, n.w.Public}
}

type newPrimitives struct{}

func (newPrimitives) Constants(suite string) string {
	cs := newSuite(suite)
	h := cs.Hash()
	h.Write([]byte("abc"))
	return fmt.Sprintf("id %d hash %x size %d opening %d key %x proof %d", cs.Id(), h.Sum(nil), cs.HashSize(), cs.CommitmentOpeningSize(), cs.CommitmentFixedBytes(), cs.VrfProofSize())
}

func (newPrimitives) Keys(suite string, raw []byte) string {
	cs := newSuite(suite)
	s, err := cs.ParseSigningPrivateKey(raw)
	kit.NoErr(err, "parsing a signature key")
	v, err := cs.ParseVRFPrivateKey(raw)
	kit.NoErr(err, "parsing a VRF key")
	return fmt.Sprintf("%x %x", s.Public().Bytes(), v.PublicKey().Bytes())
}

func (newPrimitives) VRF(suite string, raw, input []byte) (out, proof, pub []byte) {
	v, err := newSuite(suite).ParseVRFPrivateKey(raw)
	kit.NoErr(err, "parsing a VRF key")
	out, proof = v.Prove(input)
	return out, proof, v.PublicKey().Bytes()
}

func (newPrimitives) VRFVerify(suite string, pub, input, proof []byte) ([]byte, error) {
	v, err := newSuite(suite).ParseVRFPublicKey(pub)
	kit.NoErr(err, "parsing a VRF public key")
	return v.Verify(input, proof)
}

func (newPrimitives) Sign(suite string, raw, msg []byte) (sig, pub []byte) {
	k, err := newSuite(suite).ParseSigningPrivateKey(raw)
	kit.NoErr(err, "parsing a signature key")
	sig, err = k.Sign(msg)
	kit.NoErr(err, "signing")
	return sig, k.Public().Bytes()
}

func (newPrimitives) Verify(suite string, pub, msg, sig []byte) bool {
	k, err := newSuite(suite).ParseSigningPublicKey(pub)
	kit.NoErr(err, "parsing a signature public key")
	return k.Verify(msg, sig)
}

func (newPrimitives) Commit(suite string, opening, body []byte) []byte {
	return commitments.Commit(newSuite(suite), opening, body)
}

func (newPrimitives) Encodings(suite string) (out []encoding) {
	for _, c := range codecs.All(newSuite(suite)) {
		for i, v := range c.Values {
			raw, err := c.Enc(v)
			kit.NoErr(err, "encoding value %d of %s", i, c.Name)
			out = append(out, encoding{fmt.Sprintf("%s %d: %v", c.Name, i, codecs.Norm(reflect.ValueOf(v))), raw})
		}
	}
	return out
}

// TBS are encodings that are only ever hashed, signed or fed to the VRF.
func (newPrimitives) TBS(suite string) (out []encoding) {
	cs := newSuite(suite)
	add := func(name string, m interface{ Marshal(*newBuf) error }) {
		out = append(out, encoding{fmt.Sprintf("%s %d", name, len(out)), sim.Encode(m)})
	}
	labels := [][]byte{{}, []byte("a"), []byte("ab"), bytes.Repeat([]byte("x"), 255)}
	values := [][]byte{{}, []byte("v"), bytes.Repeat([]byte("y"), 70000)}
	vers := []uint32{0, 1, 0x01020304, 1<<32 - 1}
	nums := []uint64{0, 1, 0x0102030405060708, 1<<64 - 1}
	for _, l := range labels {
		for _, v := range vers {
			add("VrfInput", &structs.VrfInput{Label: l, Version: v})
			for _, x := range values {
				for _, sig := range [][]byte{nil, []byte("s"), bytes.Repeat([]byte("z"), 300)} {
					add("CommitmentValue", &structs.CommitmentValue{Label: l, Version: v, Update: structs.UpdateValue{Value: x, UpdateSuffix: structs.UpdateSuffix{Signature: sig}}})
				}
			}
		}
	}
	for i := range 3 * 81 {
		num := func(k int) uint64 { return nums[(i/k+k)%4] }
		c := &structs.PublicConfig{SignatureKey: toy.SigKey("s").Public(), VrfKey: toy.VRFKey{Name: "v", Size: 20}.PublicKey(), Config: structs.Config{
			Suite: cs, Mode: structs.DeploymentMode(i%3 + 1), LeafPublicKey: toy.SigKey("leaf").Public(), AuditorPublicKey: toy.SigKey("auditor").Public(),
			MaxAuditorLag: num(3), AuditorStartPos: num(9), MaxAhead: num(27), MaxBehind: num(1), ReasonableMonitoringWindow: num(2), MaximumLifetime: num(5),
		}}
		add("PublicConfig", c)
		add("TreeHeadTBS", &structs.TreeHeadTBS{Config: c, TreeSize: num(4), Root: bytes.Repeat([]byte{byte(i)}, 32)})
		add("AuditorTreeHeadTBS", &structs.AuditorTreeHeadTBS{Config: c, Timestamp: num(7), TreeSize: num(11), Root: bytes.Repeat([]byte{byte(i)}, 32)})
		add("UpdateTBS", &structs.UpdateTBS{Config: c, Label: labels[i%4], Version: vers[i/2%4], Value: values[i/3%3]})
	}
	return out
}
