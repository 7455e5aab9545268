package c25

import (
	"bytes"
	"context"
	"fmt"
	"reflect"
	"unsafe"

	"katiemc/kit"
	codecs "katiemc/oldcodecs"
	ldb "katiemc/oldldb"
	sim "katiemc/oldsim"
	toy "katiemc/oldtoy"
	common "katiemc/sim"

	"katiemc/old/crypto/commitments"
	"katiemc/old/crypto/suites"
	"katiemc/old/db"
	"katiemc/old/tree/transparency"
	"katiemc/old/tree/transparency/auditor"
	"katiemc/old/tree/transparency/structs"
	"katiemc/old/tree/transparency/wire"
)

type oldBuf = bytes.Buffer

// oldCast turns a type of the harness into the same type of the harness's copy
// for the other side.
func oldCast[To, From any](x *From) *To { return (*To)(unsafe.Pointer(x)) }

func oldSuite(name string) suites.CipherSuite {
	switch name {
	case "p256":
		return suites.KTSha256P256{}
	case "ed25519":
		return suites.KTSha256Ed25519{}
	}
	return toy.Default
}

func oldKey(b byte) []byte { return append(bytes.Repeat([]byte{b}, 31), 1) }

type oldWorld struct {
	w   *sim.World
	dir db.TransparencyStore
}

func oldNew(s setup) world {
	c := sim.Config(sim.Opts{Mode: structs.DeploymentMode(s.Mode), Window: s.Window, Lifetime: s.Lifetime, Lag: 1 << 40})
	var leaf suites.SigningPrivateKey
	if s.Suite != "toy" {
		cs := oldSuite(s.Suite)
		var err error
		c.Suite = cs
		c.SignatureKey, err = cs.ParseSigningPrivateKey(oldKey(3))
		kit.NoErr(err, "parsing a signature key")
		c.VrfKey, err = cs.ParseVRFPrivateKey(oldKey(5))
		kit.NoErr(err, "parsing a VRF key")
		if c.Mode == structs.ThirdPartyManagement {
			leaf, err = cs.ParseSigningPrivateKey(oldKey(4))
			kit.NoErr(err, "parsing a signature key")
			c.LeafPublicKey = leaf.Public()
		}
	}
	w := sim.NewWorld(c)
	w.Salt, w.Behind = s.Salt, s.Behind
	if leaf != nil {
		w.SignLeaf = func(l string, ver int, v string) []byte {
			sig, err := leaf.Sign(sim.Encode(&structs.UpdateTBS{Config: w.Public, Label: []byte(l), Version: uint32(ver), Value: []byte(v)}))
			kit.NoErr(err, "signing")
			return sig
		}
	}
	return &oldWorld{w: w}
}

func (n *oldWorld) Apply(s common.Step) error { return n.w.Apply(*oldCast[sim.Step](&s)) }
func (n *oldWorld) Size() uint64              { return n.w.Size() }

func (n *oldWorld) Last() record {
	w := n.w
	return record{
		Disk: oldCast[common.Disk](w.Disk.Copy()), Model: oldCast[common.Model](w.Model().Copy()),
		Audit: sim.Encode(w.Audit[len(w.Audit)-1]), Head: sim.Encode(w.Heads[len(w.Heads)-1]),
	}
}

func (n *oldWorld) Adopt(r record) {
	w := n.w
	w.Disk = oldCast[sim.Disk](r.Disk.Copy())
	w.Snaps = append(w.Snaps, oldCast[sim.Disk](r.Disk.Copy()))
	w.Models = append(w.Models, oldCast[sim.Model](r.Model.Copy()))
	w.Audit = append(w.Audit, sim.MustDecode(r.Audit, func(b *oldBuf) (*structs.AuditorUpdate, error) { return structs.NewAuditorUpdate(w.Config.Suite, b) }))
	w.Heads = append(w.Heads, sim.MustDecode(r.Head, structs.NewTreeHead))
}

// oldServer puts a server on the network.
type oldServer struct {
	s wire.Interface
	p *structs.PublicConfig
}

func oldReply(m interface{ Marshal(*oldBuf) error }, err error) ([]byte, error) {
	if err != nil {
		return nil, err
	}
	return sim.Encode(m), nil
}

func (s oldServer) Call(op string, req []byte) ([]byte, error) {
	ctx := context.Background()
	switch op {
	case "Search":
		res, err := s.s.Search(ctx, sim.MustDecode(req, structs.NewSearchRequest))
		if err != nil {
			return nil, err
		}
		return oldReply(res, nil)
	case "ContactMonitor":
		res, err := s.s.ContactMonitor(ctx, sim.MustDecode(req, structs.NewContactMonitorRequest))
		if err != nil {
			return nil, err
		}
		return oldReply(res, nil)
	case "OwnerInit":
		res, err := s.s.OwnerInit(ctx, sim.MustDecode(req, structs.NewOwnerInitRequest))
		if err != nil {
			return nil, err
		}
		return oldReply(res, nil)
	case "OwnerMonitor":
		res, err := s.s.OwnerMonitor(ctx, sim.MustDecode(req, structs.NewOwnerMonitorRequest))
		if err != nil {
			return nil, err
		}
		return oldReply(res, nil)
	}
	panic(op)
}

func (s oldServer) Update(ctx context.Context, managed bool, req []byte) (<-chan update, error) {
	var ch <-chan wire.UpdateResponse
	var err error
	if managed {
		ch, err = s.s.(wire.ManagerInterface).ManagerUpdate(ctx, sim.MustDecode(req, func(b *oldBuf) (*structs.ManagerUpdateRequest, error) {
			return structs.NewManagerUpdateRequest(s.p, b)
		}))
	} else {
		ch, err = s.s.Update(ctx, sim.MustDecode(req, structs.NewUpdateRequest))
	}
	if err != nil {
		return nil, err
	}
	out := make(chan update)
	go func() {
		defer close(out)
		for u := range ch {
			x := update{Err: u.Err}
			if u.Out != nil {
				x.Raw = sim.Encode(u.Out)
			}
			select {
			case out <- x:
			case <-ctx.Done():
				return
			}
		}
	}()
	return out, nil
}

// oldRemote is a server on the network, as a client sees it.
type oldRemote struct {
	s server
	p *structs.PublicConfig
}

func oldCall[T any](r oldRemote, op string, req interface{ Marshal(*oldBuf) error }, dec func(*oldBuf) (*T, error)) (*T, error) {
	raw, err := r.s.Call(op, sim.Encode(req))
	if err != nil {
		return nil, err
	}
	return sim.MustDecode(raw, dec), nil
}

func (r oldRemote) Search(_ context.Context, req *structs.SearchRequest) (*structs.SearchResponse, error) {
	return oldCall(r, "Search", req, func(b *oldBuf) (*structs.SearchResponse, error) { return structs.NewSearchResponse(r.p, req, b) })
}
func (r oldRemote) ContactMonitor(_ context.Context, req *structs.ContactMonitorRequest) (*structs.ContactMonitorResponse, error) {
	return oldCall(r, "ContactMonitor", req, func(b *oldBuf) (*structs.ContactMonitorResponse, error) {
		return structs.NewContactMonitorResponse(r.p, b)
	})
}
func (r oldRemote) OwnerInit(_ context.Context, req *structs.OwnerInitRequest) (*structs.OwnerInitResponse, error) {
	return oldCall(r, "OwnerInit", req, func(b *oldBuf) (*structs.OwnerInitResponse, error) { return structs.NewOwnerInitResponse(r.p, b) })
}
func (r oldRemote) OwnerMonitor(_ context.Context, req *structs.OwnerMonitorRequest) (*structs.OwnerMonitorResponse, error) {
	return oldCall(r, "OwnerMonitor", req, func(b *oldBuf) (*structs.OwnerMonitorResponse, error) {
		return structs.NewOwnerMonitorResponse(r.p, b)
	})
}
func (r oldRemote) stream(ctx context.Context, managed bool, req interface{ Marshal(*oldBuf) error }) (<-chan wire.UpdateResponse, error) {
	ch, err := r.s.Update(ctx, managed, sim.Encode(req))
	if err != nil {
		return nil, err
	}
	out := make(chan wire.UpdateResponse)
	go func() {
		defer close(out)
		for u := range ch {
			x := wire.UpdateResponse{Err: u.Err}
			if u.Raw != nil {
				x.Out, x.Err = sim.Decode(u.Raw, func(b *oldBuf) (*structs.UpdateResponse, error) { return structs.NewUpdateResponse(r.p, b) })
			}
			select {
			case out <- x:
			case <-ctx.Done():
				return
			}
		}
	}()
	return out, nil
}
func (r oldRemote) Update(ctx context.Context, req *structs.UpdateRequest) (<-chan wire.UpdateResponse, error) {
	return r.stream(ctx, false, req)
}
func (r oldRemote) ManagerUpdate(ctx context.Context, req *structs.ManagerUpdateRequest) (<-chan wire.UpdateResponse, error) {
	return r.stream(ctx, true, req)
}

func (n *oldWorld) Serve(size uint64) server { return oldServer{n.w.Server(size), n.w.Public} }

func (n *oldWorld) Do(s server, ph *common.Phone, a common.Action) common.Result {
	res := sim.Do(n.w.Public, oldRemote{s, n.w.Public}, oldCast[sim.Phone](ph), *oldCast[sim.Action](&a))
	return *oldCast[common.Result](&res)
}

func (n *oldWorld) CheckView(ph *common.Phone) { sim.CheckView(n.w, oldCast[sim.Phone](ph)) }

type oldSequencer struct {
	s *sim.Sequencer
}

func (n *oldWorld) Sequencer() sequencer { return oldSequencer{sim.NewSequencer(n.w)} }
func (q oldSequencer) Server() server {
	t, err := transparency.NewTree(q.s.W.Config, q.s.W.Disk.ReadOnly(), q.s.Ch)
	kit.NoErr(err, "opening the log")
	return oldServer{t, q.s.W.Public}
}
func (q oldSequencer) Take() bool                 { return q.s.Take() }
func (q oldSequencer) Seal(dt int64, answer bool) { q.s.Seal(dt, nil, answer) }

func (n *oldWorld) Front(s server, size uint64) server {
	return oldServer{n.w.Managed(oldRemote{s, n.w.Public}, n.w.Models[size]), n.w.Public}
}

type oldStream struct{ s *sim.Stream }

func (n *oldWorld) StartUpdate(s server, ph *common.Phone, label string, values []string) (stream, common.Result) {
	st, res := sim.StartUpdate(n.w.Public, oldRemote{s, n.w.Public}, oldCast[sim.Phone](ph), label, values)
	return oldStream{st}, *oldCast[common.Result](&res)
}
func (s oldStream) Drain()               { s.s.Drain() }
func (s oldStream) Closed() bool         { return s.s.Closed }
func (s oldStream) Errs() (error, error) { return s.s.Err, s.s.Refused }
func (s oldStream) Responses() int       { return len(s.s.Responses) }

func (n *oldWorld) Audit(state, upd []byte) (next, head []byte, err error) {
	store := &sim.AuditorDisk{Raw: state}
	a, err := auditor.NewAuditor(n.w.Public, sim.AuditorKey, store)
	if err != nil {
		return nil, nil, err
	}
	if upd != nil {
		u := sim.MustDecode(upd, func(b *oldBuf) (*structs.AuditorUpdate, error) { return structs.NewAuditorUpdate(n.w.Config.Suite, b) })
		if err := a.Process(u); err != nil {
			return nil, nil, err
		}
	}
	h, err := a.Commit()
	if err != nil {
		return nil, nil, err
	}
	return store.Raw, sim.Encode(h), nil
}

func (n *oldWorld) OpenDir(dir string) {
	s, err := ldb.Open(dir)
	kit.NoErr(err, "opening the database")
	n.dir, n.w.Store = s, s
}

func (n *oldWorld) CloseDir() {
	ldb.Close(n.dir)
	n.dir, n.w.Store = nil, nil
}

func (n *oldWorld) ServeDir() server {
	t, err := transparency.NewTree(n.w.Config, n.dir.Clone(), nil)
	kit.NoErr(err, "opening the log")
	return oldServer{t, n.w.Public}
}

type oldPrimitives struct{}

func (oldPrimitives) Constants(suite string) string {
	cs := oldSuite(suite)
	h := cs.Hash()
	h.Write([]byte("abc"))
	return fmt.Sprintf("id %d hash %x size %d opening %d key %x proof %d", cs.Id(), h.Sum(nil), cs.HashSize(), cs.CommitmentOpeningSize(), cs.CommitmentFixedBytes(), cs.VrfProofSize())
}

func (oldPrimitives) Keys(suite string, raw []byte) string {
	cs := oldSuite(suite)
	s, err := cs.ParseSigningPrivateKey(raw)
	kit.NoErr(err, "parsing a signature key")
	v, err := cs.ParseVRFPrivateKey(raw)
	kit.NoErr(err, "parsing a VRF key")
	return fmt.Sprintf("%x %x", s.Public().Bytes(), v.PublicKey().Bytes())
}

func (oldPrimitives) VRF(suite string, raw, input []byte) (out, proof, pub []byte) {
	v, err := oldSuite(suite).ParseVRFPrivateKey(raw)
	kit.NoErr(err, "parsing a VRF key")
	out, proof = v.Prove(input)
	return out, proof, v.PublicKey().Bytes()
}

func (oldPrimitives) VRFVerify(suite string, pub, input, proof []byte) ([]byte, error) {
	v, err := oldSuite(suite).ParseVRFPublicKey(pub)
	kit.NoErr(err, "parsing a VRF public key")
	return v.Verify(input, proof)
}

func (oldPrimitives) Sign(suite string, raw, msg []byte) (sig, pub []byte) {
	k, err := oldSuite(suite).ParseSigningPrivateKey(raw)
	kit.NoErr(err, "parsing a signature key")
	sig, err = k.Sign(msg)
	kit.NoErr(err, "signing")
	return sig, k.Public().Bytes()
}

func (oldPrimitives) Verify(suite string, pub, msg, sig []byte) bool {
	k, err := oldSuite(suite).ParseSigningPublicKey(pub)
	kit.NoErr(err, "parsing a signature public key")
	return k.Verify(msg, sig)
}

func (oldPrimitives) Commit(suite string, opening, body []byte) []byte {
	return commitments.Commit(oldSuite(suite), opening, body)
}

func (oldPrimitives) Encodings(suite string) (out []encoding) {
	for _, c := range codecs.All(oldSuite(suite)) {
		for i, v := range c.Values {
			raw, err := c.Enc(v)
			kit.NoErr(err, "encoding value %d of %s", i, c.Name)
			out = append(out, encoding{fmt.Sprintf("%s %d: %v", c.Name, i, codecs.Norm(reflect.ValueOf(v))), raw})
		}
	}
	return out
}

// TBS are encodings that are only ever hashed, signed or fed to the VRF.
func (oldPrimitives) TBS(suite string) (out []encoding) {
	cs := oldSuite(suite)
	add := func(name string, m interface{ Marshal(*oldBuf) error }) {
		out = append(out, encoding{fmt.Sprintf("%s %d", name, len(out)), sim.Encode(m)})
	}
	labels := [][]byte{{}, []byte("a"), []byte("ab"), bytes.Repeat([]byte("x"), 255)}
	values := [][]byte{{}, []byte("v"), bytes.Repeat([]byte("y"), 70000)}
	vers := []uint32{0, 1, 0x01020304, 1<<32 - 1}
	nums := []uint64{0, 1, 0x0102030405060708, 1<<64 - 1}
	for _, l := range labels {
		for _, v := range vers {
			add("VrfInput", &structs.VrfInput{Label: l, Version: v})
			for _, x := range values {
				for _, sig := range [][]byte{nil, []byte("s"), bytes.Repeat([]byte("z"), 300)} {
					add("CommitmentValue", &structs.CommitmentValue{Label: l, Version: v, Update: structs.UpdateValue{Value: x, UpdateSuffix: structs.UpdateSuffix{Signature: sig}}})
				}
			}
		}
	}
	for i := range 3 * 81 {
		num := func(k int) uint64 { return nums[(i/k+k)%4] }
		c := &structs.PublicConfig{SignatureKey: toy.SigKey("s").Public(), VrfKey: toy.VRFKey{Name: "v", Size: 20}.PublicKey(), Config: structs.Config{
			Suite: cs, Mode: structs.DeploymentMode(i%3 + 1), LeafPublicKey: toy.SigKey("leaf").Public(), AuditorPublicKey: toy.SigKey("auditor").Public(),
			MaxAuditorLag: num(3), AuditorStartPos: num(9), MaxAhead: num(27), MaxBehind: num(1), ReasonableMonitoringWindow: num(2), MaximumLifetime: num(5),
		}}
		add("PublicConfig", c)
		add("TreeHeadTBS", &structs.TreeHeadTBS{Config: c, TreeSize: num(4), Root: bytes.Repeat([]byte{byte(i)}, 32)})
		add("AuditorTreeHeadTBS", &structs.AuditorTreeHeadTBS{Config: c, Timestamp: num(7), TreeSize: num(11), Root: bytes.Repeat([]byte{byte(i)}, 32)})
		add("UpdateTBS", &structs.UpdateTBS{Config: c, Label: labels[i%4], Version: vers[i/2%4], Value: values[i/3%3]})
	}
	return out
}
