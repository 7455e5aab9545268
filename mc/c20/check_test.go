// C20: commitments and signatures bind every field they cover.
package c20

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/bits"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"katiemc/kit"
	"katiemc/sim"
	"katiemc/toy"

	"github.com/Bren2010/katie/crypto/commitments"
	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

var real = []struct {
	Name string
	CS   suites.CipherSuite
}{{"p256", suites.KTSha256P256{}}, {"ed25519", suites.KTSha256Ed25519{}}}

type item struct {
	what string // canonical description of the tuple
	m    structs.Marshaller
}

// injective demands that distinct tuples have distinct encodings.
func injective(r *kit.Run, name string, items []item) {
	seen := map[string]string{}
	for _, it := range items {
		r.Try(func() any { return map[string]any{"encoding": name, "tuple": it.what} }, func() {
			r.Eval()
			raw, err := structs.Marshal(it.m)
			kit.NoErr(err, "%s: encoding %s", name, it.what)
			again, err := structs.Marshal(it.m)
			kit.Check(err == nil && bytes.Equal(raw, again), "%s: encoding %s twice gives different bytes", name, it.what)
			if o, ok := seen[string(raw)]; ok && o != it.what {
				kit.Failf("%s: %s and %s have the same encoding %x", name, o, it.what, raw)
			}
			seen[string(raw)] = it.what
		})
	}
	r.Count("distinct_encodings", int64(len(seen)))
	for k := range seen {
		r.Distinct(name + k)
	}
}

func short(b []byte) string {
	if len(b) > 24 {
		h := sha256.Sum256(b)
		return fmt.Sprintf("%d bytes/%x", len(b), h[:4])
	}
	return fmt.Sprintf("%x", b)
}

func labels() [][]byte {
	out := [][]byte{{}, {0}, {0, 0}, {1}, {'a'}, {'a', 'a'}, {0, 0, 0, 0}, {0, 0, 0, 0, 0}, {'a', 0, 0, 0, 0}, {1, 'a'}, {0, 0, 0, 1}, {0, 0, 0, 1, 0, 0, 0, 0}}
	for _, n := range []int{253, 254, 255} {
		out = append(out, make([]byte, n), bytes.Repeat([]byte{0xff}, n))
	}
	return out
}

func values() [][]byte {
	return [][]byte{{}, {0}, {0, 0}, {'a'}, {'a', 'a'}, {0, 0, 0, 0}, {0, 0, 0, 1}, {1}, {0, 1, 'a'}, make([]byte, 255), make([]byte, 256), make([]byte, 257), make([]byte, 65535), make([]byte, 65536), bytes.Repeat([]byte{1}, 256)}
}

var versions = []uint32{0, 1, 2, 255, 256, 257, 1 << 16, 1 << 24, 0x61000000, 0x00616161, 1<<32 - 1}

// configs enumerates deployments over the given number alphabet.
func configs(cs suites.CipherSuite, nums []uint64) []*structs.PublicConfig {
	var out []*structs.PublicConfig
	keys := []toy.SigKey{"k", "kk"}
	vrfs := []string{"k", "kk"}
	for _, mode := range []structs.DeploymentMode{structs.ContactMonitoring, structs.ThirdPartyManagement, structs.ThirdPartyAuditing} {
		for _, sk := range keys {
			for _, vk := range vrfs {
				for i := range pow(len(nums), 4) {
					base := structs.Config{Suite: cs, Mode: mode, MaxAhead: nums[i%len(nums)], MaxBehind: nums[i/len(nums)%len(nums)],
						ReasonableMonitoringWindow: nums[i/len(nums)/len(nums)%len(nums)], MaximumLifetime: nums[i/len(nums)/len(nums)/len(nums)]}
					add := func(c structs.Config) {
						out = append(out, &structs.PublicConfig{SignatureKey: sk.Public(), VrfKey: toy.VRFKey{Name: vk, Size: 20}.PublicKey(), Config: c})
					}
					switch mode {
					case structs.ContactMonitoring:
						add(base)
					case structs.ThirdPartyManagement:
						for _, lk := range keys {
							base.LeafPublicKey = lk.Public()
							add(base)
						}
					case structs.ThirdPartyAuditing:
						for _, ak := range keys {
							for j := range len(nums) * len(nums) {
								base.AuditorPublicKey, base.MaxAuditorLag, base.AuditorStartPos = ak.Public(), nums[j%len(nums)], nums[j/len(nums)]
								add(base)
							}
						}
					}
				}
			}
		}
	}
	return out
}

func pow(a, b int) int {
	n := 1
	for range b {
		n *= a
	}
	return n
}

func key(k suites.SigningPublicKey) string {
	if k == nil {
		return "none"
	}
	return short(k.Bytes())
}

func show(c *structs.PublicConfig) string {
	return fmt.Sprintf("{suite %d mode %d sig %s vrf %s leaf %s auditor %s lag %d start %d ahead %d behind %d window %d lifetime %d}", c.Suite.Id(), c.Mode, key(c.SignatureKey), short(c.VrfKey.Bytes()),
		key(c.LeafPublicKey), key(c.AuditorPublicKey), c.MaxAuditorLag, c.AuditorStartPos, c.MaxAhead, c.MaxBehind, c.ReasonableMonitoringWindow, c.MaximumLifetime)
}

func encodings(r *kit.Run) {
	nums := kit.Pick(r, []uint64{0, 1, 256, 1 << 56}, []uint64{0, 1, 2, 255, 256, 1 << 32, 1 << 56})
	var its []item
	var few []*structs.PublicConfig
	for _, cs := range []suites.CipherSuite{real[0].CS, real[1].CS, toy.Default} {
		for i, c := range configs(cs, nums) {
			its = append(its, item{show(c), c})
			if i%997 == 0 {
				few = append(few, c)
			}
		}
	}
	injective(r, "configuration", its)

	var vrf []item
	for _, l := range labels() {
		for _, v := range versions {
			vrf = append(vrf, item{fmt.Sprintf("(%s,%d)", short(l), v), &structs.VrfInput{Label: l, Version: v}})
		}
	}
	injective(r, "vrf input", vrf)

	roots := [][]byte{make([]byte, 32), bytes.Repeat([]byte{1}, 32), append(make([]byte, 31), 1), append([]byte{1}, make([]byte, 31)...)}
	sizes := []uint64{0, 1, 2, 255, 256, 1 << 32, 1<<63 - 1, 1 << 63}
	var heads []item
	for _, c := range few {
		for _, n := range sizes {
			for _, root := range roots {
				heads = append(heads, item{fmt.Sprintf("head %s size %d root %x", show(c), n, root), &structs.TreeHeadTBS{Config: c, TreeSize: n, Root: root}})
				for _, ts := range sizes {
					heads = append(heads, item{fmt.Sprintf("auditor head %s time %d size %d root %x", show(c), ts, n, root), &structs.AuditorTreeHeadTBS{Config: c, Timestamp: ts, TreeSize: n, Root: root}})
				}
			}
		}
	}
	injective(r, "tree heads", heads)

	var leaves []item
	for _, ts := range sizes {
		for _, root := range roots {
			leaves = append(leaves, item{fmt.Sprintf("time %d root %x", ts, root), &structs.LogEntry{Timestamp: ts, PrefixTree: root}})
		}
	}
	injective(r, "log entry", leaves)

	for _, c := range few[:min(len(few), 4)] {
		var ups []item
		for _, l := range labels() {
			for _, v := range versions {
				for _, val := range values() {
					ups = append(ups, item{fmt.Sprintf("%s label %s version %d value %s", show(c), short(l), v, short(val)), &structs.UpdateTBS{Config: c, Label: l, Version: v, Value: val}})
				}
			}
		}
		injective(r, "update", ups)
	}
	for _, sigs := range [][][]byte{{nil}, {{}, {0}, {0, 0}, []byte("aa"), make([]byte, 64)}} {
		var cv []item
		for _, l := range labels() {
			for _, v := range versions {
				for _, val := range values() {
					for _, s := range sigs {
						cv = append(cv, item{fmt.Sprintf("label %s version %d value %s signature %s", short(l), v, short(val), short(s)), &structs.CommitmentValue{Label: l, Version: v, Update: structs.UpdateValue{Value: val, UpdateSuffix: structs.UpdateSuffix{Signature: s}}}})
					}
				}
			}
		}
		injective(r, "committed value", cv)
	}

	// Too long for its length field.
	long := make([]byte, 256)
	for _, it := range []item{
		{"vrf input", &structs.VrfInput{Label: long}},
		{"update", &structs.UpdateTBS{Config: few[0], Label: long}},
		{"committed value", &structs.CommitmentValue{Label: long}},
		{"committed value signature", &structs.CommitmentValue{Update: structs.UpdateValue{UpdateSuffix: structs.UpdateSuffix{Signature: make([]byte, 65536)}}}},
	} {
		r.Try(func() any { return it.what }, func() {
			r.Eval()
			_, err := structs.Marshal(it.m)
			kit.Check(err != nil, "%s with an overlong field is encoded", it.what)
		})
	}
}

// opens enumerates pairs of (opening, label, version, value, signature).
func opens(r *kit.Run) {
	type tuple struct {
		what          string
		opening, body []byte
	}
	for _, s := range append(real, struct {
		Name string
		CS   suites.CipherSuite
	}{"toy", toy.Default}) {
		size := s.CS.CommitmentOpeningSize()
		var openings [][]byte
		openings = append(openings, make([]byte, size), bytes.Repeat([]byte{0xff}, size))
		for i := range size {
			o := make([]byte, size)
			o[i] = 1
			openings = append(openings, o)
		}
		var ts []tuple
		ls := [][]byte{{}, {0}, {'a'}, {'a', 'a'}, {1, 'a'}, make([]byte, 255)}
		vs := [][]byte{{}, {0}, {'a'}, {0, 0, 0, 1}, make([]byte, 256)}
		for _, o := range openings {
			for _, l := range ls {
				for _, ver := range []uint32{0, 1, 256} {
					for _, v := range vs {
						for _, sig := range [][]byte{nil} {
							raw, err := structs.Marshal(&structs.CommitmentValue{Label: l, Version: ver, Update: structs.UpdateValue{Value: v, UpdateSuffix: structs.UpdateSuffix{Signature: sig}}})
							kit.NoErr(err, "encoding")
							ts = append(ts, tuple{fmt.Sprintf("(opening %x label %s version %d value %s)", o, short(l), ver, short(v)), o, raw})
						}
					}
				}
			}
		}
		cs := make([][]byte, len(ts))
		seen := map[string]string{}
		for i, t := range ts {
			r.Try(func() any { return t.what }, func() {
				r.Eval()
				cs[i] = commitments.Commit(s.CS, t.opening, t.body)
				kit.Check(len(cs[i]) == s.CS.HashSize(), "commitment has %d bytes", len(cs[i]))
				kit.Check(bytes.Equal(cs[i], commitments.Commit(s.CS, bytes.Clone(t.opening), bytes.Clone(t.body))), "committing twice gives different commitments")
				if o, ok := seen[string(cs[i])]; ok {
					kit.Failf("%s: %s and %s share a commitment", s.Name, o, t.what)
				}
				seen[string(cs[i])] = t.what
				for k := range len(cs[i]) * 8 {
					bad := bytes.Clone(cs[i])
					bad[k/8] ^= 1 << (k % 8)
					kit.Check(!commitments.Verify(s.CS, t.opening, t.body, bad), "%s: a commitment with bit %d flipped opens", s.Name, k)
				}
				for _, n := range []int{0, 1, 16, 31} {
					kit.Check(!commitments.Verify(s.CS, t.opening, t.body, cs[i][:n]), "%s: a commitment cut to %d bytes opens", s.Name, n)
				}
				kit.Check(!commitments.Verify(s.CS, t.opening, t.body, append(bytes.Clone(cs[i]), 0)), "%s: an extended commitment opens", s.Name)
			})
		}
		step := kit.Pick(r, 7, 1)
		r.Parallel(len(ts), func(i int) {
			r.Try(func() any { return map[string]any{"suite": s.Name, "commitment of": ts[i].what} }, func() {
				for j := range ts {
					if j != i && (i+j)%step != 0 {
						continue
					}
					r.Eval()
					ok := commitments.Verify(s.CS, ts[j].opening, ts[j].body, cs[i])
					kit.Check(ok == (i == j), "%s: the commitment to %s opens as %s: %v", s.Name, ts[i].what, ts[j].what, ok)
				}
			})
		})
	}
}

// signatures of the real suites.
func signatures(r *kit.Run) {
	for _, s := range real {
		raws := [][]byte{bytes.Repeat([]byte{7}, 32), append(make([]byte, 31), 1), append(make([]byte, 30), 1, 2)}
		var privs []suites.SigningPrivateKey
		var pubs []suites.SigningPublicKey
		for _, raw := range raws {
			r.Try(func() any { return map[string]any{"suite": s.Name, "key": fmt.Sprintf("%x", raw)} }, func() {
				p, err := s.CS.ParseSigningPrivateKey(bytes.Clone(raw))
				kit.NoErr(err, "parsing the private key")
				wire := p.Public().Bytes()
				pub, err := s.CS.ParseSigningPublicKey(bytes.Clone(wire))
				kit.NoErr(err, "parsing the public key")
				kit.Check(bytes.Equal(pub.Bytes(), wire), "the public key does not round-trip")
				privs, pubs = append(privs, p), append(pubs, pub)
				for n := range len(wire) + 3 {
					if n == len(wire) {
						continue
					}
					b := append(bytes.Clone(wire), 0, 0)[:n]
					_, err := s.CS.ParseSigningPublicKey(b)
					kit.Check(err != nil, "a public key of %d bytes is accepted", n)
				}
				for n := range len(raw) + 3 {
					if n == len(raw) {
						continue
					}
					_, err := s.CS.ParseSigningPrivateKey(append(bytes.Clone(raw), 0, 0)[:n])
					kit.Check(err != nil, "a private key of %d bytes is accepted", n)
				}
			})
		}
		// Many signatures, so that short r and s values come up.
		n := kit.Pick(r, 4000, 60000)
		r.Parallel(n, func(i int) {
			msg := []byte(fmt.Sprintf("message %d", i))
			r.Try(func() any { return map[string]any{"suite": s.Name, "message": string(msg)} }, func() {
				r.Eval()
				k := i % len(privs)
				sig, err := privs[k].Sign(msg)
				kit.NoErr(err, "signing")
				kit.Check(pubs[k].Verify(msg, sig) && privs[k].Public().Verify(msg, sig), "an honest signature %x is refused", sig)
				kit.Check(!pubs[(k+1)%len(pubs)].Verify(msg, sig), "a signature verifies under another key")
				kit.Check(!pubs[k].Verify(append(msg, 0), sig), "a signature verifies for an extended message")
				if sig[0] == 0 || sig[32] == 0 {
					r.Outcome("signature with a leading zero")
				}
			})
		})
		msg := []byte("a message of several words, for the record")
		r.Parallel(kit.Pick(r, 3, 24), func(i int) {
			k := i % len(privs)
			r.Try(func() any { return map[string]any{"suite": s.Name, "signature": i} }, func() {
				m := append(bytes.Clone(msg), byte(i))
				sig, err := privs[k].Sign(m)
				kit.NoErr(err, "signing")
				for b := range len(sig) * 8 {
					r.Eval()
					bad := bytes.Clone(sig)
					bad[b/8] ^= 1 << (b % 8)
					kit.Check(!pubs[k].Verify(m, bad), "signature bit %d does not matter", b)
				}
				for b := range len(m) * 8 {
					r.Eval()
					bad := bytes.Clone(m)
					bad[b/8] ^= 1 << (b % 8)
					kit.Check(!pubs[k].Verify(bad, sig), "message bit %d does not matter", b)
				}
				for l := range len(sig) + 4 {
					r.Eval()
					if l != len(sig) {
						kit.Check(!pubs[k].Verify(m, append(bytes.Clone(sig), 0, 0, 0, 0)[:l]), "a signature of %d bytes is accepted", l)
					}
				}
				for l := range len(m) {
					kit.Check(!pubs[k].Verify(m[:l], sig), "message cut to %d bytes is accepted", l)
				}
				kit.Check(!pubs[k].Verify(m, nil) && !pubs[k].Verify(nil, sig) && !pubs[k].Verify(m, make([]byte, len(sig))) && !pubs[k].Verify(m, bytes.Repeat([]byte{0xff}, len(sig))), "a trivial signature is accepted")
			})
		})
	}
}

// variants are deployments differing from the base in exactly one field.
func variants(c structs.PrivateConfig) map[string]structs.PrivateConfig {
	out := map[string]structs.PrivateConfig{}
	add := func(n string, f func(*structs.PrivateConfig)) {
		v := c
		f(&v)
		out[n] = v
	}
	add("signature key", func(v *structs.PrivateConfig) { v.SignatureKey = toy.SigKey("other") })
	add("vrf key", func(v *structs.PrivateConfig) { v.VrfKey = toy.VRFKey{Name: "other", Size: toy.Default.Proof} })
	add("suite", func(v *structs.PrivateConfig) { s := toy.Default; s.ID++; v.Suite = s })
	for n, f := range map[string]func(*structs.PrivateConfig) *uint64{
		"max ahead":    func(v *structs.PrivateConfig) *uint64 { return &v.MaxAhead },
		"max behind":   func(v *structs.PrivateConfig) *uint64 { return &v.MaxBehind },
		"window":       func(v *structs.PrivateConfig) *uint64 { return &v.ReasonableMonitoringWindow },
		"max lifetime": func(v *structs.PrivateConfig) *uint64 { return &v.MaximumLifetime },
	} {
		add(n+"+1", func(v *structs.PrivateConfig) { *f(v)++ })
		add(n+" high bit", func(v *structs.PrivateConfig) { *f(v) ^= 1 << 50 })
	}
	switch c.Mode {
	case structs.ThirdPartyManagement:
		add("leaf key", func(v *structs.PrivateConfig) { v.LeafPublicKey = toy.SigKey("other").Public() })
	case structs.ThirdPartyAuditing:
		add("auditor key", func(v *structs.PrivateConfig) { v.AuditorPublicKey = toy.SigKey("other").Public() })
		add("auditor lag", func(v *structs.PrivateConfig) { v.MaxAuditorLag++ })
		add("auditor start", func(v *structs.PrivateConfig) { v.AuditorStartPos++ })
	}
	for _, m := range []structs.DeploymentMode{structs.ContactMonitoring, structs.ThirdPartyManagement, structs.ThirdPartyAuditing} {
		if m != c.Mode {
			add(fmt.Sprintf("mode %d", m), func(v *structs.PrivateConfig) {
				v.Mode, v.LeafPublicKey, v.AuditorPublicKey, v.MaxAuditorLag, v.AuditorStartPos = m, nil, nil, 0, 0
				switch m {
				case structs.ThirdPartyManagement:
					v.LeafPublicKey = sim.LeafKey.Public()
				case structs.ThirdPartyAuditing:
					v.AuditorPublicKey, v.MaxAuditorLag = sim.AuditorKey.Public(), 1<<40
				}
			})
		}
	}
	return out
}

// A signer that can be told to sign something else than it is asked to.
type forger struct {
	toy.SigKey
	f func(m []byte) []byte
}

func (f forger) Sign(m []byte) ([]byte, error) { return f.SigKey.Sign(f.f(m)) }

// deployments runs whole searches where one party signed under one deployment
// and the client uses another.
func deployments(t *testing.T, r *kit.Run) {
	run := func(name string, f func()) {
		synctest.Test(t, func(*testing.T) {
			r.Try(func() any { return name }, func() { r.Trace(); f() })
		})
	}
	qs := []sim.Query{{Label: "A", Version: -1}, {Label: "A", Version: 0}, {Label: "Z", Version: -1}}
	opts := map[string]sim.Opts{
		"plain":   {Window: 1000, Lifetime: 1 << 45},
		"managed": {Window: 1000, Lifetime: 1 << 45, Mode: structs.ThirdPartyManagement},
		"audited": {Window: 1000, Lifetime: 1 << 45, Mode: structs.ThirdPartyAuditing, Lag: 1 << 40, StartPos: 1},
	}
	hist := []sim.Step{{DT: 1, Put: []sim.Put{{Label: "A", Count: 1}}}, {DT: 700, Put: []sim.Put{{Label: "B", Count: 1}}}, {DT: 700, Put: []sim.Put{{Label: "A", Count: 1}}}, {DT: 700}}
	accepted := func(a sim.Answer) bool { return a.Kind == "value" || a.Kind == "notfound" || a.Kind == "expired" }
	// ask performs the query with a response made by server s for client c.
	ask := func(s, c *sim.World, q sim.Query, p *sim.Phone, edit func(*structs.SearchResponse)) sim.Answer {
		req, verify, err := q.Request(c.Client(p))
		kit.NoErr(err, "request")
		res, err := s.Server(s.Size()).Search(t.Context(), req)
		kit.NoErr(err, "search")
		if edit != nil {
			edit(res)
		}
		r.Eval()
		return sim.Verify(c, q, req, verify, sim.Encode(res))
	}
	for name, o := range opts {
		base := sim.Config(o)
		for vn, vc := range variants(base) {
			for _, q := range qs {
				run(fmt.Sprintf("%s deployment, client whose %s differs, %v", name, vn, q), func() {
					w, c := sim.NewWorld(base), sim.NewWorld(vc)
					w.Run(hist)
					if _, err := transparency.NewClient(c.Public, sim.NewPhone()); err != nil {
						r.Outcome("deployment refused")
						return
					}
					kit.Check(sim.Acceptable(ask(w, w, q, sim.NewPhone(), nil), sim.Expect(w, w.Size(), q)), "the honest response is refused")
					a := ask(w, c, q, sim.NewPhone(), nil)
					kit.Check(!accepted(a), "a client whose %s differs from the server's accepts the response: %v", vn, a)
					r.Outcome("refused")
				})
			}
			// The log agrees with the client, only the other signer differs.
			if name != "plain" && vc.Mode == base.Mode {
				for _, q := range qs[:2] {
					run(fmt.Sprintf("%s deployment, second signer whose %s differs, %v", name, vn, q), func() {
						w := sim.NewWorld(base)
						w.Run(hist)
						other := sim.NewWorld(vc)
						if vn == "signature key" {
							// Only part of the signed configuration.
							kit.Check(other.Public.SignatureKey != nil, "no key")
						}
						var a sim.Answer
						if name == "audited" {
							a = ask(w, w, q, sim.NewPhone(), func(res *structs.SearchResponse) {
								h := res.FullTreeHead.AuditorTreeHead
								h.Signature, _ = signerOf(vc, vn).Sign(sim.Encode(&structs.AuditorTreeHeadTBS{Config: other.Public, Timestamp: h.Timestamp, TreeSize: h.TreeSize, Root: w.Root(h.TreeSize)}))
							})
						} else {
							w2 := sim.NewWorld(base)
							w2.SignLeaf = func(l string, ver int, v string) []byte {
								sig, _ := signerOf(vc, vn).Sign(sim.Encode(&structs.UpdateTBS{Config: other.Public, Label: []byte(l), Version: uint32(ver), Value: []byte(v)}))
								return sig
							}
							w2.Run(hist)
							a = ask(w2, w2, q, sim.NewPhone(), nil)
						}
						kit.Check(!accepted(a), "a %s signature made for another %s is accepted: %v", name, vn, a)
						r.Outcome("refused")
					})
				}
			}
		}
	}
	// The signed fields themselves.
	for _, q := range qs {
		for name, o := range opts {
			for _, edit := range []string{"size", "size+", "root", "auditor time", "auditor size", "auditor root", "wrong signer", "wrong auditor", "empty signature", "empty auditor signature"} {
				if strings.Contains(edit, "auditor") && name != "audited" {
					continue
				}
				run(fmt.Sprintf("%s deployment, tree head signed with another %s, %v", name, edit, q), func() {
					w := sim.NewWorld(sim.Config(o))
					w.Run(hist)
					a := ask(w, w, q, sim.NewPhone(), func(res *structs.SearchResponse) {
						th, ath := res.FullTreeHead.TreeHead, res.FullTreeHead.AuditorTreeHead
						tbs := structs.TreeHeadTBS{Config: w.Public, TreeSize: th.TreeSize, Root: w.Root(th.TreeSize)}
						signer, asigner := sim.ServerKey, sim.AuditorKey
						atbs := structs.AuditorTreeHeadTBS{Config: w.Public}
						if ath != nil {
							atbs.Timestamp, atbs.TreeSize, atbs.Root = ath.Timestamp, ath.TreeSize, w.Root(ath.TreeSize)
						}
						switch edit {
						case "size":
							tbs.TreeSize--
						case "size+":
							tbs.TreeSize++
						case "root":
							tbs.Root = w.Root(th.TreeSize - 1)
						case "auditor time":
							atbs.Timestamp--
						case "auditor size":
							atbs.TreeSize--
						case "auditor root":
							atbs.Root = w.Root(atbs.TreeSize - 1)
						case "wrong signer":
							signer = sim.AuditorKey
						case "wrong auditor":
							asigner = sim.ServerKey
						}
						th.Signature, _ = signer.Sign(sim.Encode(&tbs))
						if ath != nil {
							ath.Signature, _ = asigner.Sign(sim.Encode(&atbs))
						}
						if edit == "empty signature" {
							th.Signature = []byte{}
						} else if edit == "empty auditor signature" {
							ath.Signature = []byte{}
						}
					})
					kit.Check(!accepted(a), "a tree head signed with another %s is accepted: %v", edit, a)
					r.Outcome("refused")
				})
			}
		}
		// Operator signatures over another label, version or value.
		for _, edit := range []string{"label", "version", "value", "nothing", "empty", "wrong signer"} {
			run(fmt.Sprintf("operator signature over another %s, %v", edit, q), func() {
				w := sim.NewWorld(sim.Config(opts["managed"]))
				w.SignLeaf = func(l string, ver int, v string) []byte {
					tbs := structs.UpdateTBS{Config: w.Public, Label: []byte(l), Version: uint32(ver), Value: []byte(v)}
					signer := sim.LeafKey
					switch edit {
					case "label":
						tbs.Label = []byte(l + "x")
					case "version":
						tbs.Version++
					case "value":
						tbs.Value = []byte(v + "x")
					case "empty":
						return []byte{}
					case "wrong signer":
						signer = sim.ServerKey
					}
					sig, _ := signer.Sign(sim.Encode(&tbs))
					return sig
				}
				w.Run(hist)
				a := ask(w, w, q, sim.NewPhone(), nil)
				want := edit == "nothing" || q.Label == "Z"
				kit.Check(accepted(a) == want, "operator signature with another %s: %v", edit, a)
			})
		}
	}
}

func signerOf(c structs.PrivateConfig, variant string) toy.SigKey {
	switch {
	case variant == "leaf key" || variant == "auditor key":
		return toy.SigKey("other")
	case c.Mode == structs.ThirdPartyAuditing:
		return sim.AuditorKey
	}
	return sim.LeafKey
}

// realDeployments runs searches with the real suites.
func realDeployments(t *testing.T, r *kit.Run) {
	for _, s := range real {
		for _, mode := range []structs.DeploymentMode{structs.ContactMonitoring, structs.ThirdPartyManagement} {
			synctest.Test(t, func(t *testing.T) {
				r.Try(func() any { return map[string]any{"suite": s.Name, "mode": mode} }, func() {
					r.Trace()
					k := func(b byte) []byte { return append(bytes.Repeat([]byte{b}, 31), 1) }
					sk, err := s.CS.ParseSigningPrivateKey(k(3))
					kit.NoErr(err, "key")
					lk, err := s.CS.ParseSigningPrivateKey(k(4))
					kit.NoErr(err, "key")
					vk, err := s.CS.ParseVRFPrivateKey(k(5))
					kit.NoErr(err, "key")
					c := structs.PrivateConfig{SignatureKey: sk, VrfKey: vk, Config: structs.Config{Suite: s.CS, Mode: mode, MaxAhead: 1000, MaxBehind: 1 << 40, ReasonableMonitoringWindow: 1000, MaximumLifetime: 1 << 45}}
					if mode == structs.ThirdPartyManagement {
						c.LeafPublicKey = lk.Public()
					}
					w := sim.NewWorld(c)
					w.SignLeaf = func(l string, ver int, v string) []byte {
						if mode != structs.ThirdPartyManagement {
							return nil
						}
						sig, err := lk.Sign(sim.Encode(&structs.UpdateTBS{Config: w.Public, Label: []byte(l), Version: uint32(ver), Value: []byte(v)}))
						kit.NoErr(err, "signing")
						return sig
					}
					for i := range 4 {
						kit.NoErr(w.Apply(sim.Step{DT: 600, Put: []sim.Put{{Label: "A", Count: i}, {Label: "B", Count: 1}}}), "sequencing")
						for _, q := range []sim.Query{{Label: "A", Version: -1}, {Label: "A", Version: 0}, {Label: "B", Version: -1}, {Label: "Z", Version: -1}} {
							p := sim.NewPhone()
							for size := uint64(1); size <= w.Size(); size++ {
								r.Eval()
								a, _ := sim.Search(w, size, p, q)
								want := sim.Expect(w, size, q)
								kit.Check(sim.Acceptable(a, want), "%v at size %d: %v", q, size, a)
							}
							for _, f := range []func(*structs.PublicConfig){
								func(c *structs.PublicConfig) { c.MaxAhead++ }, func(c *structs.PublicConfig) { c.MaximumLifetime++ }, func(c *structs.PublicConfig) { c.SignatureKey = lk.Public() },
							} {
								w2 := *w
								pc := *w.Public
								f(&pc)
								w2.Public = &pc
								req, verify, err := q.Request(w2.Client(sim.NewPhone()))
								kit.NoErr(err, "request")
								res, err := w.Server(w.Size()).Search(t.Context(), req)
								kit.NoErr(err, "search")
								r.Eval()
								a := sim.Verify(&w2, q, req, verify, sim.Encode(res))
								kit.Check(a.Kind == "refused", "a client with another configuration accepts: %v", a)
							}
						}
					}
				})
			})
		}
	}
}

// lengths are the lengths of the long fields: every one that a label can have,
// and those around the sizes in which data is handled in pieces.
func lengths(max int) []int {
	var out []int
	for n := 0; n <= 300; n++ {
		out = append(out, n)
	}
	for k := 512; k <= max; k *= 2 {
		out = append(out, k-1, k, k+1)
	}
	return out
}

// pattern returns n bytes that don't repeat at any power of two.
func pattern(n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(i*7 + i/251)
	}
	return out
}

// positions are the positions of a field of n bytes that are changed.
func positions(n, all int) []int {
	var out []int
	for p := range n {
		if n <= all || p < 64 || n-p <= 64 || p%509 == 0 || bits.OnesCount(uint(p)) <= 1 || bits.OnesCount(uint(p+1)) <= 1 {
			out = append(out, p)
		}
	}
	return out
}

// long changes every byte of long fields: of what is committed to, of what is
// signed, and of each variable-length field of the encodings.
func long(r *kit.Run) {
	max := kit.Pick(r, 1<<20, 1<<22)
	all := kit.Pick(r, 9000, 66000)
	suitesOf := append(real[:len(real):len(real)], struct {
		Name string
		CS   suites.CipherSuite
	}{"toy", toy.Default})
	ns := lengths(max)
	for _, s := range suitesOf {
		opening := pattern(s.CS.CommitmentOpeningSize())
		r.Parallel(len(ns), func(i int) {
			n := ns[len(ns)-1-i]
			r.Try(func() any { return map[string]any{"suite": s.Name, "bytes committed to": n} }, func() {
				body := pattern(n)
				c := commitments.Commit(s.CS, opening, body)
				kit.Check(commitments.Verify(s.CS, opening, body, c), "%s: a commitment to %d bytes does not open", s.Name, n)
				refused := func(what string, b []byte) {
					r.Eval()
					kit.Check(!commitments.Verify(s.CS, opening, b, c), "%s: a commitment to %d bytes opens %s", s.Name, n, what)
				}
				for _, p := range positions(n, all) {
					body[p] ^= 1
					refused(fmt.Sprintf("with byte %d changed", p), body)
					body[p] ^= 1
				}
				if n > 0 {
					refused("as one byte less", body[:n-1])
					refused("without the first byte", body[1:])
				}
				refused("as one byte more", append(body[:n:n], 0))
				for k := range opening {
					o := bytes.Clone(opening)
					o[k] ^= 0x80
					r.Eval()
					kit.Check(!commitments.Verify(s.CS, o, body, c), "%s: a commitment to %d bytes opens with byte %d of the opening changed", s.Name, n, k)
				}
			})
		})
	}

	// Signatures.
	sizes := kit.Pick(r, []int{300, 4097, 70000}, []int{300, 4097, 70000, 1<<20 + 1})
	for _, s := range real {
		priv, err := s.CS.ParseSigningPrivateKey(bytes.Repeat([]byte{7}, 32))
		kit.NoErr(err, "parsing the private key")
		pub := priv.Public()
		for _, n := range sizes {
			msg := pattern(n)
			sig, err := priv.Sign(msg)
			kit.NoErr(err, "signing")
			ps := positions(n, kit.Pick(r, 4097, 4097))
			r.Parallel(len(ps), func(i int) {
				r.Try(func() any { return map[string]any{"suite": s.Name, "bytes signed": n, "changed": ps[i]} }, func() {
					r.Eval()
					m := bytes.Clone(msg)
					m[ps[i]] ^= 1
					kit.Check(!pub.Verify(m, sig), "%s: the signature of %d bytes covers another message, with byte %d changed", s.Name, n, ps[i])
					kit.Check(!pub.Verify(msg[:ps[i]], sig), "%s: the signature of %d bytes covers the first %d", s.Name, n, ps[i])
				})
			})
			r.Try(func() any { return map[string]any{"suite": s.Name, "bytes signed": n} }, func() {
				kit.Check(pub.Verify(msg, sig), "%s: the signature of %d bytes is refused", s.Name, n)
			})
		}
	}

	// Encodings.
	cfg := configs(toy.Default, []uint64{1})[0]
	type field struct {
		name string
		max  int
		mk   func(b []byte) structs.Marshaller
	}
	fields := []field{
		{"label of a commitment", 255, func(b []byte) structs.Marshaller {
			return &structs.CommitmentValue{Label: b, Version: 3, Update: structs.UpdateValue{Value: []byte("v")}}
		}},
		{"value of a commitment", max, func(b []byte) structs.Marshaller {
			return &structs.CommitmentValue{Label: []byte("l"), Version: 3, Update: structs.UpdateValue{Value: b}}
		}},
		{"operator's signature in a commitment", 65535, func(b []byte) structs.Marshaller {
			return &structs.CommitmentValue{Label: []byte("l"), Version: 3, Update: structs.UpdateValue{Value: []byte("v"), UpdateSuffix: structs.UpdateSuffix{Signature: append([]byte{}, b...)}}}
		}},
		{"label of a VRF input", 255, func(b []byte) structs.Marshaller { return &structs.VrfInput{Label: b, Version: 3} }},
		{"label of an update", 255, func(b []byte) structs.Marshaller {
			return &structs.UpdateTBS{Config: cfg, Label: b, Version: 3, Value: []byte("v")}
		}},
		{"value of an update", max, func(b []byte) structs.Marshaller {
			return &structs.UpdateTBS{Config: cfg, Label: []byte("l"), Version: 3, Value: b}
		}},
	}
	for _, f := range fields {
		r.Parallel(len(ns), func(i int) {
			n := ns[len(ns)-1-i]
			if n > f.max {
				return
			}
			r.Try(func() any { return map[string]any{"field": f.name, "bytes": n} }, func() {
				enc := func(b []byte) string {
					raw, err := structs.Marshal(f.mk(b))
					kit.NoErr(err, "encoding a %s of %d bytes", f.name, len(b))
					h := sha256.Sum256(raw)
					return string(h[:])
				}
				body := pattern(n)
				seen := map[string]string{enc(body): "itself"}
				add := func(what string, b []byte) {
					r.Eval()
					e := enc(b)
					if o, ok := seen[e]; ok {
						kit.Failf("a %s of %d bytes has the same encoding %s as %s", f.name, n, what, o)
					}
					seen[e] = what
				}
				for _, p := range positions(n, 300) {
					body[p] ^= 1
					add(fmt.Sprintf("with byte %d changed", p), body)
					body[p] ^= 1
				}
				if n > 0 {
					add("without its last byte", body[:n-1])
				}
				if n > 1 {
					add("without its first byte", body[1:])
				}
				if n < f.max {
					add("with a byte more", append(body[:n:n], 0))
				}
			})
		})
	}
}

func TestCheck(t *testing.T) {
	r := kit.Start("C20", "exploration", "every tuple over boundary alphabets per encoding; every pair of commitments; every bit of signatures and messages; every single-field difference between signer and verifier")
	encodings(r)
	opens(r)
	long(r)
	signatures(r)
	deployments(t, r)
	realDeployments(t, r)
	_ = time.Now
	r.Finish()
}
