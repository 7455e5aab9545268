// C19: VRF outputs are unique, provable and unforgeable by alteration.
package c19

import (
	"bytes"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"sync"
	"testing"

	"katiemc/kit"

	"filippo.io/edwards25519"
	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/crypto/vrf"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

type key struct {
	suite   string
	cs      suites.CipherSuite
	raw     []byte
	priv    vrf.PrivateKey
	pub     vrf.PublicKey // from the private key
	wirePub vrf.PublicKey // parsed from its encoding
}

func (k *key) String() string { return fmt.Sprintf("%s/%x", k.suite, k.raw) }

func keys(r *kit.Run) []*key {
	var out []*key
	for _, s := range []struct {
		n  string
		cs suites.CipherSuite
	}{{"p256", suites.KTSha256P256{}}, {"ed25519", suites.KTSha256Ed25519{}}} {
		raws := [][]byte{bytes.Repeat([]byte{7}, 32), append(make([]byte, 31), 1)}
		for i := 2; i < kit.Pick(r, 3, 8); i++ {
			h := sha512.Sum512([]byte{byte(i)})
			h[0] &= 0x7f
			raws = append(raws, h[:32])
		}
		for _, raw := range raws {
			raw := raw
			k := &key{suite: s.n, cs: s.cs, raw: raw}
			r.Try(func() any { return k.String() }, func() {
				in := bytes.Clone(raw)
				p, err := s.cs.ParseVRFPrivateKey(in)
				kit.NoErr(err, "parse private key")
				for i := range in {
					in[i] ^= 0xff // the caller's slice must not be retained
				}
				k.priv, k.pub = p, p.PublicKey()
				k.wirePub, err = s.cs.ParseVRFPublicKey(bytes.Clone(k.pub.Bytes()))
				kit.NoErr(err, "parse public key")
				kit.Check(bytes.Equal(k.wirePub.Bytes(), k.pub.Bytes()), "public key does not round-trip")
			})
			out = append(out, k)
		}
	}
	return out
}

// messages: all label/version inputs over a boundary-shifting alphabet, plus
// plain byte strings of many lengths.
func messages(r *kit.Run) [][]byte {
	seen := map[string]bool{}
	var out [][]byte
	add := func(m []byte) {
		if !seen[string(m)] {
			seen[string(m)] = true
			out = append(out, m)
		}
	}
	var labels [][]byte
	alpha := []byte{0, 1, 'a'}
	for n := 0; n <= 4; n++ {
		tot := 1
		for range n {
			tot *= len(alpha)
		}
		for i := 0; i < tot; i++ {
			l := make([]byte, n)
			for j, k := 0, i; j < n; j, k = j+1, k/len(alpha) {
				l[j] = alpha[k%len(alpha)]
			}
			labels = append(labels, l)
		}
	}
	for _, n := range []int{31, 32, 63, 64, 127, 254, 255} {
		labels = append(labels, bytes.Repeat([]byte{'z'}, n))
	}
	tuples := 0
	for _, l := range labels {
		for _, v := range []uint32{0, 1, 2, 255, 256, 0x01000000, 1 << 31, 1<<32 - 1} {
			raw, err := structs.Marshal(&structs.VrfInput{Label: l, Version: v})
			r.Try(func() any { return fmt.Sprintf("VrfInput(%x,%d)", l, v) }, func() {
				kit.NoErr(err, "marshal VRF input")
			})
			add(raw)
			tuples++
		}
	}
	r.Try(func() any { return "VRF inputs" }, func() {
		kit.Check(len(out) == tuples, "two (label, version) pairs share a VRF input: %d inputs for %d pairs", len(out), tuples)
	})
	for n := 0; n < kit.Pick(r, 6000, 60000); n++ {
		add(binary.BigEndian.AppendUint32([]byte("m"), uint32(n)))
	}
	for n := 0; n <= 300; n++ {
		add(bytes.Repeat([]byte{0}, n))
	}
	return out
}

func TestCheck(t *testing.T) {
	r := kit.Start("C19", "exploration", "every key x every input (all label/version pairs of a boundary-shifting alphabet, all lengths 0..300, a counter range wide enough for short scalars); for selected pairs every single-bit edit, truncation and extension of proof, input and public key; every small-order point; every torsion-shifted proof of a key holder")
	ks := keys(r)
	ms := messages(r)
	type outv struct {
		k *key
		m []byte
	}
	var mu sync.Mutex
	outs := map[string]outv{}

	// 1. Completeness, determinism and distinct outputs.
	r.Parallel(len(ms), func(i int) {
		m := ms[i]
		for _, k := range ks {
			r.Eval()
			r.Distinct(fmt.Sprintf("p|%v|%x", k, m))
			r.Try(func() any { return map[string]any{"key": k.String(), "input": hex.EncodeToString(m)} }, func() {
				in := bytes.Clone(m)
				out, proof := k.priv.Prove(in)
				kit.Check(bytes.Equal(in, m), "Prove changed its input")
				out2, proof2 := k.priv.Prove(in)
				kit.Check(bytes.Equal(out, out2) && bytes.Equal(proof, proof2), "proving twice gives different results")
				kit.Check(len(out) == 32, "output has %d bytes", len(out))
				kit.Check(len(proof) == k.cs.VrfProofSize(), "proof has %d bytes, the suite says %d", len(proof), k.cs.VrfProofSize())
				for _, pub := range []vrf.PublicKey{k.pub, k.wirePub} {
					pin := bytes.Clone(proof)
					got, err := pub.Verify(in, pin)
					kit.NoErr(err, "genuine proof refused")
					kit.Check(bytes.Equal(got, out), "verifier computes %x, prover %x", got, out)
					kit.Check(bytes.Equal(in, m) && bytes.Equal(pin, proof), "Verify changed its arguments")
				}
				mu.Lock()
				p, dup := outs[string(out)]
				outs[string(out)] = outv{k, m}
				mu.Unlock()
				kit.Check(!dup || (p.k == k && bytes.Equal(p.m, m)), "two inputs share an output: %v %x and %v %x", p.k, p.m, k, m)
			})
		}
	})

	// 2. Alterations.
	base := [][]byte{ms[0], ms[9], []byte("input"), {}, bytes.Repeat([]byte{0}, 64)}
	base = base[:kit.Pick(r, 3, 5)]
	type alt struct {
		k             *key
		what          string
		m, proof, pub []byte
		om, out       []byte
	}
	var alts []alt
	for _, k := range ks {
		for _, m := range base {
			out, proof := k.priv.Prove(m)
			pub := k.pub.Bytes()
			add := func(what string, m2, p2, pub2 []byte) { alts = append(alts, alt{k, what, m2, p2, pub2, m, out}) }
			for name, b := range map[string][]byte{"input": m, "proof": proof, "key": pub} {
				put := func(what string, nb []byte) {
					switch name {
					case "input":
						add(what+" of input", nb, proof, pub)
					case "proof":
						add(what+" of proof", m, nb, pub)
					default:
						add(what+" of key", m, proof, nb)
					}
				}
				for i := range b {
					for bit := 0; bit < 8; bit++ {
						nb := bytes.Clone(b)
						nb[i] ^= 1 << bit
						put(fmt.Sprintf("flip bit %d.%d", i, bit), nb)
					}
					for _, v := range []byte{0, 0xff, b[i] + 1, b[i] - 1} {
						nb := bytes.Clone(b)
						nb[i] = v
						put(fmt.Sprintf("byte %d = %d", i, v), nb)
					}
					put(fmt.Sprintf("truncate to %d", i), bytes.Clone(b[:i]))
				}
				put("append 0", append(bytes.Clone(b), 0))
				put("prepend 0", append([]byte{0}, b...))
				put("doubled", append(bytes.Clone(b), b...))
				if name != "input" {
					put("nil", nil)
					for _, f := range []byte{0, 0xff} {
						put("filled", bytes.Repeat([]byte{f}, len(b)))
						// every segment of a proof or key zeroed or filled
						for _, cut := range [][2]int{{0, 32}, {0, 33}, {1, 33}, {32, 48}, {33, 49}, {48, 80}, {49, 81}} {
							if cut[1] <= len(b) {
								nb := bytes.Clone(b)
								for i := cut[0]; i < cut[1]; i++ {
									nb[i] = f
								}
								put(fmt.Sprintf("bytes %v = %d", cut, f), nb)
							}
						}
					}
				}
			}
			// Another input's or key's proof, and mixes of two proofs.
			for _, k2 := range ks {
				if k2.suite != k.suite {
					continue
				}
				for _, m2 := range base {
					_, p2 := k2.priv.Prove(m2)
					if bytes.Equal(p2, proof) {
						continue
					}
					add("other proof", m, p2, pub)
					for _, cut := range []int{32, 33, 48, 49} {
						add("proof mix", m, append(bytes.Clone(proof[:cut]), p2[cut:]...), pub)
						add("proof mix", m, append(bytes.Clone(p2[:cut]), proof[cut:]...), pub)
					}
				}
				if k2 != k {
					add("other key", m, proof, k2.pub.Bytes())
				}
			}
		}
	}
	r.Parallel(len(alts), func(i int) {
		a := alts[i]
		r.Eval()
		r.Distinct(fmt.Sprintf("a|%v|%x|%x|%x", a.k, a.m, a.proof, a.pub))
		r.Try(func() any {
			return map[string]any{"key": a.k.String(), "edit": a.what, "input": hex.EncodeToString(a.m), "proof": hex.EncodeToString(a.proof), "public": hex.EncodeToString(a.pub)}
		}, func() {
			pub, err := a.k.cs.ParseVRFPublicKey(a.pub)
			if err != nil {
				r.Outcome("key refused")
				return
			}
			out, err := pub.Verify(a.m, a.proof)
			if err != nil {
				r.Outcome("proof refused")
				return
			}
			// Accepted: it must say nothing new.
			sameKey := bytes.Equal(pub.Bytes(), a.k.pub.Bytes())
			kit.Check(sameKey && bytes.Equal(a.m, a.om) && bytes.Equal(out, a.out), "%s is accepted with output %x; genuine output is %x", a.what, out, a.out)
			r.Outcome("equivalent encoding accepted")
		})
	})

	// 3. Malformed private keys are refused, never a crash.
	order := map[string]string{"p256": "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"}
	for _, k := range []*key{ks[0], ks[len(ks)-1]} {
		bad := [][]byte{nil, {}, {1}, bytes.Repeat([]byte{1}, 31), bytes.Repeat([]byte{1}, 33), bytes.Repeat([]byte{1}, 64)}
		if n, ok := order[k.suite]; ok {
			raw, _ := hex.DecodeString(n)
			up := bytes.Clone(raw)
			up[31]++
			bad = append(bad, make([]byte, 32), raw, up, bytes.Repeat([]byte{0xff}, 32))
		}
		for _, b := range bad {
			r.Eval()
			r.Try(func() any { return map[string]any{"suite": k.suite, "private": hex.EncodeToString(b)} }, func() {
				_, err := k.cs.ParseVRFPrivateKey(b)
				kit.Check(err != nil, "malformed private key accepted")
			})
		}
	}
	r.Try(func() any { return "p256 order minus one" }, func() {
		raw, _ := hex.DecodeString(order["p256"])
		raw[31]--
		p, err := suites.KTSha256P256{}.ParseVRFPrivateKey(raw)
		kit.NoErr(err, "largest private key")
		out, proof := p.Prove([]byte("x"))
		got, err := p.PublicKey().Verify([]byte("x"), proof)
		kit.Check(err == nil && bytes.Equal(got, out), "largest private key does not prove: %v", err)
	})

	// 4. A dishonest key holder on edwards25519: small-order keys are refused,
	// and shifting Gamma by a torsion point never gives a second output.
	tors := torsion()
	r.Count("torsion_points", int64(len(tors)))
	ed := suites.KTSha256Ed25519{}
	enc := map[string]bool{}
	for _, p := range tors {
		b := p.Bytes()
		enc[string(b)] = true
		// non-canonical encodings of the same points
		for _, top := range []byte{0x00, 0x80} {
			c := bytes.Clone(b)
			c[31] = c[31]&0x7f | top
			enc[string(c)] = true
		}
	}
	for _, low := range []byte{0xed, 0xee, 0xec} {
		for _, top := range []byte{0x7f, 0xff} {
			c := bytes.Repeat([]byte{0xff}, 32)
			c[0], c[31] = low, top
			enc[string(c)] = true
		}
	}
	for e := range enc {
		r.Eval()
		r.Distinct("s|" + e)
		r.Try(func() any { return "small-order key " + hex.EncodeToString([]byte(e)) }, func() {
			_, err := ed.ParseVRFPublicKey([]byte(e))
			kit.Check(err != nil, "small-order public key accepted")
			r.Outcome("small-order key refused")
		})
	}
	for _, e := range [][]byte{{0}, {}, nil, {2}, {4}, append([]byte{0}, make([]byte, 32)...), append([]byte{4}, make([]byte, 64)...)} {
		r.Eval()
		r.Try(func() any { return fmt.Sprintf("p256 key %x", e) }, func() {
			_, err := suites.KTSha256P256{}.ParseVRFPublicKey(e)
			kit.Check(err != nil, "malformed p256 public key accepted")
		})
	}
	nonces := kit.Pick(r, 200, 2000)
	for _, k := range ks {
		if k.suite != "ed25519" {
			continue
		}
		for _, m := range base {
			want, _ := k.priv.Prove(m)
			r.Parallel(nonces, func(n int) {
				for ti, T := range tors {
					r.Eval()
					r.Try(func() any {
						return map[string]any{"key": k.String(), "input": hex.EncodeToString(m), "torsion": ti, "nonce": n}
					}, func() {
						proof := dishonest(k.raw, m, T, uint64(n))
						out, err := k.wirePub.Verify(m, proof)
						if err != nil {
							r.Outcome("torsion proof refused")
							kit.Check(ti != 0, "genuine proof refused: %v", err)
							return
						}
						r.Distinct(fmt.Sprintf("t|%v|%x|%d|%d", k, m, ti, n))
						r.Outcome("torsion proof accepted, same output")
						kit.Check(bytes.Equal(out, want), "a second output for one input: %x and %x", want, out)
					})
				}
			})
		}
	}
	r.Sample(map[string]any{"keys": fmt.Sprint(ks), "inputs": len(ms), "alterations": len(alts)})
	r.Assume("the discrete logarithm and SHA-2 assumptions behind ECVRF")
	r.Finish()
}

// torsion returns the eight points of small order, the identity first.
func torsion() []*edwards25519.Point {
	var out []*edwards25519.Point
	seen := map[string]bool{}
	add := func(p *edwards25519.Point) {
		if !seen[string(p.Bytes())] {
			seen[string(p.Bytes())] = true
			out = append(out, p)
		}
	}
	add(edwards25519.NewIdentityPoint())
	// l*P of any point has small order.
	var lm1 [32]byte
	h, _ := hex.DecodeString("ecd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010")
	copy(lm1[:], h)
	s, err := new(edwards25519.Scalar).SetCanonicalBytes(lm1[:])
	if err != nil {
		panic(err)
	}
	for i := byte(0); i < 255 && len(out) < 8; i++ {
		b := sha512.Sum512([]byte{i})
		p, err := new(edwards25519.Point).SetBytes(b[:32])
		if err != nil {
			continue
		}
		q := new(edwards25519.Point).ScalarMult(s, p)
		add(q.Add(q, p))
	}
	if len(out) != 8 {
		panic("torsion")
	}
	return out
}

// dishonest builds a proof with Gamma shifted by T.
func dishonest(raw, m []byte, T *edwards25519.Point, nonce uint64) []byte {
	h := sha512.Sum512(raw)
	x, _ := new(edwards25519.Scalar).SetBytesWithClamping(h[:32])
	Y := new(edwards25519.Point).ScalarBaseMult(x)
	var H *edwards25519.Point
	for c := 0; ; c++ {
		b := append([]byte{3, 1}, Y.Bytes()...)
		b = append(b, m...)
		b = append(b, byte(c), 0)
		d := sha512.Sum512(b)
		p, err := new(edwards25519.Point).SetBytes(d[:32])
		if err == nil {
			H = p.MultByCofactor(p)
			break
		}
	}
	kb := sha512.Sum512(binary.BigEndian.AppendUint64([]byte("nonce"), nonce))
	k, _ := new(edwards25519.Scalar).SetUniformBytes(kb[:])
	Gamma := new(edwards25519.Point).ScalarMult(x, H)
	Gamma.Add(Gamma, T)
	U := new(edwards25519.Point).ScalarBaseMult(k)
	V := new(edwards25519.Point).ScalarMult(k, H)
	b := []byte{3, 2}
	for _, p := range []*edwards25519.Point{Y, H, Gamma, U, V} {
		b = append(b, p.Bytes()...)
	}
	b = append(b, 0)
	d := sha512.Sum512(b)
	cb := make([]byte, 32)
	copy(cb, d[:16])
	c, _ := new(edwards25519.Scalar).SetCanonicalBytes(cb)
	s := new(edwards25519.Scalar).MultiplyAdd(c, x, k)
	return append(append(bytes.Clone(Gamma.Bytes()), cb[:16]...), s.Bytes()...)
}
