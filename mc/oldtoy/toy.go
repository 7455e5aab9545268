// Package toy is a cipher suite with real hashing and commitments, and
// symmetric stand-ins for signatures and the VRF: fast, deterministic, and
// unforgeable without the key inside this process.
package oldtoy

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"hash"

	"katiemc/old/crypto/suites"
	"katiemc/old/crypto/vrf"
)

type Suite struct {
	ID                uint16
	Size, Open, Proof int
}

var Default = Suite{0xfeed, 32, 16, 20}

func (s Suite) Id() uint16                 { return s.ID }
func (s Suite) Hash() hash.Hash            { return sha256.New() }
func (s Suite) HashSize() int              { return s.Size }
func (s Suite) CommitmentOpeningSize() int { return s.Open }
func (s Suite) CommitmentFixedBytes() []byte {
	return []byte("0123456789abcdef")
}
func (s Suite) VrfProofSize() int { return s.Proof }

func (s Suite) ParseSigningPrivateKey(raw []byte) (suites.SigningPrivateKey, error) {
	return SigKey(raw), nil
}
func (s Suite) ParseSigningPublicKey(raw []byte) (suites.SigningPublicKey, error) {
	return SigKey(raw).Public(), nil
}
func (s Suite) ParseVRFPrivateKey(raw []byte) (vrf.PrivateKey, error) {
	return VRFKey{string(raw), s.Proof, nil}, nil
}
func (s Suite) ParseVRFPublicKey(raw []byte) (vrf.PublicKey, error) {
	return vrfPub{VRFKey{string(raw), s.Proof, nil}}, nil
}

// SigKey is a signature private key.
type SigKey string

func (k SigKey) Sign(m []byte) ([]byte, error) {
	h := sha256.New()
	h.Write([]byte{'s', byte(len(k))})
	h.Write([]byte(k))
	h.Write(m)
	return h.Sum(nil)[:16], nil
}
func (k SigKey) Public() suites.SigningPublicKey { return sigPub{k} }

type sigPub struct{ k SigKey }

func (p sigPub) Verify(m, sig []byte) bool {
	w, _ := p.k.Sign(m)
	return bytes.Equal(w, sig)
}
func (p sigPub) Bytes() []byte { return []byte(p.k) }

// VRFKey is a VRF private key. Out, if set, chooses outputs.
type VRFKey struct {
	Name string
	Size int
	Out  func(m []byte) []byte
}

func (k VRFKey) Prove(m []byte) (output, proof []byte) {
	h := sha256.New()
	h.Write([]byte{'v', byte(len(k.Name))})
	h.Write([]byte(k.Name))
	h.Write(m)
	d := h.Sum(nil)
	if k.Out != nil {
		output = k.Out(m)
	}
	if output == nil {
		o := sha256.Sum256(append([]byte("out"), d...))
		output = o[:]
	}
	return bytes.Clone(output), d[:k.Size]
}
func (k VRFKey) PublicKey() vrf.PublicKey { return vrfPub{k} }

type vrfPub struct{ k VRFKey }

func (p vrfPub) Verify(m, proof []byte) ([]byte, error) {
	out, want := p.k.Prove(m)
	if !bytes.Equal(want, proof) {
		return nil, errors.New("toy vrf: bad proof")
	}
	return out, nil
}
func (p vrfPub) Bytes() []byte { return []byte(p.k.Name) }
