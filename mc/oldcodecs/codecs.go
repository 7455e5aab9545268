// Package codecs lists every message and state type with sample values.
package oldcodecs

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"

	"katiemc/kit"
	"katiemc/ref"
	"katiemc/oldtoy"

	"katiemc/old/crypto/suites"
	"katiemc/old/tree/prefix"
	"katiemc/old/tree/transparency/auditor"
	"katiemc/old/tree/transparency/structs"
)

func b(s string) []byte { return []byte(s) }

func Config(mode structs.DeploymentMode, cs suites.CipherSuite) *structs.PublicConfig {
	return &structs.PublicConfig{SignatureKey: oldtoy.SigKey("s").Public(), VrfKey: oldtoy.VRFKey{Name: "v", Size: 4}.PublicKey(),
		Config: structs.Config{Suite: cs, Mode: mode, LeafPublicKey: oldtoy.SigKey("l").Public(), AuditorPublicKey: oldtoy.SigKey("a").Public()}}
}

// norm drops the difference between nil and empty slices and maps.
func Norm(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		if v.Kind() == reflect.Interface {
			return fmt.Sprintf("%T%v", v.Interface(), Norm(v.Elem()))
		}
		return []any{"ptr", Norm(v.Elem())}
	case reflect.Struct:
		out := []any{}
		for i := range v.NumField() {
			out = append(out, Norm(v.Field(i)))
		}
		return out
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return fmt.Sprintf("%x", v.Bytes())
		}
		out := []any{}
		for i := range v.Len() {
			out = append(out, Norm(v.Index(i)))
		}
		return out
	case reflect.Map:
		out := map[string]any{}
		for _, k := range v.MapKeys() {
			out[fmt.Sprint(k.Interface())] = Norm(v.MapIndex(k))
		}
		return out
	case reflect.Int, reflect.Int64, reflect.Int32:
		return v.Int()
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		return v.Uint()
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	}
	return fmt.Sprint("kind", v.Kind())
}

func Same(x, y any) bool {
	return reflect.DeepEqual(Norm(reflect.ValueOf(x)), Norm(reflect.ValueOf(y)))
}

// Codec is one message type with sample values.
type Codec struct {
	Name   string
	Values []any
	Enc    func(any) ([]byte, error)
	Dec    func(*bytes.Buffer) (any, error)
	Loose  bool // decoding accepts reordered map entries
	Small  bool // few enough bytes for pairs of corruptions
}

func mk[T any, PT interface {
	*T
	structs.Marshaller
}](name string, dec func(*bytes.Buffer) (*T, error), values []T) Codec {
	c := Codec{Name: name}
	for i := range values {
		c.Values = append(c.Values, &values[i])
	}
	c.Enc = func(x any) ([]byte, error) { return structs.Marshal(x.(PT)) }
	c.Dec = func(buf *bytes.Buffer) (any, error) {
		v, err := dec(buf)
		if err == nil && v == nil {
			return nil, errors.New("no value and no error")
		}
		return v, err
	}
	return c
}

func Ptr[T any](x T) *T { return &x }

var u64s = []uint64{0, 1, 0x0102030405060708, 1<<64 - 1}
var u32s = []uint32{0, 1, 0x01020304, 1<<32 - 1}
var lasts = []*uint64{nil, Ptr(uint64(0)), Ptr(uint64(1<<64 - 1))}
var vers = []*uint32{nil, Ptr(uint32(0)), Ptr(uint32(1<<32 - 1))}
var labels = [][]byte{{}, b("a"), b("\x00\xff")}

// sub returns a subset of xs: all of them are combined elsewhere.
func cross[A, B, T any](as []A, bs []B, f func(A, B) T) (out []T) {
	for _, x := range as {
		for _, y := range bs {
			out = append(out, f(x, y))
		}
	}
	return
}

func PrefixProofs(cs suites.CipherSuite) []prefix.PrefixProof {
	h := func(x byte) string { return string(bytes.Repeat([]byte{x}, cs.HashSize())) }
	raw := [][]byte{
		{0, 0, 0},
		append([]byte{1, 1, 0, 0, 1}, h(9)...),
		{1, 3, 255, 0, 0},
		append(append([]byte{1, 2}, h(1)+h(2)...), 7, 0, 0),
		append(append(append([]byte{3, 1, 2, 2}, h(1)+h(2)...), 7, 3, 200, 0, 2), h(3)+h(4)...),
	}
	var out []prefix.PrefixProof
	for _, x := range raw {
		p, err := prefix.NewPrefixProof(cs, bytes.NewBuffer(x))
		kit.NoErr(err, "decoding a valid prefix proof %x", x)
		out = append(out, *p)
	}
	return out
}

func All(cs suites.CipherSuite) []Codec {
	h := func(x byte) []byte { return bytes.Repeat([]byte{x}, cs.HashSize()) }
	op := func(x byte) []byte { return bytes.Repeat([]byte{x}, cs.CommitmentOpeningSize()) }
	vp := func(x byte) []byte { return bytes.Repeat([]byte{x}, cs.VrfProofSize()) }
	var out []Codec
	pps := PrefixProofs(cs)
	out = append(out, mk("PrefixProof", func(x *bytes.Buffer) (*prefix.PrefixProof, error) { return prefix.NewPrefixProof(cs, x) }, pps))

	ths := []structs.TreeHead{{}, {TreeSize: 1, Signature: b("s")}, {TreeSize: 1<<64 - 1, Signature: b("sig")}}
	aths := []structs.AuditorTreeHead{{}, {Timestamp: 1, TreeSize: 2, Signature: b("s")}, {Timestamp: 1<<64 - 1, TreeSize: 1 << 63, Signature: b("sig")}}
	out = append(out, mk("TreeHead", structs.NewTreeHead, ths), mk("AuditorTreeHead", structs.NewAuditorTreeHead, aths))

	les := []structs.LogEntry{{Timestamp: 0, PrefixTree: h(0)}, {Timestamp: 1<<64 - 1, PrefixTree: h(1)}}
	out = append(out, mk("LogEntry", func(x *bytes.Buffer) (*structs.LogEntry, error) { return structs.NewLogEntry(cs, x) }, les))
	iles := cross(u64s, les, func(p uint64, l structs.LogEntry) structs.IndexedLogEntry {
		return structs.IndexedLogEntry{Position: p, LogEntry: l}
	})
	out = append(out, mk("IndexedLogEntry", func(x *bytes.Buffer) (*structs.IndexedLogEntry, error) { return structs.NewIndexedLogEntry(cs, x) }, iles))
	steps := []structs.BinaryLadderStep{{Proof: vp(1)}, {Proof: vp(2), Commitment: h(0)}, {Proof: vp(3), Commitment: h(3)}}
	out = append(out, mk("BinaryLadderStep", func(x *bytes.Buffer) (*structs.BinaryLadderStep, error) { return structs.NewBinaryLadderStep(cs, x) }, steps))
	lvs := []structs.LabelValue{{Value: b("")}, {Value: b("v")}, {Value: b("\x00\x00\x00\x01")}}
	out = append(out, mk("LabelValue", structs.NewLabelValue, lvs))
	mmes := cross(u64s, u32s, func(p uint64, v uint32) structs.MonitorMapEntry {
		return structs.MonitorMapEntry{Position: p, Version: v}
	})
	out = append(out, mk("MonitorMapEntry", structs.NewMonitorMapEntry, mmes))
	ips := []structs.InclusionProof{{}, {Elements: [][]byte{h(1)}}, {Elements: [][]byte{h(1), h(0), h(2)}}}
	out = append(out, mk("InclusionProof", func(x *bytes.Buffer) (*structs.InclusionProof, error) { return structs.NewInclusionProof(cs, x) }, ips))
	ctps := []structs.CombinedTreeProof{{}}
	for i, pp := range pps {
		ctps = append(ctps,
			structs.CombinedTreeProof{PrefixProofs: []prefix.PrefixProof{pp}, Inclusion: ips[i%3]},
			structs.CombinedTreeProof{Timestamps: u64s[:i%4], PrefixProofs: []prefix.PrefixProof{pp, pps[(i+1)%len(pps)]}, PrefixRoots: [][]byte{h(5), h(6)}[:i%3], Inclusion: ips[(i+1)%3]})
	}
	ctps = append(ctps, structs.CombinedTreeProof{Timestamps: []uint64{1}, PrefixRoots: [][]byte{h(7)}})
	out = append(out, mk("CombinedTreeProof", func(x *bytes.Buffer) (*structs.CombinedTreeProof, error) { return structs.NewCombinedTreeProof(cs, x) }, ctps))

	entries := []prefix.Entry{{VrfOutput: h(1), Commitment: h(2)}, {VrfOutput: h(0), Commitment: h(0)}}
	aus := []structs.AuditorUpdate{}
	for i, pp := range pps {
		aus = append(aus, structs.AuditorUpdate{Timestamp: u64s[i%4], Added: entries[:i%3], Removed: entries[:(i+1)%3], Proof: pp})
	}
	out = append(out, mk("AuditorUpdate", func(x *bytes.Buffer) (*structs.AuditorUpdate, error) { return structs.NewAuditorUpdate(cs, x) }, aus))

	// Requests.
	var maps [][]structs.MonitorMapEntry
	maps = append(maps, nil, mmes[:1], mmes[5:8])
	var srs []structs.SearchRequest
	var cmrs []structs.ContactMonitorRequest
	var oirs []structs.OwnerInitRequest
	var omrs []structs.OwnerMonitorRequest
	var urs []structs.UpdateRequest
	for _, l := range lasts {
		for _, lab := range labels {
			for _, v := range vers {
				srs = append(srs, structs.SearchRequest{Last: l, Label: lab, Version: v})
				for i := range 3 {
					omrs = append(omrs, structs.OwnerMonitorRequest{Last: l, Label: lab, Entries: maps[i], Start: u64s[i], GreatestVersion: v})
					urs = append(urs, structs.UpdateRequest{Last: l, Label: lab, GreatestVersion: v, Values: lvs[:i]})
				}
			}
			for i := range 3 {
				cmrs = append(cmrs, structs.ContactMonitorRequest{Last: l, Label: lab, Entries: maps[i]})
				oirs = append(oirs, structs.OwnerInitRequest{Last: l, Label: lab, Start: u64s[i+1]})
			}
		}
	}
	out = append(out, mk("SearchRequest", structs.NewSearchRequest, srs), mk("ContactMonitorRequest", structs.NewContactMonitorRequest, cmrs), mk("OwnerInitRequest", structs.NewOwnerInitRequest, oirs),
		mk("OwnerMonitorRequest", structs.NewOwnerMonitorRequest, omrs), mk("UpdateRequest", structs.NewUpdateRequest, urs))

	// Client state.
	rvs := []structs.RetainedVersion{{Version: 0, VrfOutput: h(1)}, {Version: 1<<32 - 1, VrfOutput: h(0), Commitment: h(2)}}
	out = append(out, mk("RetainedVersion", func(x *bytes.Buffer) (*structs.RetainedVersion, error) { return structs.NewRetainedVersion(cs, x) }, rvs))
	var loss []structs.LabelOwnerState
	for _, v := range []int{-1, 0, 1, 77, 1<<32 - 2} {
		for i, s := range u64s {
			loss = append(loss, structs.LabelOwnerState{Starting: s, VerAtStarting: v, UpcomingVers: u64s[:i]})
		}
	}
	out = append(out, mk("LabelOwnerState", structs.NewLabelOwnerState, loss))
	var clss []structs.ClientLabelState
	for i := range 3 {
		for j := range 3 {
			clss = append(clss, structs.ClientLabelState{Contact: maps[i], Versions: rvs[:j]})
			clss = append(clss, structs.ClientLabelState{Contact: maps[i], Owner: &loss[i*5+j], Versions: rvs[:j]})
		}
	}
	out = append(out, mk("ClientLabelState", func(x *bytes.Buffer) (*structs.ClientLabelState, error) { return structs.NewClientLabelState(cs, x) }, clss))

	for _, mode := range []structs.DeploymentMode{structs.ContactMonitoring, structs.ThirdPartyManagement, structs.ThirdPartyAuditing} {
		conf := Config(mode, cs)
		suf := fmt.Sprintf(" (mode %d)", mode)
		var suffixes []structs.UpdateSuffix
		if mode == structs.ThirdPartyManagement {
			suffixes = []structs.UpdateSuffix{{Signature: []byte{}}, {Signature: b("sg")}}
		} else {
			suffixes = []structs.UpdateSuffix{{}}
		}
		uvs := cross(suffixes, lvs, func(s structs.UpdateSuffix, v structs.LabelValue) structs.UpdateValue {
			return structs.UpdateValue{Value: v.Value, UpdateSuffix: s}
		})
		uis := cross(suffixes, []byte{0, 1}, func(s structs.UpdateSuffix, v byte) structs.UpdateInfo {
			return structs.UpdateInfo{Opening: op(v), UpdateSuffix: s}
		})
		oavs := cross(uvs, []byte{0, 1}, func(s structs.UpdateValue, v byte) structs.OpeningAndValue {
			return structs.OpeningAndValue{Opening: op(v), Value: s}
		})
		out = append(out,
			mk("UpdateValue"+suf, func(x *bytes.Buffer) (*structs.UpdateValue, error) { return structs.NewUpdateValue(conf, x) }, uvs),
			mk("UpdateInfo"+suf, func(x *bytes.Buffer) (*structs.UpdateInfo, error) { return structs.NewUpdateInfo(conf, x) }, uis),
			mk("OpeningAndValue"+suf, func(x *bytes.Buffer) (*structs.OpeningAndValue, error) { return structs.NewOpeningAndValue(conf, x) }, oavs))
		fths := []structs.FullTreeHead{{}}
		for i := range ths {
			f := structs.FullTreeHead{TreeHead: &ths[i]}
			if mode == structs.ThirdPartyAuditing {
				f.AuditorTreeHead = &aths[i]
			}
			fths = append(fths, f)
		}
		out = append(out, mk("FullTreeHead"+suf, func(x *bytes.Buffer) (*structs.FullTreeHead, error) { return structs.NewFullTreeHead(conf, x) }, fths))

		var murs []structs.ManagerUpdateRequest
		for i, l := range lasts {
			for j, v := range vers {
				murs = append(murs, structs.ManagerUpdateRequest{Last: l, Label: labels[j], GreatestVersion: v, SignedVersion: u32s[i+1], Values: uvs[:(i+j)%3]})
			}
		}
		out = append(out, mk("ManagerUpdateRequest"+suf, func(x *bytes.Buffer) (*structs.ManagerUpdateRequest, error) {
			return structs.NewManagerUpdateRequest(conf, x)
		}, murs))

		for _, fixed := range []bool{false, true} {
			req := &structs.SearchRequest{Label: b("a")}
			if fixed {
				req.Version = Ptr(uint32(4))
			}
			var srsp []structs.SearchResponse
			for i, f := range fths {
				for j, c := range ctps {
					if (i+j)%2 == 1 {
						continue
					}
					x := structs.SearchResponse{FullTreeHead: f, Opening: op(byte(j)), Value: uvs[j%len(uvs)], BinaryLadder: steps[:(i+j)%4], Search: c}
					if !fixed {
						x.Version = Ptr(u32s[i%4])
					}
					srsp = append(srsp, x)
				}
			}
			out = append(out, mk(fmt.Sprintf("SearchResponse fixed=%v", fixed)+suf, func(x *bytes.Buffer) (*structs.SearchResponse, error) { return structs.NewSearchResponse(conf, req, x) }, srsp))
		}
		var cmrsp []structs.ContactMonitorResponse
		var omrsp []structs.OwnerMonitorResponse
		var oirsp []structs.OwnerInitResponse
		var ursp []structs.UpdateResponse
		for i, f := range fths {
			for j, c := range ctps {
				if (i+j)%3 != 0 {
					continue
				}
				cmrsp = append(cmrsp, structs.ContactMonitorResponse{FullTreeHead: f, Monitor: c})
				omrsp = append(omrsp, structs.OwnerMonitorResponse{FullTreeHead: f, Monitor: c})
				oirsp = append(oirsp, structs.OwnerInitResponse{FullTreeHead: f, GreatestVersions: u32s[:j%4], BinaryLadder: steps[:i%4], Init: c})
				ursp = append(ursp, structs.UpdateResponse{FullTreeHead: f, Position: u64s[i%4], Values: lvs[:j%3], Info: uis[:(i+j)%len(uis)], BinaryLadder: steps[:j%4], Update: c})
			}
		}
		out = append(out,
			mk("ContactMonitorResponse"+suf, func(x *bytes.Buffer) (*structs.ContactMonitorResponse, error) {
				return structs.NewContactMonitorResponse(conf, x)
			}, cmrsp),
			mk("OwnerMonitorResponse"+suf, func(x *bytes.Buffer) (*structs.OwnerMonitorResponse, error) {
				return structs.NewOwnerMonitorResponse(conf, x)
			}, omrsp),
			mk("OwnerInitResponse"+suf, func(x *bytes.Buffer) (*structs.OwnerInitResponse, error) {
				return structs.NewOwnerInitResponse(conf, x)
			}, oirsp),
			mk("UpdateResponse"+suf, func(x *bytes.Buffer) (*structs.UpdateResponse, error) { return structs.NewUpdateResponse(conf, x) }, ursp))

		var states []structs.ClientState
		for i := range ths {
			for n := range 4 {
				m := map[uint64]structs.LogEntry{}
				for k := range n {
					m[u64s[k]] = les[k%2]
				}
				s := structs.ClientState{TreeHead: ths[i], FullSubtrees: [][]byte{h(1), h(2)}[:(i+n)%3], LogEntries: m}
				if mode == structs.ThirdPartyAuditing {
					s.AuditorTreeHead = &aths[n%3]
				}
				states = append(states, s)
			}
		}
		c := mk("ClientState"+suf, func(x *bytes.Buffer) (*structs.ClientState, error) { return structs.NewClientState(conf, x) }, states)
		c.Loose = true
		out = append(out, c)
	}

	// Auditor state.
	ac := Codec{Name: "AuditorState",
		Enc: func(x any) ([]byte, error) { return x.(*auditor.AuditorState).Marshal() },
		Dec: func(x *bytes.Buffer) (any, error) { return auditor.NewAuditorState(cs, x) }}
	for _, n := range []uint64{1, 2, 3, 5, 6, 8} {
		s := &auditor.AuditorState{TreeHead: structs.AuditorTreeHead{Timestamp: n, TreeSize: n, Signature: b("sig")}, PrefixTree: h(byte(n))}
		for x := n; x > 0; x &= x - 1 {
			s.FullSubtrees = append(s.FullSubtrees, h(byte(x)))
		}
		for _, x := range ref.Path(n-1, n) {
			s.Timestamps = append(s.Timestamps, x+100)
		}
		for i := uint64(0); i < n%4; i++ {
			s.Inserted = append(s.Inserted, auditor.InsertedVrfOutput{Pos: i, VrfOutput: h(byte(i))})
		}
		ac.Values = append(ac.Values, s)
	}
	out = append(out, ac)
	return out
}
