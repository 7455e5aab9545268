// C18: wire and state encodings round-trip and refuse malformed bytes.
package c18

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"testing"

	"katiemc/codecs"
	"katiemc/kit"
	"katiemc/toy"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// A suite with short hashes, openings and VRF proofs keeps messages small
// enough to try every corruption.
var cs = toy.Suite{ID: 7, Size: 3, Open: 2, Proof: 4}

// accept checks whatever a decoder makes of raw: an error, or a value that
// encodes to exactly the bytes that were consumed. It returns the value.
func accept(c codecs.Codec, raw []byte) (any, []byte) {
	buf := bytes.NewBuffer(bytes.Clone(raw))
	v, err := c.Dec(buf)
	if err != nil {
		return nil, nil
	}
	used := raw[:len(raw)-buf.Len()]
	kit.Check(bytes.HasSuffix(raw, buf.Bytes()), "the decoder changed the bytes it left over")
	enc, err := c.Enc(v)
	kit.NoErr(err, "encoding a decoded value")
	if !bytes.Equal(enc, used) {
		if c.Loose {
			w, err := c.Dec(bytes.NewBuffer(enc))
			kit.NoErr(err, "decoding again")
			kit.Check(codecs.Same(v, w) && len(enc) == len(used), "decoded value does not survive encoding")
		} else {
			kit.Failf("decoded value encodes to %x, not to the %x it was decoded from", enc, used)
		}
	}
	return v, used
}

func TestCheck(t *testing.T) {
	r := kit.Start("C18", "exploration", "every message and state type: a set of values crossing all optional fields and list lengths 0-3; for each encoding every truncation, every change of one byte to every value, every byte inserted or removed, and (small ones) every pair of changed bytes from a boundary set; all byte strings up to a short length; every length field at its limits; distinct = (type, value)")
	cds := codecs.All(cs)
	cds = append(cds, renamed("production suite ", codecs.All(suites.KTSha256P256{}))...)

	// 1. Round trips, uniqueness, determinism, self-delimitation.
	type job struct {
		c   codecs.Codec
		v   any
		raw []byte
	}
	var jobs []job
	for _, c := range cds {
		seen := map[string]any{}
		for _, v := range c.Values {
			r.Eval()
			r.Distinct(c.Name + fmt.Sprint(codecs.Norm(reflect.ValueOf(v))))
			desc := func() any {
				return map[string]any{"type": c.Name, "value": fmt.Sprint(codecs.Norm(reflect.ValueOf(v)))}
			}
			r.Try(desc, func() {
				before := fmt.Sprint(codecs.Norm(reflect.ValueOf(v)))
				raw, err := c.Enc(v)
				kit.NoErr(err, "encoding")
				kit.Check(fmt.Sprint(codecs.Norm(reflect.ValueOf(v))) == before, "encoding changes the value")
				for range 8 {
					again, err := c.Enc(v)
					kit.Check(err == nil && bytes.Equal(raw, again), "encoding twice gives %x and %x", raw, again)
				}
				w, used := accept(c, raw)
				kit.Check(w != nil, "the decoder refuses the encoding %x", raw)
				kit.Check(len(used) == len(raw), "the decoder leaves %d bytes of its own encoding", len(raw)-len(used))
				kit.Check(codecs.Same(v, w), "decoded to %v", codecs.Norm(reflect.ValueOf(w)))
				for _, tail := range []string{"\x00", "\x01tail", "\xff\xff\xff\xff\xff"} {
					w, used := accept(c, append(bytes.Clone(raw), tail...))
					kit.Check(w != nil && len(used) == len(raw) && codecs.Same(v, w), "bytes that follow the message change what it decodes to")
				}
				if x, ok := seen[string(raw)]; ok && !codecs.Same(x, v) {
					kit.Failf("two values share the encoding %x", raw)
				}
				seen[string(raw)] = v
				jobs = append(jobs, job{c, v, raw})
			})
		}
	}
	r.Count("values", int64(len(jobs)))

	// 2. Corruptions.
	maxLen := kit.Pick(r, 260, 700)
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		if len(j.raw) > maxLen {
			return
		}
		n := int64(0)
		try := func(what string, raw []byte) (v any, used []byte) {
			n++
			r.Try(func() any {
				return map[string]any{"type": j.c.Name, "corruption": what, "bytes": fmt.Sprintf("%x", raw), "of": fmt.Sprintf("%x", j.raw)}
			}, func() { v, used = accept(j.c, raw) })
			return
		}
		// Truncations and prefixes: never the same value from fewer bytes.
		for k := range j.raw {
			v, _ := try("truncated", j.raw[:k])
			if v != nil {
				r.Try(func() any {
					return map[string]any{"type": j.c.Name, "bytes": fmt.Sprintf("%x", j.raw[:k]), "of": fmt.Sprintf("%x", j.raw)}
				}, func() { kit.Failf("a truncated encoding is accepted") })
			}
		}
		if len(j.raw) <= 120 || !r.Quick() {
			for k := range j.raw {
				for x := 1; x < 256; x++ {
					raw := bytes.Clone(j.raw)
					raw[k] ^= byte(x)
					v, used := try("byte changed", raw)
					if v != nil && k < len(used) && codecs.Same(v, j.v) {
						r.Try(func() any { return map[string]any{"type": j.c.Name, "bytes": fmt.Sprintf("%x", raw)} },
							func() { kit.Failf("two encodings of the same value: byte %d changed", k) })
					}
				}
			}
		} else {
			for k := range j.raw {
				for _, x := range []byte{0, 1, 2, 3, 127, 128, 254, 255, j.raw[k] + 1, j.raw[k] - 1} {
					raw := bytes.Clone(j.raw)
					raw[k] = x
					try("byte changed", raw)
				}
			}
		}
		for k := 0; k <= len(j.raw); k++ {
			for _, x := range []byte{0, 1, 2, 255} {
				try("byte inserted", append(append(bytes.Clone(j.raw[:k]), x), j.raw[k:]...))
			}
			if k < len(j.raw) {
				try("byte removed", append(bytes.Clone(j.raw[:k]), j.raw[k+1:]...))
			}
		}
		if len(j.raw) <= kit.Pick(r, 28, 60) {
			vals := []byte{0, 1, 2, 3, 0x7f, 0x80, 0xfe, 0xff}
			for k := range j.raw {
				for l := range k {
					for _, x := range vals {
						for _, y := range vals {
							raw := bytes.Clone(j.raw)
							raw[k], raw[l] = x, y
							try("two bytes changed", raw)
						}
					}
				}
			}
		}
		r.Evals(n)
	})

	// 3. All short byte strings over a boundary alphabet.
	alpha := []byte{0, 1, 2, 3, 4, 0xff}
	L := kit.Pick(r, 6, 8)
	r.Parallel(len(cds), func(i int) {
		c := cds[i]
		n := int64(0)
		var rec func(s []byte)
		rec = func(s []byte) {
			n++
			r.Try(func() any { return map[string]any{"type": c.Name, "bytes": fmt.Sprintf("%x", s)} }, func() { accept(c, s) })
			if len(s) == L {
				return
			}
			for _, x := range alpha {
				rec(append(s, x))
			}
		}
		rec(nil)
		for x := range 1 << 16 {
			s := []byte{byte(x >> 8), byte(x)}
			n++
			r.Try(func() any { return map[string]any{"type": c.Name, "bytes": fmt.Sprintf("%x", s)} }, func() { accept(c, s) })
		}
		r.Evals(n)
	})

	// 4. Memory: a message with a huge length field must not make the decoder
	// allocate more than a small multiple of what a message could hold.
	for _, j := range jobs {
		if len(j.raw) > 200 {
			continue
		}
		for k := range j.raw {
			for _, w := range []int{1, 2, 4} {
				if k+w > len(j.raw) {
					continue
				}
				raw := bytes.Clone(j.raw)
				for l := range w {
					raw[k+l] = 0xff
				}
				r.Eval()
				r.Try(func() any { return map[string]any{"type": j.c.Name, "bytes": fmt.Sprintf("%x", raw)} }, func() {
					var a, z runtime.MemStats
					runtime.ReadMemStats(&a)
					j.c.Dec(bytes.NewBuffer(raw))
					runtime.ReadMemStats(&z)
					got := z.TotalAlloc - a.TotalAlloc
					kit.Check(got < 16<<20, "decoding %d bytes allocates %d bytes", len(raw), got)
				})
			}
		}
	}

	// 5. Length limits: the longest list or string is encoded and comes back,
	// one more is refused.
	limits(r)

	r.Sample(map[string]any{"type": jobs[0].c.Name, "bytes": fmt.Sprintf("%x", jobs[0].raw)})
	r.Assume("fixed-size fields (hashes, openings, VRF proofs) have the size of the suite")
	r.Finish()
}

func renamed(p string, cs []codecs.Codec) []codecs.Codec {
	for i := range cs {
		cs[i].Name = p + cs[i].Name
	}
	return cs
}

func rep[T any](n int, x T) []T {
	out := make([]T, n)
	for i := range out {
		out[i] = x
	}
	return out
}

func limits(r *kit.Run) {
	cm := codecs.Config(structs.ContactMonitoring, cs)
	tpm := codecs.Config(structs.ThirdPartyManagement, cs)
	h := []byte{1, 2, 3}
	pp := codecs.PrefixProofs(cs)
	type lim struct {
		name string
		max  int
		enc  func(n int) structs.Marshaller
		dec  func(*bytes.Buffer) (any, error)
	}
	d := func(f func(*bytes.Buffer) (any, error)) func(*bytes.Buffer) (any, error) { return f }
	step := structs.BinaryLadderStep{Proof: []byte{1, 2, 3, 4}}
	lims := []lim{
		{"SearchRequest label", 255, func(n int) structs.Marshaller { return &structs.SearchRequest{Label: make([]byte, n)} }, d(func(x *bytes.Buffer) (any, error) { return structs.NewSearchRequest(x) })},
		{"ContactMonitorRequest label", 255, func(n int) structs.Marshaller { return &structs.ContactMonitorRequest{Label: make([]byte, n)} }, d(func(x *bytes.Buffer) (any, error) { return structs.NewContactMonitorRequest(x) })},
		{"ContactMonitorRequest entries", 255, func(n int) structs.Marshaller {
			return &structs.ContactMonitorRequest{Entries: make([]structs.MonitorMapEntry, n)}
		}, d(func(x *bytes.Buffer) (any, error) { return structs.NewContactMonitorRequest(x) })},
		{"OwnerInitRequest label", 255, func(n int) structs.Marshaller { return &structs.OwnerInitRequest{Label: make([]byte, n)} }, d(func(x *bytes.Buffer) (any, error) { return structs.NewOwnerInitRequest(x) })},
		{"OwnerMonitorRequest label", 255, func(n int) structs.Marshaller { return &structs.OwnerMonitorRequest{Label: make([]byte, n)} }, d(func(x *bytes.Buffer) (any, error) { return structs.NewOwnerMonitorRequest(x) })},
		{"OwnerMonitorRequest entries", 255, func(n int) structs.Marshaller {
			return &structs.OwnerMonitorRequest{Entries: make([]structs.MonitorMapEntry, n)}
		}, d(func(x *bytes.Buffer) (any, error) { return structs.NewOwnerMonitorRequest(x) })},
		{"UpdateRequest label", 255, func(n int) structs.Marshaller { return &structs.UpdateRequest{Label: make([]byte, n)} }, d(func(x *bytes.Buffer) (any, error) { return structs.NewUpdateRequest(x) })},
		{"UpdateRequest values", 255, func(n int) structs.Marshaller { return &structs.UpdateRequest{Values: make([]structs.LabelValue, n)} }, d(func(x *bytes.Buffer) (any, error) { return structs.NewUpdateRequest(x) })},
		{"ManagerUpdateRequest label", 255, func(n int) structs.Marshaller { return &structs.ManagerUpdateRequest{Label: make([]byte, n)} }, d(func(x *bytes.Buffer) (any, error) { return structs.NewManagerUpdateRequest(tpm, x) })},
		{"ManagerUpdateRequest values", 255, func(n int) structs.Marshaller {
			return &structs.ManagerUpdateRequest{Values: rep(n, structs.UpdateValue{UpdateSuffix: structs.UpdateSuffix{Signature: []byte{}}})}
		}, d(func(x *bytes.Buffer) (any, error) { return structs.NewManagerUpdateRequest(tpm, x) })},
		{"signature", 65535, func(n int) structs.Marshaller { return &structs.TreeHead{Signature: make([]byte, n)} }, d(func(x *bytes.Buffer) (any, error) { return structs.NewTreeHead(x) })},
		{"auditor signature", 65535, func(n int) structs.Marshaller { return &structs.AuditorTreeHead{Signature: make([]byte, n)} }, d(func(x *bytes.Buffer) (any, error) { return structs.NewAuditorTreeHead(x) })},
		{"operator signature", 65535, func(n int) structs.Marshaller {
			return &structs.UpdateValue{UpdateSuffix: structs.UpdateSuffix{Signature: make([]byte, n)}}
		}, d(func(x *bytes.Buffer) (any, error) { return structs.NewUpdateValue(tpm, x) })},
		{"inclusion elements", 65535, func(n int) structs.Marshaller { return &structs.InclusionProof{Elements: rep(n, h)} }, d(func(x *bytes.Buffer) (any, error) { return structs.NewInclusionProof(cs, x) })},
		{"timestamps", 255, func(n int) structs.Marshaller { return &structs.CombinedTreeProof{Timestamps: make([]uint64, n)} }, d(func(x *bytes.Buffer) (any, error) { return structs.NewCombinedTreeProof(cs, x) })},
		{"prefix proofs", 255, func(n int) structs.Marshaller { return &structs.CombinedTreeProof{PrefixProofs: rep(n, pp[1])} }, d(func(x *bytes.Buffer) (any, error) { return structs.NewCombinedTreeProof(cs, x) })},
		{"prefix roots", 255, func(n int) structs.Marshaller { return &structs.CombinedTreeProof{PrefixRoots: rep(n, h)} }, d(func(x *bytes.Buffer) (any, error) { return structs.NewCombinedTreeProof(cs, x) })},
		{"search ladder", 255, func(n int) structs.Marshaller {
			return &structs.SearchResponse{Version: codecs.Ptr(uint32(1)), Opening: []byte{1, 2}, BinaryLadder: rep(n, step)}
		}, d(func(x *bytes.Buffer) (any, error) { return structs.NewSearchResponse(cm, &structs.SearchRequest{}, x) })},
		{"init versions", 255, func(n int) structs.Marshaller { return &structs.OwnerInitResponse{GreatestVersions: make([]uint32, n)} }, d(func(x *bytes.Buffer) (any, error) { return structs.NewOwnerInitResponse(cm, x) })},
		{"init ladder", 65535, func(n int) structs.Marshaller { return &structs.OwnerInitResponse{BinaryLadder: rep(n, step)} }, d(func(x *bytes.Buffer) (any, error) { return structs.NewOwnerInitResponse(cm, x) })},
		{"update values", 255, func(n int) structs.Marshaller {
			return &structs.UpdateResponse{Values: make([]structs.LabelValue, n)}
		}, d(func(x *bytes.Buffer) (any, error) { return structs.NewUpdateResponse(cm, x) })},
		{"update info", 255, func(n int) structs.Marshaller {
			return &structs.UpdateResponse{Info: rep(n, structs.UpdateInfo{Opening: []byte{1, 2}})}
		}, d(func(x *bytes.Buffer) (any, error) { return structs.NewUpdateResponse(cm, x) })},
		{"update ladder", 255, func(n int) structs.Marshaller { return &structs.UpdateResponse{BinaryLadder: rep(n, step)} }, d(func(x *bytes.Buffer) (any, error) { return structs.NewUpdateResponse(cm, x) })},
		{"added entries", 65535, func(n int) structs.Marshaller {
			return &structs.AuditorUpdate{Added: rep(n, prefix.Entry{VrfOutput: h, Commitment: h}), Proof: pp[0]}
		}, d(func(x *bytes.Buffer) (any, error) { return structs.NewAuditorUpdate(cs, x) })},
		{"removed entries", 65535, func(n int) structs.Marshaller {
			return &structs.AuditorUpdate{Removed: rep(n, prefix.Entry{VrfOutput: h, Commitment: h}), Proof: pp[0]}
		}, d(func(x *bytes.Buffer) (any, error) { return structs.NewAuditorUpdate(cs, x) })},
		{"proof results", 255, func(n int) structs.Marshaller {
			return &prefix.PrefixProof{Results: rep(n, pp[1].Results[0])}
		}, d(func(x *bytes.Buffer) (any, error) { return prefix.NewPrefixProof(cs, x) })},
		{"proof elements", 65535, func(n int) structs.Marshaller { return &prefix.PrefixProof{Elements: rep(n, h)} }, d(func(x *bytes.Buffer) (any, error) { return prefix.NewPrefixProof(cs, x) })},
		{"client subtrees", 255, func(n int) structs.Marshaller { return &structs.ClientState{FullSubtrees: rep(n, h)} }, d(func(x *bytes.Buffer) (any, error) { return structs.NewClientState(cm, x) })},
		{"client log entries", 255, func(n int) structs.Marshaller {
			m := map[uint64]structs.LogEntry{}
			for i := range n {
				m[uint64(i)] = structs.LogEntry{PrefixTree: h}
			}
			return &structs.ClientState{LogEntries: m}
		}, d(func(x *bytes.Buffer) (any, error) { return structs.NewClientState(cm, x) })},
		{"contact state", 1 << 20, func(n int) structs.Marshaller {
			return &structs.ClientLabelState{Contact: make([]structs.MonitorMapEntry, n)}
		}, d(func(x *bytes.Buffer) (any, error) { return structs.NewClientLabelState(cs, x) })},
		{"upcoming versions", 1 << 20, func(n int) structs.Marshaller { return &structs.LabelOwnerState{UpcomingVers: make([]uint64, n)} }, d(func(x *bytes.Buffer) (any, error) { return structs.NewLabelOwnerState(x) })},
		{"value", 1 << 24, func(n int) structs.Marshaller { return &structs.LabelValue{Value: make([]byte, n)} }, d(func(x *bytes.Buffer) (any, error) { return structs.NewLabelValue(x) })},
	}
	// The auditor's stored state has its own form.
	for _, n := range []int{65534, 65535, 65536, 65537, 131072} {
		r.Eval()
		r.Distinct(fmt.Sprint("limit", "recently added", n))
		r.Try(func() any { return map[string]any{"field": "recently added labels of an auditor", "length": n} }, func() {
			s := &auditor.AuditorState{
				TreeHead:     structs.AuditorTreeHead{TreeSize: 1, Signature: []byte("sig")},
				FullSubtrees: [][]byte{h},
				Timestamps:   []uint64{7},
				PrefixTree:   h,
				Inserted:     rep(n, auditor.InsertedVrfOutput{Pos: 1, VrfOutput: h}),
			}
			raw, err := s.Marshal()
			if n > 65535 {
				kit.Check(err != nil, "a length of %d is encoded, although its length field holds 65535", n)
				r.Outcome("too long refused")
				return
			}
			kit.NoErr(err, "encoding")
			buf := bytes.NewBuffer(raw)
			w, err := auditor.NewAuditorState(cs, buf)
			kit.NoErr(err, "decoding")
			kit.Check(buf.Len() == 0 && codecs.Same(s, w), "does not come back")
		})
	}
	r.Parallel(len(lims), func(i int) {
		l := lims[i]
		for _, n := range []int{l.max - 1, l.max, l.max + 1, l.max + 2, 2 * l.max, 2*l.max + 2} {
			if n > l.max && l.max >= 1<<20 {
				continue // these can hold 2^32-1
			}
			r.Eval()
			r.Distinct(fmt.Sprint("limit", l.name, n))
			r.Try(func() any { return map[string]any{"field": l.name, "length": n} }, func() {
				v := l.enc(n)
				raw, err := structs.Marshal(v)
				if n > l.max {
					kit.Check(err != nil, "a length of %d is encoded, although its length field holds %d", n, l.max)
					r.Outcome("too long refused")
					return
				}
				kit.NoErr(err, "encoding")
				buf := bytes.NewBuffer(raw)
				w, err := l.dec(buf)
				kit.NoErr(err, "decoding")
				kit.Check(buf.Len() == 0 && codecs.Same(v, w), "does not come back")
			})
		}
	})
}
