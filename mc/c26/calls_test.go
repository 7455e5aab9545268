package c26

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"os"
	"reflect"

	"katiemc/codecs"
	"katiemc/kit"
	"katiemc/ldb"
	"katiemc/toy"

	"github.com/Bren2010/katie/crypto/commitments"
	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/log"
	logmath "github.com/Bren2010/katie/tree/log/math"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/math"
)

func remove(dir string) { os.RemoveAll(dir) }

// fn is a function that returns data. args makes arguments anew, the same ones
// every time.
type fn struct {
	name   string
	n      int // sets of arguments
	args   func(i int) []any
	f      func(a []any) any
	random bool // the result isn't the same every time
}

// If apart, what isn't meant to be shared by goroutines is made for every call.
func functions(apart bool) (out []fn) {
	add := func(name string, n int, random bool, args func(i int) []any, f func(a []any) any) {
		out = append(out, fn{name, n, args, f, random})
	}
	val := func(i int) []byte { h := sha256.Sum256([]byte{byte(i)}); return h[:] }
	for name, cs := range map[string]suites.CipherSuite{"p256": suites.KTSha256P256{}, "ed25519": suites.KTSha256Ed25519{}} {
		key, err := cs.ParseSigningPrivateKey(append(bytes.Repeat([]byte{3}, 31), 1))
		kit.NoErr(err, "parsing a key")
		vk, err := cs.ParseVRFPrivateKey(append(bytes.Repeat([]byte{3}, 31), 1))
		kit.NoErr(err, "parsing a key")
		add(name+" Prove", 3, false, func(i int) []any { return []any{val(i)[:5+i]} }, func(a []any) any {
			o, p := vk.Prove(a[0].([]byte))
			return [][]byte{o, p}
		})
		add(name+" VRF Verify", 2, false, func(i int) []any { _, p := vk.Prove(val(i)); return []any{val(i), bytes.Clone(p)} }, func(a []any) any {
			o, err := vk.PublicKey().Verify(a[0].([]byte), a[1].([]byte))
			kit.NoErr(err, "verifying")
			return o
		})
		add(name+" VRF key", 1, false, func(int) []any { return nil }, func([]any) any { return vk.PublicKey().Bytes() })
		add(name+" Sign", 2, true, func(i int) []any { return []any{val(i)} }, func(a []any) any {
			s, err := key.Sign(a[0].([]byte))
			kit.NoErr(err, "signing")
			return s
		})
		add(name+" key", 1, false, func(int) []any { return nil }, func([]any) any { return key.Public().Bytes() })
		add(name+" parse VRF key", 1, false, func(int) []any { return []any{vk.PublicKey().Bytes()} }, func(a []any) any {
			k, err := cs.ParseVRFPublicKey(a[0].([]byte))
			kit.NoErr(err, "parsing")
			return k.Bytes()
		})
		add(name+" Commit", 2, false, func(i int) []any { return []any{val(i)[:16], val(i + 1)} }, func(a []any) any {
			return commitments.Commit(cs, a[0].([]byte), a[1].([]byte))
		})
		add(name+" opening", 1, true, func(int) []any { return nil }, func([]any) any { return commitments.GenerateOpening(cs) })
		add(name+" commitment key", 1, false, func(int) []any { return nil }, func([]any) any { return cs.CommitmentFixedBytes() })
	}
	ints := func(i int) []any { return []any{uint64(3 + 4*i), uint64(9 + 8*i)} }
	type m = func(x, n uint64) any
	for name, f := range map[string]m{
		"DirectPath":      func(x, n uint64) any { return logmath.DirectPath(x, n) },
		"Copath":          func(x, n uint64) any { return logmath.Copath(x, n) },
		"FullSubtrees":    func(x, n uint64) any { return logmath.FullSubtrees(logmath.Root(n), n) },
		"Frontier":        func(x, n uint64) any { return math.Frontier(n) },
		"LeftDirectPath":  func(x, n uint64) any { return math.LeftDirectPath(x) },
		"RightDirectPath": func(x, n uint64) any { return math.RightDirectPath(x, n) },
		"UpdateView":      func(x, n uint64) any { return math.UpdateView(n, &x) },
		"monitor ladder":  func(x, n uint64) any { return math.MonitoringBinaryLadder(uint32(x)) },
		"search ladder":   func(x, n uint64) any { return math.SearchBinaryLadder(uint32(x), uint32(n), nil, nil) },
	} {
		add(name, 3, false, ints, func(a []any) any { return f(a[0].(uint64), a[1].(uint64)) })
	}
	add("BatchCopath", 3, false, func(i int) []any { return []any{[]uint64{uint64(i), uint64(i + 3)}, uint64(9 + i)} }, func(a []any) any {
		return logmath.BatchCopath(a[0].([]uint64), a[1].(uint64), nil, nil)
	})
	cs := toy.Default
	heads := func(n int) (h [][]byte) {
		for k := range n {
			var err error
			h, err = log.Append(cs, uint64(k), h, val(k))
			kit.NoErr(err, "appending")
		}
		for k := range h {
			h[k] = bytes.Clone(h[k])
		}
		return h
	}
	add("log.Append", 4, false, func(i int) []any { return []any{heads(4 + i), uint64(4 + i), val(99)} }, func(a []any) any {
		h, err := log.Append(cs, a[1].(uint64), a[0].([][]byte), a[2].([]byte))
		kit.NoErr(err, "appending")
		return h
	})
	add("log.Root", 4, false, func(i int) []any { return []any{heads(4 + i), uint64(4 + i)} }, func(a []any) any {
		h, err := log.Root(cs, a[1].(uint64), a[0].([][]byte))
		kit.NoErr(err, "hashing")
		return h
	})
	// Trees, through a store each.
	mem := memory.NewTransparencyStore()
	grow := log.NewTree(cs, mem.LogStore())
	for k := range 12 {
		_, err := grow.Append(uint64(k), val(k))
		kit.NoErr(err, "appending")
	}
	logTree := func() *log.Tree {
		if apart {
			return log.NewTree(cs, mem.Clone().LogStore())
		}
		return grow
	}
	add("log.GetBatch", 3, false, func(i int) []any { return []any{[]uint64{uint64(i), uint64(2*i + 1)}, uint64(10 + i)} }, func(a []any) any {
		p, err := logTree().GetBatch(a[0].([]uint64), a[1].(uint64), nil, nil)
		kit.NoErr(err, "proving")
		return p
	})
	entry := func(k int) prefix.Entry { return prefix.Entry{VrfOutput: val(k), Commitment: val(k + 100)} }
	build := func(s db.PrefixStore) (t *prefix.Tree, root []byte) {
		t = prefix.NewTree(cs, s)
		for k := range 6 {
			var err error
			root, _, _, err = t.Mutate(uint64(k), []prefix.Entry{entry(2 * k), entry(2*k + 1)}, nil)
			kit.NoErr(err, "adding")
		}
		return t, root
	}
	built, root := build(mem.PrefixStore())
	prefixTree := func() *prefix.Tree {
		if apart {
			return prefix.NewTree(cs, mem.Clone().PrefixStore())
		}
		return built
	}
	search := func(k int) prefix.SearchResult {
		r, err := prefixTree().Search([]prefix.PrefixSearch{{Version: 6, VrfOutputs: [][]byte{val(k), val(k + 1)}}})
		kit.NoErr(err, "searching")
		return r[0]
	}
	add("prefix.Search", 4, false, func(i int) []any {
		return []any{[]prefix.PrefixSearch{{Version: uint64(6 - i), VrfOutputs: [][]byte{val(i), val(50)}}, {Version: 6, VrfOutputs: [][]byte{val(i + 1)}}}}
	}, func(a []any) any {
		r, err := prefixTree().Search(a[0].([]prefix.PrefixSearch))
		kit.NoErr(err, "searching")
		return r
	})
	add("prefix.Evaluate", 4, false, func(i int) []any {
		r := search(i)
		return []any{[]prefix.Entry{entry(i), entry(i + 1)}, &r.Proof}
	}, func(a []any) any {
		got, err := prefix.Evaluate(cs, a[0].([]prefix.Entry), a[1].(*prefix.PrefixProof))
		kit.NoErr(err, "evaluating")
		kit.Check(bytes.Equal(got, root), "a proof evaluates to %x", got)
		return got
	})
	add("prefix.Mutate", 3, false, func(i int) []any { return []any{[]prefix.Entry{entry(60 + i), entry(70 + i)}, [][]byte{val(i)}} }, func(a []any) any {
		// Version 7 is never completed.
		t := prefixTree()
		if apart {
			t, _ = build(memory.NewTransparencyStore().PrefixStore())
		}
		r, p, c, err := t.Mutate(6, a[0].([]prefix.Entry), a[1].([][]byte))
		kit.NoErr(err, "changing the tree")
		return []any{r, *p, c}
	})
	// Records of stores.
	fill := func(s db.TransparencyStore) db.TransparencyStore {
		for i := range 3 {
			l := []byte{byte('a' + i)}
			for _, err := range []error{s.PutTreeHead(val(1)), s.PutAuditorTreeHead(val(2)), s.PutIndex(l, val(i)), s.PutVersion(l, 1, val(i)), s.Put(uint64(i), val(i)), s.LogStore().Put(uint64(i), val(i)), s.PrefixStore().Put(string(l), val(i))} {
				kit.NoErr(err, "writing")
			}
		}
		kit.NoErr(s.Commit(), "committing")
		return s.Clone()
	}
	tmp, err := ldb.Scratch("c26")
	kit.NoErr(err, "making a scratch directory")
	defer remove(tmp)
	disk, err := ldb.Open(tmp)
	kit.NoErr(err, "opening a database")
	for name, s := range map[string]db.TransparencyStore{"memory": fill(memory.NewTransparencyStore()), "LevelDB": fill(disk)} {
		get := func() db.TransparencyStore {
			if apart {
				return s.Clone()
			}
			return s
		}
		l := func(i int) []any { return []any{[]byte{byte('a' + i)}, uint64(i)} }
		add(name+" GetTreeHead", 1, false, l, func([]any) any {
			a, b, err := get().GetTreeHead()
			kit.NoErr(err, "reading")
			return [][]byte{a, b}
		})
		add(name+" BatchGetIndex", 3, false, l, func(a []any) any {
			x, err := get().BatchGetIndex([][]byte{a[0].([]byte), {'b'}})
			kit.NoErr(err, "reading")
			return x
		})
		add(name+" GetVersion", 3, false, l, func(a []any) any {
			x, err := get().GetVersion(a[0].([]byte), 1)
			kit.NoErr(err, "reading")
			return x
		})
		add(name+" BatchGet", 3, false, l, func(a []any) any {
			x, err := get().BatchGet([]uint64{a[1].(uint64), 1})
			kit.NoErr(err, "reading")
			return x
		})
		add(name+" log BatchGet", 3, false, l, func(a []any) any {
			x, err := get().LogStore().BatchGet([]uint64{a[1].(uint64), 1})
			kit.NoErr(err, "reading")
			return x
		})
		add(name+" prefix BatchGet", 3, false, l, func(a []any) any {
			x, err := get().PrefixStore().BatchGet([]string{string(a[0].([]byte)), "b"})
			kit.NoErr(err, "reading")
			return x
		})
	}
	for _, c := range codecs.All(cs) {
		var raws [][]byte
		for _, v := range c.Values[:min(len(c.Values), 3)] {
			raw, err := c.Enc(v)
			kit.NoErr(err, "encoding")
			raws = append(raws, bytes.Clone(raw))
		}
		if len(raws) == 0 {
			continue
		}
		dec := func(a []any) any {
			v, err := c.Dec(bytes.NewBuffer(a[0].([]byte)))
			kit.NoErr(err, "decoding")
			return v
		}
		args := func(i int) []any { return []any{bytes.Clone(raws[i])} }
		add("decode "+c.Name, len(raws), false, args, dec)
		add("encode "+c.Name, len(raws), c.Loose, args, func(a []any) any {
			raw, err := c.Enc(dec(a))
			kit.NoErr(err, "encoding")
			return raw
		})
	}
	return out
}

// calls checks that data that was returned or passed stays as it is.
func calls(r *kit.Run) {
	norm := func(x any) any { return codecs.Norm(reflect.ValueOf(x)) }
	n := len(functions(false))
	r.Count("functions", int64(n))
	var tables [8][]fn
	r.Parallel(8, func(i int) { r.Try(func() any { return "functions" }, func() { tables[i] = functions(false) }) })
	free := make(chan []fn, 8)
	for i := range 8 {
		byName := map[string]fn{}
		for _, f := range tables[i] {
			byName[f.name] = f
		}
		for k, f := range tables[0] { // the same order everywhere
			tables[i][k] = byName[f.name]
		}
	}
	for i := range 8 {
		free <- tables[i]
	}
	r.Parallel(n, func(k int) {
		fs := <-free
		defer func() { free <- fs }()
		f := fs[k]
		for _, g := range fs {
			for i := range f.n {
				for j := range g.n {
					r.Transition()
					r.Distinct(fmt.Sprint(f.name, i, g.name, j))
					r.Try(func() any {
						return map[string]any{"first": f.name, "arguments": i, "second": g.name, "arguments of the second": j}
					}, func() {
						args := f.args(i)
						was := norm(args)
						out := f.f(args)
						before := norm(out)
						g.f(g.args(j))
						kit.Check(reflect.DeepEqual(norm(args), was), "%s changes its arguments from %v to %v", f.name, was, norm(args))
						kit.Check(reflect.DeepEqual(norm(out), before), "what %s returned becomes %v, after %s, it was %v", f.name, norm(out), g.name, before)
						if !f.random {
							again := norm(f.f(f.args(i)))
							kit.Check(reflect.DeepEqual(again, before), "%s returns %v at first, and %v after %s", f.name, before, again, g.name)
						}
						r.Eval()
					})
				}
			}
		}
	})
}
