package c08

import (
	"fmt"
	"slices"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"katiemc/kit"
	"katiemc/sim"
)

// scale searches logs of hundreds of entries, labels of hundreds of versions
// and entries of hundreds of labels, around the sizes at which trees, ladders,
// chunks and lengths in messages change their shape: every query of a set by
// every client that last looked at one of the sizes.
func scale(t *testing.T, r *kit.Run, d deploy, name string, sizes []uint64, step func(i int) sim.Step) {
	if r.Expired() {
		return
	}
	synctest.Test(t, func(t *testing.T) {
		r.Trace()
		var at string
		r.Try(func() any { return map[string]any{"deployment": d, "large log": name, "at": at} }, func() {
			time.Sleep(d.Start)
			w := sim.NewWorld(sim.Config(d.Opts))
			w.Behind = d.Behind
			max := slices.Max(sizes)
			phones := []*sim.Phone{sim.NewPhone()}
			from := []uint64{0}
			for i := range int(max) {
				at = fmt.Sprintf("step %d", i)
				kit.NoErr(w.Apply(step(i)), "sequencing")
				size := w.Size()
				if !slices.Contains(sizes, size) {
					continue
				}
				var labels []string
				for l := range w.Model().Labels {
					labels = append(labels, l)
				}
				slices.Sort(labels)
				if len(labels) > 3 {
					labels = []string{labels[0], labels[1], labels[len(labels)/2], labels[len(labels)-1]}
				}
				var qs []sim.Query
				for _, l := range append(labels, "nobody") {
					qs = append(qs, sim.Query{Label: l, Version: -1})
					n := int64(len(w.Model().Labels[l]))
					vs := []int64{0, n / 2, n - 2, n - 1, n, n + 1}
					for p := int64(1); p <= n; p *= 2 {
						vs = append(vs, p-1, p)
					}
					slices.Sort(vs)
					for _, v := range slices.Compact(vs) {
						if v >= 0 {
							qs = append(qs, sim.Query{Label: l, Version: v})
						}
					}
				}
				for k, p := range phones {
					for _, q := range qs {
						at = fmt.Sprintf("size %d, %v by a client last at size %d", size, q, from[k])
						r.Transition()
						c := p.Copy()
						a, _ := sim.Search(w, size, c, q)
						want := sim.Expect(w, size, q)
						kit.Check(sim.Acceptable(a, want), "%v at size %d by a client last at size %d: got %v, want %v", q, size, from[k], a, want)
						r.Outcome("large: " + a.Kind)
						r.State(fmt.Sprint(d.Name, name, size, from[k], q))
						if k == 0 && q.Version < 0 && q.Label == labels[0] {
							phones, from = append(phones, c), append(from, size)
						}
					}
				}
				sim.CheckView(w, phones[len(phones)-1])
			}
		})
	})
}

func large(t *testing.T, r *kit.Run, deploys []deploy) {
	one := []sim.Put{{Label: "A", Count: 1}}
	var many, wide []sim.Put
	for i := range 120 {
		many = append(many, sim.Put{Label: fmt.Sprintf("l%03d", i), Count: 1})
	}
	for i := range 12 {
		wide = append(wide, sim.Put{Label: strings.Repeat("x", 20*i+3), Count: 3})
	}
	shapes := []struct {
		name string
		step func(i int) sim.Step
	}{
		{"a version in every entry", func(i int) sim.Step { return sim.Step{DT: 10, Put: one} }},
		{"a version in every seventh entry, all distinguished", func(i int) sim.Step {
			s := sim.Step{DT: 2000}
			if i%7 == 3 {
				s.Put = one
			} else if i%11 == 0 {
				s.Put = []sim.Put{{Label: "B", Count: 2}}
			}
			return s
		}},
		{"the first and one other entry", func(i int) sim.Step {
			s := sim.Step{DT: 90}
			if i == 0 || i == 127 {
				s.Put = one
			}
			return s
		}},
		{"many versions at once", func(i int) sim.Step {
			s := sim.Step{DT: 400}
			if i < 3 || i%40 == 33 {
				s.Put = []sim.Put{{Label: "A", Count: 100}}
			}
			return s
		}},
		{"many labels", func(i int) sim.Step {
			s := sim.Step{DT: 300}
			if i%50 == 0 {
				s.Put = many
			} else if i%30 == 7 {
				s.Put = wide
			}
			return s
		}},
	}
	sizes := []uint64{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 255, 256, 257, 258, 271}
	if !r.Quick() {
		sizes = append(sizes, 300, 511, 512, 513, 514, 600)
	}
	r.Count("large logs", int64(len(shapes)*len(deploys)))
	r.Parallel(len(shapes)*len(deploys), func(i int) {
		s := shapes[i/len(deploys)]
		scale(t, r, deploys[i%len(deploys)], s.name, sizes, s.step)
	})
	// Tens of thousands of versions.
	r.Parallel(len(deploys), func(i int) {
		scale(t, r, deploys[i], "220 versions in every entry", kit.Pick(r, []uint64{1, 2, 19, 20, 64, 75, 150}, []uint64{1, 2, 19, 20, 64, 75, 150, 297, 298, 299, 310}), func(i int) sim.Step {
			return sim.Step{DT: 400, Put: []sim.Put{{Label: "A", Count: 220}}}
		})
	})
}
