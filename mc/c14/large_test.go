package c14

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"katiemc/kit"
	"katiemc/sim"

	"github.com/Bren2010/katie/tree/transparency/structs"
)

// large sequences logs of hundreds of entries, labels of hundreds of versions
// and batches of hundreds of labels, removals among them.
func large(t *testing.T, r *kit.Run) {
	name := func(i int) string { return fmt.Sprintf("l%d", i) }
	add := func(b *sim.Batch, from, to, count int) {
		for i := from; i < to; i++ {
			for range count {
				b.Add = append(b.Add, sim.Item{Label: name(i)})
			}
		}
	}
	remove := func(b *sim.Batch, from, to int) {
		for i := max(from, 0); i < to; i++ {
			b.Remove = append(b.Remove, name(i))
		}
	}
	shapes := []struct {
		name string
		n    int
		f    func(i int) sim.Batch
	}{
		{"one label", 300, func(i int) (b sim.Batch) { add(&b, 0, 1, 1); return }},
		{"five labels that come and go", 80, func(i int) (b sim.Batch) {
			add(&b, i%5, i%5+1, 7)
			if i%10 == 9 {
				remove(&b, (i/10)%5, (i/10)%5+1)
			}
			return
		}},
		{"many labels", 40, func(i int) (b sim.Batch) {
			add(&b, 30*i, 30*i+30, 1)
			if i%4 == 3 {
				remove(&b, 30*(i-3), 30*(i-1))
				add(&b, 30*(i-2)+10, 30*(i-2)+20, 2)
			}
			return
		}},
		{"everything removed", 24, func(i int) (b sim.Batch) {
			switch i % 6 {
			case 0, 1:
				add(&b, 0, 60, i%6+1)
			case 3:
				remove(&b, 0, 60)
			case 4:
				add(&b, 0, 3, 1)
			case 5:
				remove(&b, 0, 3)
			}
			return
		}},
		{"large batches", 6, func(i int) (b sim.Batch) {
			if i%2 == 0 {
				add(&b, 0, 400, 1)
			} else {
				add(&b, 0, 2, 300)
			}
			if i == 3 || i == 4 {
				remove(&b, 100, 390)
			}
			if i == 5 {
				b = sim.Batch{}
				add(&b, 0, 2, 240)
			}
			return
		}},
		{"long labels", 30, func(i int) (b sim.Batch) {
			for k := range 12 {
				b.Add = append(b.Add, sim.Item{Label: strings.Repeat("y", 23*k+i%3), Tag: strings.Repeat("t", 1<<k)})
			}
			if i%7 == 6 {
				for k := range 6 {
					b.Remove = append(b.Remove, strings.Repeat("y", 46*k))
				}
			}
			return
		}},
	}
	timings := []int64{0, 90, 1100}
	modes := []structs.DeploymentMode{structs.ContactMonitoring, structs.ThirdPartyManagement}
	backends := []string{"disk", "memory"}
	n := len(shapes) * len(timings) * len(modes) * len(backends)
	r.Count("large histories", int64(n))
	r.Parallel(n, func(i int) {
		s := shapes[i%len(shapes)]
		dt := timings[i/len(shapes)%len(timings)]
		mode := modes[i/len(shapes)/len(timings)%2]
		backend := backends[i/len(shapes)/len(timings)/2]
		at := 0
		bubble(t, r, func() any {
			return map[string]any{"mode": mode, "backend": backend, "large history": s.name, "spacing": dt, "entry": at}
		}, func() {
			l := open(sim.Config(sim.Opts{Window: 1000, Mode: mode}), backend)
			for at = range s.n {
				time.Sleep(time.Duration(dt) * time.Millisecond)
				if !l.mutate(s.f(at)) {
					r.Outcome("large, refused")
					b := s.f(at)
					b.Remove = nil
					if !l.mutate(b) {
						r.Outcome("large, refused without removals")
						kit.Check(l.mutate(sim.Batch{}), "an empty batch is refused")
					}
				}
				r.Transition()
				r.State(fmt.Sprint(i, at))
				if at%17 == 16 {
					l.reopen()
				}
				if s.n < 30 || at == s.n/2 || at == s.n-1 {
					l.check()
				}
			}
		})
	})
}
