package c26

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"testing"

	"katiemc/kit"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// races runs TestRace, in processes built with the race detector. Where there
// is no data race, what happens between two points of synchronisation can't be
// told from it happening at once, so that schedules need to switch only there.
func races(r *kit.Run) {
	bin := os.Getenv("VERIF_RACE")
	kit.Check(bin != "", "VERIF_RACE is not set")
	const n = 8
	r.Parallel(n, func(i int) {
		cmd := exec.Command(bin, "-test.run", "^TestRace$", "-test.timeout", "0", "-test.count", "1")
		cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_SHARD=%d/%d", i, n), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
		var stdout, stderr bytes.Buffer
		cmd.Stdout, cmd.Stderr = &stdout, &stderr
		err := cmd.Run()
		last := "setup"
		for l := bufio.NewScanner(&stdout); l.Scan(); {
			if p, ok := strings.CutPrefix(l.Text(), "PAIR "); ok {
				last = p
				r.Transition()
				r.Distinct(p)
				r.Eval()
			}
		}
		r.Try(func() any { return map[string]any{"at the same time": last} }, func() {
			kit.Check(!strings.Contains(stderr.String(), "DATA RACE"), "%s: %s", last, stderr.String())
			kit.Check(err == nil, "%s: %v: %s", last, err, stderr.String())
		})
	})
}

func TestRace(t *testing.T) {
	var shard, of int
	if n, _ := fmt.Sscanf(os.Getenv("VERIF_SHARD"), "%d/%d", &shard, &of); n != 2 {
		t.Skip("run by TestCheck")
	}
	// Nothing may synchronise the two but what they do themselves.
	both := func(name string, a, b func()) {
		fmt.Println("PAIR", name)
		done := make(chan any, 2)
		for _, f := range []func(){a, b} {
			go func() {
				defer func() { done <- recover() }()
				f()
			}()
		}
		for range 2 {
			if p := <-done; p != nil {
				panic(p)
			}
		}
	}
	k := 0
	mine := func() bool { k++; return k%of == shard }
	fs := functions(true)
	for i, f := range fs {
		for _, g := range fs[:i+1] {
			if !mine() {
				continue
			}
			for j := range min(2, g.n) {
				a, b := f.args(0), g.args(j)
				both(fmt.Sprintf("%s 0, %s %d", f.name, g.name, j), func() { f.f(a) }, func() { g.f(b) })
			}
		}
	}
	for mode := structs.ContactMonitoring; mode <= structs.ThirdPartyAuditing; mode++ {
		sc := newScene(t, nil, mode, steps[:3], func() db.TransparencyStore { return memory.NewTransparencyStore() }, false)
		jobs := sc.jobs()
		for i, a := range jobs {
			for _, b := range jobs[:i+1] {
				if !mine() {
					continue
				}
				doA, judgeA := a.prepare()
				doB, judgeB := b.prepare()
				both(fmt.Sprintf("mode %d: %s, %s", mode, a.name, b.name), doA, doB)
				judgeA()
				judgeB()
			}
		}
	}
}
