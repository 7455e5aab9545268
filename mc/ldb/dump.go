package ldb

import (
	"bytes"
	"errors"
	"fmt"
	"maps"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"strings"

	"github.com/Bren2010/katie/db"
)

// Dump renders everything that is in the database behind a store.
func Dump(s db.TransparencyStore) string {
	d := find(reflect.ValueOf(s), 0)
	if d == nil {
		return ""
	}
	it := d.NewIterator(nil, nil)
	defer it.Release()
	var b strings.Builder
	for it.Next() {
		fmt.Fprintf(&b, "%q=%x;", it.Key(), it.Value())
	}
	return b.String()
}

// Files reads a database directory. The database may be compacting files in
// the background; what is returned is a state that lasted for a moment.
func Files(dir string) (map[string][]byte, error) {
	var last map[string][]byte
	for range 1000 {
		out, err := files(dir)
		if err == nil && last != nil && maps.EqualFunc(out, last, bytes.Equal) {
			return out, nil
		}
		last = out
		if err != nil {
			last = nil
		}
	}
	return nil, errors.New("the files of the database keep changing")
}

func files(dir string) (map[string][]byte, error) {
	out := map[string][]byte{}
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	for _, e := range es {
		if e.Name() == "LOCK" || strings.HasPrefix(e.Name(), "LOG") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			return nil, err
		}
		out[e.Name()] = b
	}
	return out, nil
}

// Scratch makes a directory for databases, in memory if possible.
func Scratch(name string) (string, error) {
	if d, err := os.MkdirTemp("/dev/shm", name); err == nil {
		return d, nil
	}
	return os.MkdirTemp("", name)
}

// Write creates a database directory with the given files.
func Write(dir string, files map[string][]byte) error {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	for n, b := range files {
		if err := os.WriteFile(filepath.Join(dir, n), b, 0o644); err != nil {
			return err
		}
	}
	return nil
}

// Crashes lists the directories that a stop of the process can leave between
// two observations, if all that happened in between were appends: every prefix
// of what was appended. ok is false if something else happened.
//
// If more than a few kilobytes were appended, only the prefixes at and next to
// the ends of the journal's records are, and one in the middle of each: what is
// inside an unfinished record is never read back.
func Crashes(before, after map[string][]byte) (out []map[string][]byte, ok bool) {
	var grown string
	for n, b := range after {
		a, had := before[n]
		if had && string(a) == string(b) {
			continue
		}
		if grown != "" || !strings.HasPrefix(string(b), string(a)) {
			return nil, false
		}
		grown = n
	}
	if len(before) > len(after) {
		return nil, false
	}
	if grown == "" {
		return []map[string][]byte{after}, true
	}
	for _, k := range cuts(after[grown], len(before[grown])) {
		m := map[string][]byte{}
		for n, b := range after {
			m[n] = b
		}
		m[grown] = slices.Clone(after[grown][:k])
		out = append(out, m)
	}
	return out, true
}

// cuts lists where to cut a journal, of which everything from the given
// position on is new.
func cuts(raw []byte, from int) (out []int) {
	if len(raw)-from <= 4096 {
		for k := from; k <= len(raw); k++ {
			out = append(out, k)
		}
		return out
	}
	add := func(k int) {
		if k >= from && k <= len(raw) {
			out = append(out, k)
		}
	}
	// A record is a header of seven bytes, with the length in the fifth and
	// sixth, and its content; records do not cross blocks of 32 KB.
	for k := 0; k < len(raw); {
		if 1<<15-k%(1<<15) < 7 || k+7 > len(raw) {
			add(k)
			k = (k/(1<<15) + 1) << 15
			continue
		}
		n := 7 + int(raw[k+4]) + int(raw[k+5])<<8
		for _, x := range []int{k, k + 1, k + 6, k + 7, k + 8, k + n/2, k + n - 1} {
			add(x)
		}
		k += n
	}
	add(len(raw))
	slices.Sort(out)
	return slices.Compact(out)
}
