// Package ldb opens and closes the on-disk store. The store has no Close of
// its own, so the database inside it is found by type.
package oldldb

import (
	"os"
	"path/filepath"
	"reflect"
	"unsafe"

	"katiemc/old/db"
	"github.com/syndtr/goleveldb/leveldb"
)

func Open(dir string) (db.TransparencyStore, error) { return db.NewLDBTransparencyStore(dir) }

var target = reflect.TypeOf((*leveldb.DB)(nil))

func find(v reflect.Value, depth int) *leveldb.DB {
	if depth > 6 || !v.IsValid() {
		return nil
	}
	if v.Type() == target {
		return (*leveldb.DB)(v.UnsafePointer())
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		return find(v.Elem(), depth+1)
	case reflect.Struct:
		for i := range v.NumField() {
			f := v.Field(i)
			if f.CanAddr() {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			if d := find(f, depth+1); d != nil {
				return d
			}
		}
	}
	return nil
}

// Close closes the database behind a store.
func Close(s db.TransparencyStore) {
	if d := find(reflect.ValueOf(s), 0); d != nil {
		d.Close()
	}
}

// CopyDir copies the files of a database directory.
func CopyDir(from, to string) error {
	if err := os.MkdirAll(to, 0o755); err != nil {
		return err
	}
	es, err := os.ReadDir(from)
	if err != nil {
		return err
	}
	for _, e := range es {
		if e.Name() == "LOCK" {
			continue
		}
		b, err := os.ReadFile(filepath.Join(from, e.Name()))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(to, e.Name()), b, 0o644); err != nil {
			return err
		}
	}
	return nil
}
