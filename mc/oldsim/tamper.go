package oldsim

import (
	"fmt"
	"reflect"
)

// edits lists every change of a single part of a message: numbers, byte
// strings, optional parts, and elements of lists.
type editor struct {
	left int // edits to skip
	name string
	done bool
}

// try runs f if it is this edit's turn.
func (e *editor) try(name string, f func()) {
	if e.done {
		return
	}
	if e.left > 0 {
		e.left--
		return
	}
	f()
	e.name, e.done = name, true
}

func (e *editor) walk(path string, v reflect.Value) {
	if e.done {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			if v.CanSet() {
				e.try(path+" given", func() { v.Set(reflect.New(v.Type().Elem())) })
			}
			return
		}
		if v.CanSet() {
			e.try(path+" left out", func() { v.Set(reflect.Zero(v.Type())) })
		}
		e.walk(path, v.Elem())
	case reflect.Struct:
		for i := range v.NumField() {
			if v.Type().Field(i).IsExported() {
				e.walk(path+"."+v.Type().Field(i).Name, v.Field(i))
			}
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		old := v.Uint()
		for _, x := range []uint64{0, 1, 2, 3, old - 1, old + 1, old + 2, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
			if x != old {
				e.try(fmt.Sprintf("%s %d instead of %d", path, x, old), func() { v.SetUint(x) })
			}
		}
	case reflect.Slice:
		n := v.Len()
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if !v.CanSet() {
				return
			}
			e.try(path+" zeroed", func() { v.SetBytes(make([]byte, n)) })
			e.try(path+" extended", func() { v.SetBytes(append(append([]byte{}, v.Bytes()...), 0)) })
			if n == 0 {
				e.try(path+" given", func() { v.SetBytes([]byte("0123456789abcdef0123456789abcdef")) })
			} else {
				e.try(path+" emptied", func() { v.SetBytes(nil) })
				e.try(path+" shortened", func() { v.SetBytes(append([]byte{}, v.Bytes()[:n-1]...)) })
			}
			return
		}
		if v.Type().Elem().Kind() != reflect.Interface {
			e.try(path+" with one more", func() { v.Set(reflect.Append(concat(v), blank(v.Type().Elem()))) })
		}
		if n > 0 {
			e.try(path+" emptied", func() { v.Set(reflect.MakeSlice(v.Type(), 0, 0)) })
		}
		for i := range n {
			if e.done {
				return
			}
			at := fmt.Sprintf("%s[%d]", path, i)
			e.try(at+" dropped", func() { v.Set(concat(v.Slice(0, i), v.Slice(i+1, n))) })
			e.try(at+" and the rest dropped", func() { v.Set(concat(v.Slice(0, i))) })
			e.try(at+" doubled", func() { v.Set(concat(v.Slice(0, i+1), v.Slice(i, n))) })
			for j := range n {
				if i < j {
					e.try(fmt.Sprintf("%s swapped with %d", at, j), func() {
						c := concat(v)
						c.Index(i).Set(v.Index(j))
						c.Index(j).Set(v.Index(i))
						v.Set(c)
					})
				}
				if i != j {
					e.try(fmt.Sprintf("%s replaced by %d", at, j), func() {
						c := concat(v)
						c.Index(i).Set(v.Index(j))
						v.Set(c)
					})
				}
			}
			if !e.done {
				e.walk(at, v.Index(i))
			}
		}
	}
}

// blank returns a value to add to a list: all zeros, with byte strings as long
// as a hash.
func blank(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	switch {
	case t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8:
		v.SetBytes(make([]byte, 32))
	case t.Kind() == reflect.Struct:
		for i := range t.NumField() {
			if v.Field(i).CanSet() {
				v.Field(i).Set(blank(t.Field(i).Type))
			}
		}
	}
	return v
}

func concat(vs ...reflect.Value) reflect.Value {
	out := reflect.MakeSlice(vs[0].Type(), 0, 0)
	for _, v := range vs {
		out = reflect.AppendSlice(out, v)
	}
	return out
}

// Edit applies the k-th edit to the message and says what it did, "" if there
// are no more than k.
func Edit(m any, k int) string {
	e := &editor{left: k}
	e.walk("", reflect.ValueOf(m))
	return e.name
}

// Graft replaces a part of the message by a part of the same type and role in
// another one, and says what it did, "" if there are no more than k.
func Graft(m, other any, k int) string {
	e := &editor{left: k}
	e.graft("", reflect.ValueOf(m), reflect.ValueOf(other))
	return e.name
}

func (e *editor) graft(path string, v, o reflect.Value) {
	if e.done {
		return
	}
	if v.CanSet() && !reflect.DeepEqual(v.Interface(), o.Interface()) {
		e.try(path+" from another response", func() { v.Set(o) })
	}
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() && !o.IsNil() {
			e.graft(path, v.Elem(), o.Elem())
		}
	case reflect.Struct:
		for i := range v.NumField() {
			if v.Type().Field(i).IsExported() {
				e.graft(path+"."+v.Type().Field(i).Name, v.Field(i), o.Field(i))
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := range v.Len() {
			at := fmt.Sprintf("%s[%d]", path, i)
			for j := range o.Len() {
				if i == j {
					e.graft(at, v.Index(i), o.Index(j))
				} else if !reflect.DeepEqual(v.Index(i).Interface(), o.Index(j).Interface()) {
					e.try(fmt.Sprintf("%s replaced by %d of another response", at, j), func() { v.Index(i).Set(o.Index(j)) })
				}
			}
		}
	}
}

// Fields replaces every combination of the message's fields by those of
// another one: bit i of set stands for the i-th field.
func Fields(m, other any, set int) {
	v, o := reflect.ValueOf(m).Elem(), reflect.ValueOf(other).Elem()
	for i := range v.NumField() {
		if set>>i&1 == 1 {
			v.Field(i).Set(o.Field(i))
		}
	}
}

// NumFields of a message.
func NumFields(m any) int { return reflect.ValueOf(m).Elem().NumField() }
