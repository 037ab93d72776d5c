package simrt

import (
	"reflect"
	"strings"
	"sync"
	"unsafe"
)

var vars []any

// Vars registers the package variables of the code under test.
func Vars(ps ...any) { vars = append(vars, ps...) }

// HasVars tells whether the package variables are known.
func HasVars() bool { return len(vars) > 0 }

// StateSize is the number of bytes that the package variables of the code
// under test hold, with everything that can be reached from them.
func StateSize() int64 { return SizeOf(vars...) }

// Alive is the number of simulated threads that have not ended, and of timers
// that are running.
func (s *Sim) Alive() (n int) {
	n = s.armed
	for _, t := range s.threads {
		if !t.dead {
			n++
		}
	}
	return
}

type seen struct {
	p unsafe.Pointer
	n int
	t reflect.Type
}

type sizer struct {
	done  map[seen]struct{}
	bytes int64
}

// SizeOf is the number of bytes reachable from values. What a slice or a map
// has room for beyond its length does not count, nor what closures hold.
func SizeOf(vs ...any) int64 {
	z := &sizer{done: map[seen]struct{}{}}
	for _, v := range vs {
		z.walk(reflect.ValueOf(v))
	}
	return z.bytes
}

var pointers sync.Map // reflect.Type -> bool

func pointerful(t reflect.Type) bool {
	if b, ok := pointers.Load(t); ok {
		return b.(bool)
	}
	b := true
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16,
		reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128, reflect.Func:
		b = false
	case reflect.Array:
		b = t.Len() > 0 && pointerful(t.Elem())
	case reflect.Struct:
		b = false
		for i := 0; i < t.NumField(); i++ {
			b = b || pointerful(t.Field(i).Type)
		}
	}
	pointers.Store(t, b)
	return b
}

func (z *sizer) first(p unsafe.Pointer, n int, t reflect.Type) bool {
	k := seen{p, n, t}
	if _, ok := z.done[k]; ok {
		return false
	}
	z.done[k] = struct{}{}
	return true
}

var (
	typePool = reflect.TypeOf(sync.Pool{})
	typeMap  = reflect.TypeOf(sync.Map{})
)

func (z *sizer) walk(v reflect.Value) {
	if !v.IsValid() || !pointerful(v.Type()) {
		return
	}
	t := v.Type()
	switch t.Kind() {
	case reflect.Pointer:
		if !v.IsNil() && z.first(v.UnsafePointer(), 0, t) {
			z.bytes += int64(t.Elem().Size())
			z.walk(v.Elem())
		}
	case reflect.Interface:
		if e := v.Elem(); e.IsValid() {
			if e.Kind() != reflect.Pointer {
				z.bytes += int64(e.Type().Size())
			}
			z.walk(e)
		}
	case reflect.String:
		z.bytes += int64(v.Len())
	case reflect.Slice:
		if !v.IsNil() && z.first(v.UnsafePointer(), v.Len(), t) {
			z.bytes += int64(v.Len()) * int64(t.Elem().Size())
			if pointerful(t.Elem()) {
				for i := 0; i < v.Len(); i++ {
					z.walk(v.Index(i))
				}
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			z.walk(v.Index(i))
		}
	case reflect.Map:
		if !v.IsNil() && z.first(v.UnsafePointer(), 0, t) {
			z.bytes += int64(v.Len()) * int64(t.Key().Size()+t.Elem().Size())
			if pointerful(t.Key()) || pointerful(t.Elem()) {
				for it := v.MapRange(); it.Next(); {
					z.walk(it.Key())
					z.walk(it.Value())
				}
			}
		}
	case reflect.Chan:
		if !v.IsNil() {
			z.bytes += int64(v.Len()) * int64(t.Elem().Size())
		}
	case reflect.Struct:
		switch p := t.PkgPath(); {
		case t == typePool, p == "regexp", p == "reflect", p == "internal/abi", p == "time":
			// a pool's contents go away by themselves; the others don't change
			return
		case t == typeMap && v.CanAddr():
			m := (*sync.Map)(v.Addr().UnsafePointer())
			m.Range(func(k, x any) bool {
				z.bytes += 48
				z.walk(reflect.ValueOf(k))
				z.walk(reflect.ValueOf(x))
				return true
			})
			return
		case p == "sync/atomic" && strings.HasPrefix(t.Name(), "Pointer[") && v.CanAddr() && t.NumField() > 0 && t.Field(0).Type.Kind() == reflect.Array:
			z.walk(reflect.NewAt(t.Field(0).Type.Elem(), v.Addr().UnsafePointer()).Elem())
			return
		}
		for i := 0; i < v.NumField(); i++ {
			z.walk(v.Field(i))
		}
	}
}
