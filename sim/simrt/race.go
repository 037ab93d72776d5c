package simrt

import (
	"reflect"
	"unsafe"
)

// A data-race detector over happens-before, with vector clocks. It sees what
// the instrumented code reads and writes through pointers, slices and package
// variables, and orders threads by everything they synchronise with. Shadow
// cells are keyed by pointers, so an address is not reused while a run lasts.

var race bool // the running simulation looks for data races

type vclock []uint32

func (a *vclock) join(b vclock) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, x := range b {
		if (*a)[i] < x {
			(*a)[i] = x
		}
	}
}

func (a vclock) at(i int) uint32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

type epoch struct {
	tid  int
	clk  uint32
	site uint32
}

type cell struct {
	w     epoch   // last plain write
	a     epoch   // last atomic access that may write
	ld    []epoch // atomic loads, the last of each thread
	r     epoch   // last plain read
	rs    []epoch
	plain bool
}

type raceState struct {
	vc    []vclock
	objs  map[any]*vclock
	all   vclock // every release
	other vclock // releases of operations on unknown objects
	cells map[unsafe.Pointer]*cell
}

// Races turns the detector on for the rest of the run.
func (s *Sim) Races() {
	s.races = &raceState{objs: map[any]*vclock{}, cells: map[unsafe.Pointer]*cell{}}
	for _, t := range s.threads {
		s.races.clock(t.id)
	}
	race = true
}

// clock is the thread's vector clock.
func (r *raceState) clock(id int) *vclock {
	for len(r.vc) <= id {
		v := make(vclock, len(r.vc)+1)
		v[len(r.vc)] = 1
		r.vc = append(r.vc, v)
	}
	return &r.vc[id]
}

func (r *raceState) fork(parent, child int) {
	r.clock(child).join(*r.clock(parent))
	r.vc[parent][parent]++
}

// meet orders everything that has happened before what the thread does next:
// the harness let threads communicate.
func (r *raceState) meet(id int) {
	me := r.clock(id)
	for i := range r.vc {
		if i != id {
			me.join(r.vc[i])
			r.vc[i][i]++
		}
	}
}

func syncing() bool {
	return race && on && !sim.observing && !sim.stop
}

// acquire and release are the two halves of a synchronisation with an object;
// nil is an unknown one.
func acquire(o any) {
	if !syncing() {
		return
	}
	r := sim.races
	me := r.clock(sim.cur.id)
	me.join(r.other)
	if o == nil {
		me.join(r.all)
	} else if v := r.objs[o]; v != nil {
		me.join(*v)
	}
}

func release(o any) {
	if !syncing() {
		return
	}
	r := sim.races
	id := sim.cur.id
	me := *r.clock(id)
	r.all.join(me)
	if o == nil {
		r.other.join(me)
	} else {
		v := r.objs[o]
		if v == nil {
			v = new(vclock)
			r.objs[o] = v
		}
		v.join(me)
	}
	me[id]++
}

func (s *Sim) cellOf(p unsafe.Pointer) *cell {
	c := s.races.cells[p]
	if c == nil {
		c = &cell{}
		s.races.cells[p] = c
	}
	return c
}

func (s *Sim) raced(what string, e epoch) {
	s.Fail("data-race", "%s at site %d is not ordered with an access by another thread at site %d", what, s.lastSite, e.site)
}

const (
	aRead = iota
	aWrite
	aAtomic
	aLoad
)

var accessName = []string{"a read", "a write", "an atomic access", "an atomic load"}

func (s *Sim) touch(p unsafe.Pointer, kind int) {
	if p == nil || s.observing || s.stop || len(s.threads) < 2 {
		return
	}
	id := s.cur.id
	me := *s.races.clock(id)
	c := s.cellOf(p)
	now := epoch{id, me[id], s.lastSite}
	ordered := func(e epoch) bool { return e.clk == 0 || e.tid == id || e.clk <= me.at(e.tid) }
	against := func(e epoch) {
		if !ordered(e) {
			s.raced(accessName[kind], e)
		}
	}
	against(c.w)
	atomic := kind == aAtomic || kind == aLoad
	if !atomic {
		against(c.a)
	}
	switch kind {
	case aLoad:
		c.ld = note(c.ld, now)
		return
	case aRead:
		switch {
		case c.r.clk == 0 || c.r.tid == id || ordered(c.r) && len(c.rs) == 0:
			c.r = now
		default:
			c.rs = note(c.rs, now)
		}
		return
	}
	against(c.r)
	for _, e := range c.rs {
		against(e)
	}
	if atomic {
		c.a = now
		return
	}
	for _, e := range c.ld {
		against(e)
	}
	c.w, c.r, c.rs, c.ld = now, epoch{}, c.rs[:0], c.ld[:0]
}

// note keeps the last access of each thread.
func note(l []epoch, e epoch) []epoch {
	for i := range l {
		if l[i].tid == e.tid {
			l[i] = e
			return l
		}
	}
	return append(l, e)
}

// Rd is a read of a shared location.
func Rd[T any](p *T) *T {
	if race {
		sim.touch(unsafe.Pointer(p), aRead)
	}
	return p
}

// Wr is a write to a shared location.
func Wr[T any](p *T) *T {
	if race {
		sim.touch(unsafe.Pointer(p), aWrite)
	}
	return p
}

// leaves are the offsets of the words, strings and the like that a value of a
// type is made of.
func leaves(t reflect.Type) []uintptr {
	if l, ok := leafCache[t]; ok {
		return l
	}
	var l []uintptr
	var walk func(t reflect.Type, at uintptr)
	walk = func(t reflect.Type, at uintptr) {
		switch {
		case t.Size() == 0 || len(l) >= maxLeaves:
		case t.Kind() == reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				if f := t.Field(i); f.Name != "_" {
					walk(f.Type, at+f.Offset)
				}
			}
		case t.Kind() == reflect.Array:
			for i := 0; i < t.Len() && len(l) < maxLeaves; i++ {
				walk(t.Elem(), at+uintptr(i)*t.Elem().Size())
			}
		default:
			l = append(l, at)
		}
	}
	walk(t, 0)
	leafCache[t] = l
	return l
}

const maxLeaves = 64

var leafCache = map[reflect.Type][]uintptr{}

func touchAllOf[T any](p *T, kind int) {
	if p == nil {
		return
	}
	for _, o := range leaves(reflect.TypeFor[T]()) {
		sim.touch(unsafe.Add(unsafe.Pointer(p), o), kind)
	}
}

// RdAll and WrAll are accesses to a whole structure or array.
func RdAll[T any](p *T) *T {
	if race {
		touchAllOf(p, aRead)
	}
	return p
}

// WrAll is a write to a whole structure or array.
func WrAll[T any](p *T) *T {
	if race {
		touchAllOf(p, aWrite)
	}
	return p
}

const sliceTouch = 24

// RdS and WrS are accesses to the elements of a slice.
func RdS[S ~[]T, T any](b S) S {
	if race {
		touchAll(b, aRead)
	}
	return b
}

// WrS is a write to the elements of a slice.
func WrS[S ~[]T, T any](b S) S {
	if race {
		touchAll(b, aWrite)
	}
	return b
}

// Sorted is a slice about to be put into another order.
func Sorted[S ~[]T, T any](b S) S {
	if race && len(b) > 1 {
		touchAll(b, aWrite)
	}
	return b
}

func touchAll[S ~[]T, T any](b S, kind int) {
	for i := range b {
		if i >= sliceTouch {
			sim.touch(unsafe.Pointer(&b[len(b)-1]), kind)
			return
		}
		sim.touch(unsafe.Pointer(&b[i]), kind)
	}
}

// At precedes an atomic operation on a known location.
func At[F any, P any](f F, p *P) F {
	atomicAt(unsafe.Pointer(p), aAtomic)
	return f
}

// ArgAt is the last argument of an atomic operation on a known location.
func ArgAt[T, P any](v T, p *P) T {
	atomicAt(unsafe.Pointer(p), aAtomic)
	return v
}

// LdAt precedes an atomic load of a known location.
func LdAt[F any, P any](f F, p *P) F {
	atomicAt(unsafe.Pointer(p), aLoad)
	return f
}

// ArgLdAt is the last argument of an atomic load of a known location.
func ArgLdAt[T, P any](v T, p *P) T {
	atomicAt(unsafe.Pointer(p), aLoad)
	return v
}

func atomicAt(p unsafe.Pointer, kind int) {
	if !on {
		return
	}
	syncPoint()
	if !race {
		return
	}
	sim.touch(p, kind)
	acquire(p)
	if kind != aLoad {
		release(p)
	}
}

func unknownSync() {
	if race {
		acquire(nil)
		release(nil)
	}
}
