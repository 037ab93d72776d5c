package simrt

import (
	"cmp"
	"fmt"
	"reflect"
	"runtime"
	"slices"
	"sort"
	"sync"
	"time"
	"unsafe"
)

// Hooks called by the instrumented copy of the code under test. All of them
// are transparent when no simulation is running.

type skipObservation struct{}

// Observe calls fn at every scheduling point of the code under test, until
// it is called with nil. fn may call the library: it runs at one instant of
// the simulated execution and is skipped where a lock it needs is held.
func (s *Sim) Observe(fn func()) { obs = fn }

func observe() { sim.Instant(obs) }

// Instant runs fn at one instant: no other thread runs before it ends. It is
// abandoned where a lock it needs is held.
func (s *Sim) Instant(f func()) {
	if s.observing {
		return
	}
	s.observing = true
	defer func() {
		s.observing = false
		if r := recover(); r != nil {
			if _, ok := r.(skipObservation); !ok {
				panic(r)
			}
		}
	}()
	f()
}

// Pre is a scheduling point before an atomic operation.
func Pre[F any](f F) F {
	if on {
		syncPoint()
		unknownSync()
	}
	return f
}

// Arg is the last argument of an atomic operation: a scheduling point between
// the evaluation of the arguments and the operation.
func Arg[T any](v T) T {
	if on {
		syncPoint()
		unknownSync()
	}
	return v
}

// Set splits a read-modify-write of shared memory into its two halves.
func Set[T any](p *T, v T) {
	if on {
		syncPoint()
		if race {
			touchAllOf(p, aWrite)
		}
	}
	*p = v
}

// Now replaces time.Now.
func Now() time.Time {
	if !on {
		return time.Now()
	}
	if sim.NowHook != nil {
		return sim.NowHook()
	}
	return sim.Clock()
}

// Since replaces time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until replaces time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep replaces time.Sleep.
func Sleep(d time.Duration) {
	if !on {
		time.Sleep(d)
		return
	}
	sim.cur.inLib = true
	sim.cur.sleep = true
	sim.cur.until = sim.now + int64(d)
	sim.resched()
	sim.cur.inLib = false
}

type emptyIface struct{ _, p unsafe.Pointer }

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

func (s *Sim) access(q unsafe.Pointer, write bool) {
	p := uintptr(q)
	if race && p != 0 {
		k := aRead
		if write {
			k = aWrite
		}
		s.touch(q, k)
	}
	if p == 0 || len(s.threads) < 2 || s.stop {
		return
	}
	tid := s.cur.id
	if mk, ok := s.marks[p]; ok && mk.n > 0 && (write || mk.write) && !(mk.tid == tid && mk.n == 1) {
		s.Fail("concurrent-map-access", "a map is written while another thread accesses it (the Go runtime aborts the process on this)")
	}
	if s.marks == nil {
		s.marks = map[uintptr]mark{}
	}
	mk := s.marks[p]
	if mk.n == 0 {
		mk = mark{tid: tid, write: write}
	}
	mk.n++
	s.marks[p] = mk
	syncPoint()
	mk = s.marks[p]
	mk.n--
	if mk.n == 0 {
		delete(s.marks, p)
	} else {
		s.marks[p] = mk
	}
}

// R is a read access to a map.
func R[M ~map[K]V, K comparable, V any](m M) M {
	if on {
		sim.access(mapPtr(m), false)
	}
	return m
}

// W is a write access to a map.
func W[M ~map[K]V, K comparable, V any](m M) M {
	if on {
		sim.access(mapPtr(m), true)
	}
	return m
}

// KV is one step of an iteration over a map.
type KV[K comparable, V any] struct {
	K K
	m map[K]V
}

// Live tells whether the key is still in the map.
func (k KV[K, V]) Live() bool { _, ok := k.m[k.K]; return ok }

// Val is the key's current value.
func (k KV[K, V]) Val() V { return k.m[k.K] }

func less[K comparable](a, b K) int {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.IsValid() && vb.IsValid() && va.Kind() == vb.Kind() {
		switch {
		case va.CanInt():
			return cmp.Compare(va.Int(), vb.Int())
		case va.CanUint():
			return cmp.Compare(va.Uint(), vb.Uint())
		case va.Kind() == reflect.String:
			return cmp.Compare(va.String(), vb.String())
		}
	}
	return cmp.Compare(fmt.Sprint(a), fmt.Sprint(b))
}

// Pairs replaces the order of a map iteration by a seeded one.
func Pairs[M ~map[K]V, K comparable, V any](m M) []KV[K, V] {
	if on {
		sim.access(mapPtr(m), false)
	}
	r := make([]KV[K, V], 0, len(m))
	for k := range m {
		r = append(r, KV[K, V]{k, m})
	}
	if len(r) < 2 {
		return r
	}
	slices.SortFunc(r, func(a, b KV[K, V]) int { return less(a.K, b.K) })
	if on && !sim.stop {
		// a rotation and a direction: enough to reorder every pair of keys
		n := sim.Choose(2 * len(r))
		if n >= len(r) {
			slices.Reverse(r)
			n -= len(r)
		}
		if n > 0 {
			r = append(append(make([]KV[K, V], 0, len(r)), r[n:]...), r[:n]...)
		}
	}
	return r
}

// held is a lock the code under test holds.
type held struct {
	lock   any
	unlock func()
}

// Spin replaces a blocking lock operation by its try form.
func Spin(lock any, try func() bool, unlock func()) {
	if !on {
		for !try() {
			runtime.Gosched()
		}
		return
	}
	if sim.observing {
		if !try() {
			panic(skipObservation{})
		}
		return
	}
	syncPoint()
	s := sim
	for n := 0; !try(); n++ {
		if s.stop && s.cur.killed {
			runtime.Goexit()
		}
		if n > 2000 {
			s.Fail("deadlock", "a lock was never released")
		}
		// let somebody else run: sleep a little virtual time when alone
		s.cur.inLib = true
		s.cur.sleep = true
		s.cur.until = s.now + int64(time.Microsecond)
		s.resched()
		s.cur.inLib = false
	}
	acquire(lock)
	if lock != nil {
		s.locks = append(s.locks, held{lock, unlock})
	}
}

// Unlock replaces the release of a lock.
func Unlock(lock any, unlock func()) {
	if on && !sim.observing {
		syncPoint()
		for i := len(sim.locks) - 1; i >= 0; i-- {
			if sim.locks[i].lock == lock {
				sim.locks = append(sim.locks[:i], sim.locks[i+1:]...)
				break
			}
		}
		release(lock)
	}
	unlock()
}

// block waits inside the code under test, where a thread can't be aborted.
func (s *Sim) block(cond func() bool) {
	for !cond() {
		s.cur.inLib = true
		s.cur.cond = cond
		s.resched()
		s.cur.inLib = false
	}
}

type onceState struct{ running, done bool }

// OnceDo replaces sync.Once.Do.
func OnceDo(o *sync.Once, f func()) {
	if !on {
		o.Do(f)
		return
	}
	syncPoint()
	s := sim
	if s.onces == nil {
		s.onces = map[any]*onceState{}
	}
	st := s.onces[o]
	if st == nil {
		st = &onceState{}
		s.onces[o] = st
	}
	if st.running {
		s.block(func() bool { return !st.running })
		acquire(o)
		return
	}
	if st.done {
		acquire(o)
		return
	}
	st.running = true
	defer func() {
		st.running, st.done = false, true
		release(o)
	}()
	o.Do(f)
}

// OnceFunc, OnceValue and OnceValues replace the functions of sync.
func OnceFunc(f func()) func() {
	o := new(sync.Once)
	return func() { OnceDo(o, f) }
}

// OnceValue replaces sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	o := new(sync.Once)
	var v T
	return func() T {
		OnceDo(o, func() { v = f() })
		return v
	}
}

// OnceValues replaces sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	o := new(sync.Once)
	var v T
	var u U
	return func() (T, U) {
		OnceDo(o, func() { v, u = f() })
		return v, u
	}
}

// PoolGet replaces sync.Pool.Get by a deterministic pool.
func PoolGet(p *sync.Pool) any {
	if !on {
		return p.Get()
	}
	syncPoint()
	s := sim
	acquire(p)
	if l := s.pools[p]; len(l) > 0 {
		// any pooled object may come back, or none
		i := s.Choose(len(l) + 1)
		if i < len(l) {
			i = len(l) - 1 - i
			x := l[i]
			s.pools[p] = append(append([]any{}, l[:i]...), l[i+1:]...)
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// PoolPut replaces sync.Pool.Put.
func PoolPut(p *sync.Pool, x any) {
	if !on {
		p.Put(x)
		return
	}
	syncPoint()
	s := sim
	release(p)
	if s.pools == nil {
		s.pools = map[any][]any{}
	}
	s.pools[p] = append(s.pools[p], x)
}

// Go replaces the go statement.
func Go(f func()) {
	if !on {
		// initialisation: the goroutine starts with the next run
		pending = append(pending, func() { Go(f) })
		return
	}
	sim.Go(fmt.Sprintf("lib%d", sim.ids), f).lib = true
}

// WgAdd, WgDone and WgWait replace the methods of sync.WaitGroup.
func WgAdd(w *sync.WaitGroup, n int) {
	if !on {
		w.Add(n)
		return
	}
	if sim.wgs == nil {
		sim.wgs = map[any]int{}
	}
	sim.wgs[w] += n
}

// WgDone replaces sync.WaitGroup.Done.
func WgDone(w *sync.WaitGroup) {
	if !on {
		w.Done()
		return
	}
	syncPoint()
	release(w)
	WgAdd(w, -1)
}

// WgWait replaces sync.WaitGroup.Wait.
func WgWait(w *sync.WaitGroup) {
	if !on {
		w.Wait()
		return
	}
	s := sim
	s.block(func() bool { return s.wgs[w] <= 0 })
	acquire(w)
}

// SortedKeys lists the keys of a histogram.
func SortedKeys(m map[string]int64) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
