package simrt

import (
	"fmt"
	"time"
	"unsafe"
)

// The timers of the code under test follow the monotonic clock of the
// simulation.

type simTimer struct {
	gen    int // distinguishes settings of the timer
	active bool
	every  time.Duration
	f      func()
	c      chan time.Time
}

var timers = map[unsafe.Pointer]*simTimer{}

func pointer[T any](c chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

// count counts armed timers. Those with a channel may be gone once nobody
// refers to them.
func (t *simTimer) count(n int) {
	if on && t.active && t.f != nil {
		sim.armed += n
	}
}

func (t *simTimer) set(d time.Duration) {
	if !on {
		// initialisation: it counts from the next run on
		pending = append(pending, func() { t.set(d) })
		return
	}
	release(t)
	if t.c != nil {
		release(pointer(t.c))
	}
	t.count(-1)
	t.gen++
	t.active = true
	t.count(1)
	gen, s := t.gen, sim
	s.libTimers++
	s.At(max(d, 0), func() {
		s.libTimers--
		if t.gen != gen || s.stop {
			return
		}
		t.count(-1)
		t.active = false
		if t.f != nil {
			s.Go(fmt.Sprintf("lib%d", s.ids), func() { acquire(t); t.f() }).lib = true
			return
		}
		select {
		case t.c <- Now():
			s.chanVersion++
		default:
		}
		if t.every > 0 {
			t.set(t.every)
		}
	})
}

func (t *simTimer) stop() (was bool) {
	if on {
		syncPoint()
	}
	was = t.active
	t.count(-1)
	t.active = false
	t.gen++
	return
}

func (t *simTimer) start(p unsafe.Pointer, d time.Duration) {
	timers[p] = t
	t.set(d)
}

// AfterFunc, NewTimer, After, NewTicker and Tick replace the functions of time.
func AfterFunc(d time.Duration, f func()) *time.Timer {
	r := &time.Timer{}
	(&simTimer{f: f}).start(unsafe.Pointer(r), d)
	return r
}

func NewTimer(d time.Duration) *time.Timer {
	t := &simTimer{c: make(chan time.Time, 1)}
	r := &time.Timer{C: t.c}
	t.start(unsafe.Pointer(r), d)
	return r
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func NewTicker(d time.Duration) *time.Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &simTimer{c: make(chan time.Time, 1), every: d}
	r := &time.Ticker{C: t.c}
	t.start(unsafe.Pointer(r), d)
	return r
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// TimerStop, TimerReset, TickerStop and TickerReset replace the methods.
func TimerStop(r *time.Timer) bool {
	t := timers[unsafe.Pointer(r)]
	if t == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	return t.stop()
}

func TimerReset(r *time.Timer, d time.Duration) bool {
	t := timers[unsafe.Pointer(r)]
	if t == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	was := t.stop()
	t.set(d)
	return was
}

func TickerStop(r *time.Ticker) {
	if t := timers[unsafe.Pointer(r)]; t != nil {
		t.stop()
	}
}

func TickerReset(r *time.Ticker, d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	if t := timers[unsafe.Pointer(r)]; t != nil {
		t.stop()
		t.every = d
		t.set(d)
	}
}
