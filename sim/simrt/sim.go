package simrt

import (
	"container/heap"
	"fmt"
	"runtime"
	"strings"
	"time"
	"unsafe"
)

// Base is the instant at which every simulated world starts.
var Base = time.Unix(1767225600, 0).UTC()

// active simulation of this process; at most one at a time.
var (
	sim *Sim
	on  bool
	obs func()
	cd  int64 // steps until the slow path must be taken
	pw  int64 // weight of an ordinary yield point
	sw  int64 // weight of a synchronisation point (atomic, lock, map access)
)

// Sites is the number of instrumented sites (set by the instrumenter's output).
var Sites int

// Cov marks the sites that were reached in this process.
var Cov = make([]bool, 1<<16)

// Failure is a violated property or a harness error.
type Failure struct {
	Class   string // what is broken, stable across shrinking
	Detail  string
	Harness bool // not a violation: the harness itself failed
}

// Thread is one simulated thread.
type Thread struct {
	id     int
	name   string
	wake   chan struct{}
	dead   bool
	killed bool
	lib    bool // started by the code under test
	req    bool // abort requested, honoured at Yield
	cond   func() bool
	until  int64
	sleep  bool
	prio   int
	inLib  bool // waits inside the code under test, can't be aborted there
}

type event struct {
	at  int64
	seq int64
	fn  func()
}
type evHeap []event

func (h evHeap) Len() int { return len(h) }
func (h evHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || (h[i].at == h[j].at && h[i].seq < h[j].seq)
}
func (h evHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *evHeap) Push(x any)   { *h = append(*h, x.(event)) }
func (h *evHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// Sim is one simulated world.
type Sim struct {
	*Source
	threads []*Thread
	cur     *Thread
	now     int64 // virtual nanoseconds since Base
	seq     int64
	events  evHeap

	libTimers int // set by the code under test and not yet due
	armed     int // of these, not stopped

	done    chan struct{}
	failure *Failure
	stop    bool

	window int64 // current countdown
	preOn  bool
	preWin int
	pctMin int // next lowest priority, when priority scheduling is on
	pct    bool

	steps     int64
	stepLimit int64

	races *raceState
	marks map[uintptr]mark
	pools map[any][]any
	onces map[any]*onceState
	wgs   map[any]int
	locks []held
	ids   int

	chans       map[unsafe.Pointer]*chanState
	chanVersion int

	NowHook func() time.Time

	Faults map[string]int64
	Probes map[string]int64

	hash      uint64
	Switches  int64
	logOn     bool
	observing bool
	Log       []string
	lastSite  uint32
	Thunks    int64
}

type mark struct {
	tid   int
	write bool
	n     int
}

// Config of a run.
type Config struct {
	StepLimit int64
	Log       bool
}

// Result of a run.
type Result struct {
	Failure  *Failure
	Choices  []uint32
	Hash     uint64
	Steps    int64
	Switches int64
	SimTime  time.Duration
	Faults   map[string]int64
	Probes   map[string]int64
	Log      []string
}

// Run executes body in a new simulated world.
func Run(src *Source, cfg Config, body func(*Sim)) Result {
	if sim != nil {
		panic("simrt: nested run")
	}
	s := &Sim{Source: src, done: make(chan struct{}), stepLimit: cfg.StepLimit, logOn: cfg.Log,
		Faults: map[string]int64{}, Probes: map[string]int64{}, hash: 14695981039346656037}
	if s.stepLimit == 0 {
		s.stepLimit = 1 << 27
	}
	pw, sw = 1, 1
	s.window = 1 << 20
	cd = s.window
	sim, on, obs, race = s, true, nil, false
	root := s.newThread("root")
	s.cur = root
	go s.runThread(root, func() {
		for _, f := range pending {
			f()
		}
		pending = nil
		body(s)
		s.stop = true
	})
	root.wake <- struct{}{}
	<-s.done
	s.account()
	on, obs, sim, race = false, nil, nil, false
	for _, t := range s.threads {
		left = left || t.lib && t.killed
	}
	left = left || s.libTimers > 0
	if len(timers) > 1<<16 {
		clear(timers)
		left = true
	}
	// a run that ended early must not leave locks to the next one
	for _, l := range s.locks {
		if t, ok := l.lock.(interface {
			TryLock() bool
			Unlock()
		}); ok && t.TryLock() {
			t.Unlock()
		} else {
			l.unlock()
		}
	}
	return Result{Failure: s.failure, Choices: src.Rec, Hash: s.hash, Steps: s.steps, Switches: s.Switches,
		SimTime: time.Duration(s.now), Faults: s.Faults, Probes: s.Probes, Log: s.Log}
}

func (s *Sim) newThread(name string) *Thread {
	t := &Thread{id: s.ids, name: name, wake: make(chan struct{}, 1)}
	s.ids++
	s.threads = append(s.threads, t)
	if s.pct {
		t.prio = 1000 + s.Choose(1000)
	}
	return t
}

func (s *Sim) runThread(t *Thread, fn func()) {
	<-t.wake
	defer func() {
		if r := recover(); r != nil {
			s.panicked(r)
		}
		t.dead = true
		s.exit()
	}()
	if t.killed {
		return
	}
	fn()
}

// LibPrefix marks the code under test in stack traces.
const LibPrefix = "github.com/VolantMQ/vlapi/"

// PanicOrigin tells whether the innermost frame that is neither runtime nor
// library support belongs to the code under test. It must be called from the
// deferred function that recovered.
func PanicOrigin() (lib bool, where string) {
	pcs := make([]uintptr, 96)
	n := runtime.Callers(2, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	seen := false
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "runtime.gopanic") || strings.HasPrefix(f.Function, "runtime.panic") || strings.HasPrefix(f.Function, "runtime.goPanic") || strings.HasPrefix(f.Function, "runtime.sigpanic") {
			seen = true
		} else if seen {
			if strings.HasPrefix(f.Function, LibPrefix) {
				return true, f.Function
			}
			if strings.HasPrefix(f.Function, "verif/") || strings.HasPrefix(f.Function, "main.") {
				return false, fmt.Sprintf("%s %s:%d", f.Function, f.File, f.Line)
			}
		}
		if !more {
			return false, "?"
		}
	}
}

func (s *Sim) panicked(r any) {
	lib, where := PanicOrigin()
	if s.failure != nil {
		return
	}
	if lib {
		s.failure = &Failure{Class: "panic", Detail: fmt.Sprintf("panic in %s: %v", where, r)}
	} else {
		buf := make([]byte, 1<<14)
		buf = buf[:runtime.Stack(buf, false)]
		s.failure = &Failure{Class: "harness", Detail: fmt.Sprintf("%v at %s\n%s", r, where, buf), Harness: true}
	}
	s.stop = true
}

func (s *Sim) exit() {
	n := s.pick()
	if n == nil {
		close(s.done)
		return
	}
	s.enter(n)
	n.wake <- struct{}{}
}

func (s *Sim) enter(n *Thread) {
	s.cur = n
	s.arm()
}

func (s *Sim) account() {
	s.steps += s.window - cd
	s.window = cd
}

func (s *Sim) arm() {
	s.account()
	if s.preOn && len(s.threads) > 1 && !s.stop {
		s.window = 1 + int64(s.Choose(s.preWin))
	} else {
		s.window = 1 << 16
	}
	cd = s.window
}

// pick chooses the next thread to run; nil when all are dead.
func (s *Sim) pick() *Thread {
	for {
		if s.stop {
			for _, t := range s.threads {
				if !t.dead {
					t.killed = true
					return t
				}
			}
			return nil
		}
		var rd [64]*Thread
		run := rd[:0]
		alive := false
		for _, t := range s.threads {
			if t.dead {
				continue
			}
			alive = true
			if t.req && !t.inLib && (t.cond != nil || t.sleep) {
				t.cond, t.sleep = nil, false
			}
			if t.sleep {
				if t.until <= s.now {
					t.sleep = false
				} else {
					continue
				}
			}
			if t.cond != nil {
				if !t.cond() {
					continue
				}
				t.cond = nil
			}
			run = append(run, t)
		}
		if !alive {
			return nil
		}
		if len(run) == 0 {
			// advance the virtual clock to the next event
			next := int64(-1)
			for _, t := range s.threads {
				if !t.dead && t.sleep && (next < 0 || t.until < next) {
					next = t.until
				}
			}
			if len(s.events) > 0 && (next < 0 || s.events[0].at < next) {
				next = s.events[0].at
			}
			if next < 0 {
				var w []string
				for _, t := range s.threads {
					if !t.dead {
						w = append(w, t.name)
					}
				}
				s.failure = &Failure{Class: "deadlock", Detail: "no thread can make progress: " + strings.Join(w, ",")}
				s.stop = true
				continue
			}
			if next > s.now {
				s.now = next
			}
			s.fire()
			continue
		}
		if len(run) == 1 {
			return run[0]
		}
		if s.pct {
			b := run[0]
			for _, t := range run[1:] {
				if t.prio > b.prio {
					b = t
				}
			}
			return b
		}
		return run[s.Choose(len(run))]
	}
}

func (s *Sim) fire() {
	for len(s.events) > 0 && s.events[0].at <= s.now {
		e := heap.Pop(&s.events).(event)
		e.fn()
	}
}

// resched gives the processor to the thread pick chooses.
func (s *Sim) resched() {
	me := s.cur
	n := s.pick()
	if n == nil {
		panic("simrt: no thread")
	}
	if n != me {
		s.Switches++
		s.hash = (s.hash ^ uint64(n.id)<<32 ^ uint64(s.lastSite)) * 1099511628211
		if s.logOn {
			s.logf("switch %s -> %s at site %d", me.name, n.name, s.lastSite)
		}
		s.enter(n)
		n.wake <- struct{}{}
		<-me.wake
	} else {
		s.arm()
	}
	if me.killed {
		runtime.Goexit()
	}
}

func (s *Sim) logf(f string, a ...any) {
	if len(s.Log) < 4000 {
		s.Log = append(s.Log, fmt.Sprintf(f, a...))
	}
}

// Logf adds a line to the trace and to the run's hash.
func (s *Sim) Logf(f string, a ...any) {
	if s.logOn {
		// formatting may call the code under test; a trace changes nothing
		was := on
		on = false
		l := fmt.Sprintf(f, a...)
		on = was
		s.logf("[t=%v %s] %s", time.Duration(s.now), s.cur.name, l)
	}
}

// Logging tells whether a trace is kept.
func (s *Sim) Logging() bool { return s.logOn }

// Note folds a value into the run's hash (identity of the history).
func (s *Sim) Note(x uint64) { s.hash = (s.hash ^ x) * 1099511628211 }

// NoteBytes folds bytes into the run's hash.
func (s *Sim) NoteBytes(b []byte) {
	h := s.hash
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	s.hash = h
}

// slow is reached when the countdown has run out.
func slow(site uint32) {
	s := sim
	s.lastSite = site
	s.account()
	if s.steps > s.stepLimit {
		s.Fail("unbounded-work", "more than %d steps without finishing", s.stepLimit)
	}
	if s.stop {
		if s.cur.killed {
			runtime.Goexit()
		}
	}
	if s.observing {
		// the switch waits for the end of the instant
		s.window, cd = 1, 1
		return
	}
	if s.preOn && len(s.threads) > 1 {
		if s.pct {
			// priority change point
			s.pctMin--
			s.cur.prio = s.pctMin
		}
		s.resched()
		return
	}
	s.window = 1 << 16
	cd = s.window
}

// P is the yield point before every statement of the code under test.
func P(site uint32) {
	if !on {
		return
	}
	Cov[site] = true
	if obs != nil {
		observe()
		if sim.observing {
			return
		}
	}
	if race {
		sim.lastSite = site
	}
	cd -= pw
	if cd <= 0 {
		slow(site)
	}
}

func syncPoint() {
	if obs != nil {
		observe()
		if sim.observing {
			return
		}
	}
	cd -= sw
	if cd <= 0 {
		slow(sim.lastSite)
	}
}

// SetPreempt turns preemption inside the code under test on. The window is
// the largest number of weighted yield points between two switches.
func (s *Sim) SetPreempt(window, ordinary, sync int) {
	s.preOn, s.preWin = true, window
	pw, sw = int64(ordinary), int64(sync)
	s.arm()
}

// SetPriority uses priority scheduling with change points at countdown expiry.
func (s *Sim) SetPriority(window, ordinary, sync int) {
	s.pct = true
	for _, t := range s.threads {
		t.prio = 1000 + s.Choose(1000)
	}
	s.SetPreempt(window, ordinary, sync)
}

// Solo runs fn without preemption (a reference execution).
func (s *Sim) Solo(fn func()) {
	o := s.preOn
	s.preOn = false
	s.arm()
	fn()
	s.preOn = o
	s.arm()
}

// ChooseSchedule picks a scheduling policy for this run (swarm).
func (s *Sim) ChooseSchedule() {
	switch s.Weighted(2, 4, 4, 3, 3, 3, 3) {
	case 0: // switches only where threads block or yield
	case 1:
		s.SetPreempt(2, 1, 1)
	case 2:
		s.SetPreempt(6, 1, 2)
	case 3:
		s.SetPreempt(25, 1, 5)
	case 4:
		s.SetPreempt(150, 1, 20)
	case 5:
		s.SetPreempt(3, 0, 1) // only at synchronisation points
	case 6:
		s.SetPriority(60, 1, 6)
	}
}

// Go starts a simulated thread.
func (s *Sim) Go(name string, fn func()) *Thread {
	if len(s.threads) >= 64 {
		// forget the ones that have ended
		k := s.threads[:0]
		for _, t := range s.threads {
			if !t.dead {
				k = append(k, t)
			}
		}
		s.threads = k
		if len(k) >= 4096 {
			panic("simrt: too many threads")
		}
	}
	t := s.newThread(name)
	if race {
		s.races.fork(s.cur.id, t.id)
	}
	go s.runThread(t, fn)
	if len(s.threads) == 2 {
		s.arm()
	}
	return t
}

// Cur is the running thread.
func (s *Sim) Cur() *Thread { return s.cur }

// Dead tells whether the thread has ended.
func (t *Thread) Dead() bool { return t.dead }

// Abort asks a thread to stop at its next Yield.
func (t *Thread) Abort() { t.req = true }

// Join waits for threads.
func (s *Sim) Join(ts ...*Thread) {
	s.Wait(func() bool {
		for _, t := range ts {
			if !t.dead {
				return false
			}
		}
		return true
	})
}

// Wait blocks the calling thread until the condition holds.
func (s *Sim) Wait(cond func() bool) {
	for !cond() {
		s.cur.cond = cond
		s.resched()
		if s.cur.req {
			runtime.Goexit()
		}
	}
	s.met()
}

// Met tells that threads of the harness have communicated with the calling one.
func (s *Sim) Met() { s.met() }

func (s *Sim) met() {
	if race {
		s.races.meet(s.cur.id)
	}
}

// WaitFor blocks until cond or the virtual deadline; tells whether cond holds.
func (s *Sim) WaitFor(cond func() bool, d time.Duration) bool {
	dl := s.now + int64(d)
	s.At(d, func() {})
	for !cond() {
		if s.now >= dl {
			return false
		}
		s.cur.cond = func() bool { return s.now >= dl || cond() }
		s.resched()
		if s.cur.req {
			runtime.Goexit()
		}
	}
	s.met()
	return true
}

// Sleep blocks the calling thread for a virtual duration.
func (s *Sim) Sleep(d time.Duration) {
	s.cur.sleep = true
	s.cur.until = s.now + int64(d)
	s.resched()
	if s.cur.req {
		runtime.Goexit()
	}
	s.met()
}

// Yield is a harness-level scheduling point, and the only kind of point at
// which a thread can be aborted: an aborted connection abandons its work
// between two operations of the library.
func (s *Sim) Yield() {
	if len(s.threads) > 1 {
		s.resched()
	}
	if s.cur.req {
		s.Fault("abort")
		runtime.Goexit()
	}
}

// At schedules a callback in virtual time.
func (s *Sim) At(d time.Duration, fn func()) {
	s.seq++
	heap.Push(&s.events, event{s.now + int64(d), s.seq, fn})
}

// Tick moves the virtual clock and fires what became due.
func (s *Sim) Tick(d time.Duration) { s.now += int64(d); s.fire() }

// Clock is the current virtual time.
func (s *Sim) Clock() time.Time { return Base.Add(time.Duration(s.now)) }

// Elapsed is the virtual time since the start of the run.
func (s *Sim) Elapsed() time.Duration { return time.Duration(s.now) }

// Steps executed so far by the code under test.
func (s *Sim) Steps() int64 { s.account(); return s.steps }

// Fault counts an injected fault.
func (s *Sim) Fault(k string) {
	s.Faults[k]++
	if s.logOn {
		s.logf("[t=%v %s] fault: %s", time.Duration(s.now), s.cur.name, k)
	}
}

// Probe counts a reached situation of interest.
func (s *Sim) Probe(k string) { s.Probes[k]++ }

// Fail reports a violation and ends the run.
func (s *Sim) Fail(class, f string, a ...any) {
	if s.failure == nil {
		s.failure = &Failure{Class: class, Detail: fmt.Sprintf(f, a...)}
		if s.logOn {
			s.logf("[t=%v %s] VIOLATION %s: %s", time.Duration(s.now), s.cur.name, class, s.failure.Detail)
		}
	}
	s.stop = true
	runtime.Goexit()
}

// Bug reports an error of the harness itself and ends the run.
func (s *Sim) Bug(f string, a ...any) {
	if s.failure == nil {
		s.failure = &Failure{Class: "harness", Detail: fmt.Sprintf(f, a...), Harness: true}
	}
	s.stop = true
	runtime.Goexit()
}

// Try runs fn and reports a panic raised by the code under test.
func (s *Sim) Try(fn func()) (pan string) {
	defer func() {
		if r := recover(); r != nil {
			lib, where := PanicOrigin()
			if !lib {
				panic(r)
			}
			pan = fmt.Sprintf("panic in %s: %v", where, r)
		}
	}()
	fn()
	return ""
}

// Others lists all threads but the calling one.
func (s *Sim) Others() []*Thread {
	var r []*Thread
	for _, t := range s.threads {
		if t != s.cur && !t.lib {
			r = append(r, t)
		}
	}
	return r
}
