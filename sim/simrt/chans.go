package simrt

import "unsafe"

// The channels of the code under test. Buffered channels are the real ones,
// tried without blocking; the handover through an unbuffered channel is
// simulated, as two threads of a simulation never run at the same time.

type offer struct {
	v     any   // *T
	taken *bool // shared by the cases of a select
	which *int
	index int
}

type chanState struct {
	offers  []*offer
	waiting int // threads that wait to receive from it
	closed  bool
}

func (s *Sim) chanOf(p unsafe.Pointer) *chanState {
	if s.chans == nil {
		s.chans = map[unsafe.Pointer]*chanState{}
	}
	c := s.chans[p]
	if c == nil {
		c = &chanState{}
		s.chans[p] = c
	}
	return c
}

// live drops the offers somebody has taken or withdrawn.
func (c *chanState) live() []*offer {
	k := c.offers[:0]
	for _, o := range c.offers {
		if !*o.taken {
			k = append(k, o)
		}
	}
	c.offers = k
	return k
}

// Case is a case of a select statement.
type Case interface {
	try(c *chanState) bool
	recv() bool
	ptr() unsafe.Pointer
	post(c *chanState, taken *bool, which *int, i int) bool
}

// Rcv is a case that receives.
type Rcv[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

// Snd is a case that sends.
type Snd[T any] struct {
	ch chan<- T
	v  T
}

func (r *Rcv[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&r.ch)) }
func (w *Snd[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&w.ch)) }

func (r *Rcv[T]) try(c *chanState) bool {
	if r.ch == nil {
		return false
	}
	if l := c.live(); len(l) > 0 {
		o := l[0]
		*o.taken = true
		if o.which != nil {
			*o.which = o.index
		}
		r.V, r.OK = *o.v.(*T), true
		return true
	}
	select {
	case r.V, r.OK = <-r.ch:
		return true
	default:
		return false
	}
}

func (w *Snd[T]) try(c *chanState) bool {
	if w.ch == nil {
		return false
	}
	select {
	case w.ch <- w.v: // panics when closed
		return true
	default:
	}
	if cap(w.ch) == 0 && c.waiting > len(c.live()) {
		c.offers = append(c.offers, &offer{v: &w.v, taken: new(bool)})
		return true
	}
	return false
}

func (r *Rcv[T]) post(c *chanState, taken *bool, which *int, i int) bool { return false }

func (w *Snd[T]) post(c *chanState, taken *bool, which *int, i int) bool {
	if w.ch == nil || cap(w.ch) != 0 {
		return false
	}
	c.offers = append(c.offers, &offer{v: &w.v, taken: taken, which: which, index: i})
	return true
}

func (r *Rcv[T]) recv() bool { return true }
func (w *Snd[T]) recv() bool { return false }

// RecvCase and SendCase make the cases of a select.
func RecvCase[T any](ch <-chan T) *Rcv[T] { return &Rcv[T]{ch: ch} }

// SendCase makes a case that sends.
func SendCase[T any](ch chan<- T) func(T) *Snd[T] {
	return func(v T) *Snd[T] { return &Snd[T]{ch, v} }
}

// Select replaces the select statement; it returns the index of the chosen
// case. A nil case is the default one.
func Select(def bool, cases ...Case) int {
	if !on {
		panic("simrt: a channel is used outside a simulation")
	}
	syncPoint()
	s := sim
	if race {
		for _, c := range cases {
			if c != nil {
				release(c.ptr())
			}
		}
		defer func() {
			for _, c := range cases {
				if c != nil {
					acquire(c.ptr())
				}
			}
		}()
	}
	which := -1
	taken := new(bool)
	for again := false; ; again = true {
		if *taken {
			return which
		}
		*taken = true // withdraw the own offers
		n := len(cases)
		first := 0
		if n > 1 && !s.observing {
			first = s.Choose(n)
		}
		for k := 0; k < n; k++ {
			i := (first + k) % n
			if cases[i] != nil && cases[i].try(s.chanOf(cases[i].ptr())) {
				s.chanVersion++
				return i
			}
		}
		if def {
			for i, c := range cases {
				if c == nil {
					return i
				}
			}
		}
		if s.observing {
			panic("simrt: an observer blocks on a channel")
		}
		taken = new(bool)
		for i, c := range cases {
			if c.post(s.chanOf(c.ptr()), taken, &which, i) && !again {
				s.chanVersion++
			}
		}
		// only a thread that can do nothing but receive counts as waiting
		var w *chanState
		if n == 1 && cases[0].ptr() != nil && cases[0].recv() {
			w = s.chanOf(cases[0].ptr())
			w.waiting++
			if !again {
				s.chanVersion++
			}
		}
		v, mine := s.chanVersion, taken
		s.block(func() bool { return *mine || s.chanVersion != v })
		if w != nil {
			w.waiting--
		}
	}
}

// Recv replaces <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 replaces v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if !on {
		v, ok := <-ch
		return v, ok
	}
	r := &Rcv[T]{ch: ch}
	Select(false, r)
	return r.V, r.OK
}

// Send replaces ch <- v.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		if !on {
			ch <- v
			return
		}
		Select(false, &Snd[T]{ch, v})
	}
}

// Close replaces close.
func Close[T any](ch chan<- T) {
	if on {
		syncPoint()
		release(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
		sim.chanVersion++
	}
	close(ch)
}
