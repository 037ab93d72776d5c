package props

import (
	"fmt"
	"math"
	"time"

	"github.com/VolantMQ/vlapi/mqttp"

	"verif/lib"
	"verif/ref"
	"verif/simrt"
)

func init() {
	register(&Check{
		ID: "C10", Quick: 1200000, Thorough: 36000000,
		Foreign:  []string{"clone-refused"},
		Variants: []Variant{{"clock", 1, expiry}},
		Rule:     "each run: 1-3 messages with expiry times around the clock, near the limits of the 32-bit range or of durations, or none; 1-4 holders of the messages and of clones in all versions ask, change the expiry time, encode and clone while the clock is stalled, steps forwards and backwards (mostly to within nanoseconds of a boundary), or moves between two readings of one call; every answer must be exact for a clock value that the call could have read; non-trivial when at least three answers were judged and the clock moved",
		Real:     []string{libReal}, Stub: []string{"wall clock: simulated, every reading of time.Now in the library goes to it", schedStub, refStub},
	})
}

// world is the simulated wall clock.
type world struct {
	c     *Ctx
	wall  time.Time
	move  int // how the clock moves while it is read
	calls []*query
	moved bool
}

// query is one call of Expired under way.
type query struct {
	tid   *simrt.Thread
	read  []time.Time // what the call read from the clock
	held  []time.Time // values of the clock during the call
	ended bool
}

// set moves the clock.
func (w *world) set(t time.Time) {
	if t.Equal(w.wall) {
		return
	}
	w.moved = true
	if d := t.Sub(w.wall); d > 0 && d < 30*24*time.Hour {
		w.c.Tick(d)
	}
	w.wall = t
	for _, q := range w.calls {
		q.held = append(q.held, t)
	}
}

// now is what the library's time.Now returns.
func (w *world) now() time.Time {
	c := w.c
	t := w.wall
	for _, q := range w.calls {
		if q.tid == c.Cur() {
			q.read = append(q.read, t)
		}
	}
	switch w.move {
	case 1:
		w.set(t.Add(time.Duration(1 + c.Choose(3))))
	case 2:
		if c.Choose(2) == 0 {
			c.Fault("clock-moves-within-call")
			w.set(t.Add(time.Duration(c.Choose(2000)) * time.Millisecond))
		}
	case 3:
		if c.Choose(3) == 0 {
			c.Fault("clock-steps-within-call")
			w.set(t.Add(time.Duration(c.Choose(8000)-4000) * time.Millisecond))
		}
	}
	return t
}

// left is what is to be reported at an instant.
func left(at, now time.Time) (uint32, bool) {
	if at.IsZero() {
		return 0, false
	}
	// exact: differences of times saturate
	s := at.Unix() - now.Unix()
	if at.Nanosecond() < now.Nanosecond() {
		s--
	}
	switch {
	case s <= 0:
		return 0, true
	case s > math.MaxUint32:
		return math.MaxUint32, false
	}
	return uint32(s), false
}

type held struct {
	m   *mqttp.Publish
	p   *ref.Pkt
	at  time.Time
	who string
}

// ask judges one answer.
func (w *world) ask(h *held) (uint32, bool) {
	c := w.c
	q := &query{tid: c.Cur(), held: []time.Time{w.wall}}
	w.calls = append(w.calls, q)
	var at time.Time
	var df uint32
	var ex bool
	c.try("Expired", func() { at, df, ex = h.m.Expired() })
	for i, x := range w.calls {
		if x == q {
			w.calls = append(append([]*query{}, w.calls[:i]...), w.calls[i+1:]...)
		}
	}
	c.Note(uint64(df))
	c.Logf("%s: expires %v, clock read %v: %d %v", h.who, h.at, q.read, df, ex)
	if !at.Equal(h.at) || at.IsZero() != h.at.IsZero() {
		c.Fail("expiry-time", "%s: expiry time is %v, want %v", h.who, at, h.at)
	}
	cand := q.read
	if len(cand) == 0 {
		cand = q.held
	}
	for _, t := range cand {
		if d, e := left(h.at, t); d == df && e == ex {
			if e {
				c.Probe("expired")
			} else {
				c.Probe("alive")
			}
			return df, ex
		}
	}
	d, e := left(h.at, cand[0])
	c.Fail("expiry", "%s expires at %v: reported %d s left, expired %v; at %v it is %d s, %v (clock values during the call: %v)", h.who, h.at, df, ex, cand[0], d, e, cand)
	return 0, false
}

var zones = []*time.Location{time.UTC, time.FixedZone("E", 5*3600+1800), time.FixedZone("W", -11*3600)}

// when draws an expiry time.
func (w *world) when() time.Time {
	c := w.c
	t := w.wall
	switch c.Weighted(6, 3, 2, 2, 1, 1, 1) {
	case 0:
		t = t.Add(time.Duration(c.Choose(6)) * time.Second)
	case 1:
		t = t.Add(time.Duration(c.Choose(100000)) * time.Second)
	case 2:
		// about 2^31, 2^32 and a few times 2^32 seconds from now
		t = time.Unix(t.Unix()+[]int64{1 << 31, 1<<32 - 1, 1 << 32, 1 << 33, 3 << 32, 1<<33 + 5}[c.Choose(6)]+int64(c.Choose(5)-2), int64(t.Nanosecond()))
	case 3:
		t = t.Add(-time.Duration(c.Choose(100000)) * time.Millisecond)
	case 4:
		return time.Time{}
	case 5:
		// where differences of times saturate, and beyond
		t = time.Unix(t.Unix()+[]int64{9223372036, 9223372037, 1 << 35, 1 << 40}[c.Choose(4)]+int64(c.Choose(3)-1), int64(c.Choose(1e9)))
	case 6:
		// before the epoch, or the first instants of the calendar
		t = []time.Time{time.Unix(-1, 999999999), time.Unix(0, 0), time.Date(1, 1, 1, 0, 0, 0, 1, time.UTC), time.Date(1, 1, 1, 0, 0, 1, 0, time.UTC), time.Date(1700, 1, 1, 0, 0, 0, 0, time.UTC)}[c.Choose(5)]
	}
	t = t.Add([]time.Duration{0, 0, 1, -1, time.Millisecond, -time.Millisecond, 500 * time.Millisecond, 999999999, -999999999}[c.Choose(9)])
	return t.In(zones[c.Choose(3)])
}

// step moves the clock somewhere.
func (w *world) step(hs []*held) {
	c := w.c
	o := w.wall
	t := o
	switch c.Weighted(2, 6, 2, 2, 1, 1) {
	case 0:
		c.Fault("clock-stall")
		return
	case 1:
		// next to a boundary
		h := hs[c.Choose(len(hs))]
		if h.at.IsZero() || h.at.Year() < 1900 || h.at.Year() > 9000 {
			return
		}
		k := []int64{0, 1, 1, 2, 3, 60, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1}[c.Choose(10)]
		d := []int64{0, 1, -1, 1000, -1000, 999999999, -999999999}[c.Choose(7)]
		t = time.Unix(h.at.Unix()-k, int64(h.at.Nanosecond())+d)
		c.Probe("boundary")
	case 2:
		t = t.Add(time.Duration(1+c.Choose(5000)) * time.Millisecond)
	case 3:
		t = t.Add(-time.Duration(1+c.Choose(5000)) * time.Millisecond)
	case 4:
		t = t.AddDate(c.Choose(150), 0, 0)
	case 5:
		t = t.AddDate(-c.Choose(150), 0, 0)
	}
	if t.Before(o) {
		c.Fault("clock-back")
	} else if t.Sub(o) > time.Second {
		c.Fault("clock-forward")
	}
	w.set(t.In(zones[c.Choose(3)]))
}

func expiry(c *Ctx) {
	w := &world{c: c, wall: simrt.Base, move: c.Weighted(4, 1, 2, 2)}
	if c.Choose(4) == 0 {
		// clocks that start before or far after the present
		w.wall = []time.Time{time.Unix(0, 0), time.Unix(1<<31-2, 0), time.Unix(1<<32-2, 5), time.Unix(1, 0), time.Date(2262, 4, 11, 23, 47, 16, 854775807, time.UTC)}[c.Choose(5)]
	}
	c.NowHook = w.now
	asked := 0
	make := func(i int) *held {
		m, p := c.message(c.ver())
		h := &held{m: m, p: p, who: fmt.Sprintf("message%d", i)}
		if c.Choose(8) == 0 {
			// before it has an expiry time
			w.ask(h)
		}
		if c.Choose(10) > 0 {
			h.at = w.when()
			c.try("SetExpireAt", func() { m.SetExpireAt(h.at) })
		}
		return h
	}
	var all []*held
	nt := 1 + c.Weighted(3, 2, 1, 1)
	owners := [][]*held{}
	for i := 0; i < nt; i++ {
		h := make(i)
		all = append(all, h)
		owners = append(owners, []*held{h})
	}
	copyTo := func(h *held, who string) *held {
		v := c.ver()
		var m *mqttp.Publish
		var err error
		c.try("Clone", func() { m, err = h.m.Clone(mqttp.ProtocolVersion(v)) })
		if err != nil {
			c.Fail("clone-refused", "%v: %s", err, h.p)
		}
		return &held{m: m, p: cloneModel(h.p, v), at: h.at, who: who}
	}
	// everybody also holds a clone of the first message
	for i := 1; i < nt; i++ {
		h := copyTo(all[0], fmt.Sprintf("clone%d of message0", i))
		all = append(all, h)
		owners[i] = append(owners[i], h)
	}
	c.ChooseSchedule()
	var ts []*simrt.Thread
	for i := range owners {
		ops := 2 + c.Choose(10)
		ts = append(ts, c.Go(fmt.Sprintf("holder%d", i), func() {
			mine := owners[i]
			for ; ops > 0; ops-- {
				h := mine[c.Choose(len(mine))]
				switch c.Weighted(8, 5, 1, 1, 1, 1) {
				case 0:
					w.ask(h)
					asked++
					if c.Choose(4) == 0 {
						w.ask(h)
					}
				case 1:
					w.step(all)
				case 2:
					h.at = w.when()
					if c.Choose(6) == 0 {
						h.at = time.Time{}
					}
					c.try("SetExpireAt", func() { h.m.SetExpireAt(h.at) })
				case 3:
					mine = append(mine, copyTo(h, "clone of "+h.who))
				case 4:
					c.try("encoding", func() {
						if h.p.QoS > 0 {
							h.m.SetPacketID(7)
						}
						_, _ = lib.Encode(h.m, c.pk())
					})
				case 5:
					c.try("changing", func() {
						h.m.SetPayload([]byte{1, 2})
						h.m.SetRetain(c.Bool(1, 2))
					})
				}
				if c.Bool(1, 3) {
					c.Yield()
				}
			}
			for _, h := range mine {
				w.ask(h)
			}
			owners[i] = mine
		}))
	}
	if c.Choose(8) == 0 {
		c.Yield()
		ts[c.Choose(len(ts))].Abort()
	}
	c.Join(ts...)
	// the clock runs past everything
	for _, o := range owners {
		for _, h := range o {
			w.ask(h)
		}
	}
	if asked >= 3 && w.moved {
		c.Nontrivial = true
	}
}
