package props

import (
	"time"

	"github.com/VolantMQ/vlapi/mqttp"

	"verif/lib"
	"verif/ref"
	"verif/simrt"
)

func init() {
	register(&Check{
		ID: "C20", Quick: 20000, Thorough: 900000, StepLimit: 1 << 34,
		Foreign: []string{"panic", "interference", "build-refused", "encode-refused", "unreadable", "deadlock"},
		Variants: []Variant{
			{"long-service", 3, longService},
			{"long-lived-packet", 2, longLived},
		},
		Rule: "each run: rounds of simulated connections (building, updating, encoding, decoding legal and damaged bytes, iterating, cloning; some aborted at any point, hours between rounds), after which everything is dropped; what the package variables of the library hold, its running goroutines and the steps of a fixed probe must not grow with the number of rounds (a run in which they grow is prolonged until they stop or have grown in proportion over four doublings); or one packet that is updated, encoded and cloned from copy to copy many times, which must hold and cost no more than a new one with the same contents; non-trivial when the measures were taken; distinct by hash of the measures and of the choices",
		Real: []string{libReal}, Stub: []string{schedStub, refStub},
	})
}

// derive replaces the source of choices by one that follows from a single
// choice, for runs too long to record.
func (c *Ctx) derive() (restore func()) {
	seed := uint64(c.Choose(1<<31))<<31 | uint64(c.Choose(1<<31))
	old := c.Source
	c.Sim.Source = simrt.NewSource(seed)
	c.Note(seed)
	return func() { c.Sim.Source = old }
}

// manyThreads is more than any sensible number of workers.
const manyThreads = 1000

type measure struct {
	state, threads, work int64
}

var measureNames = [3]string{"bytes reachable from the library's package variables", "goroutines and timers of the library", "steps of the same packets' way through the library"}

func (m measure) list() [3]int64 { return [3]int64{m.state, m.threads, m.work} }

// grew says which measures have grown.
func (m measure) grew(b measure) (g [3]bool) {
	x, y := m.list(), b.list()
	for i := range x {
		g[i] = y[i] > x[i]
	}
	return
}

// service is one process.
type service struct {
	c     *Ctx
	probe []*ref.Pkt
	alive int
}

// take measures the process at rest.
func (s *service) take() (m measure) {
	c := s.c
	// whatever the library does in the background gets time to finish
	c.Sleep(72 * time.Hour)
	m.threads = int64(c.Alive() - s.alive)
	for i := 0; i < 2; i++ {
		// the first time might fill a cache
		a := c.Steps()
		c.Solo(func() {
			for _, p := range s.probe {
				m, err := lib.Build(p, fixed(7))
				if err != nil {
					continue
				}
				b, err := mqttp.Encode(m)
				if err != nil {
					continue
				}
				lib.Decode(p.Ver, b)
				if x, ok := m.(*mqttp.Publish); ok {
					x.Clone(mqttp.ProtocolVersion(p.Ver))
				}
			}
		})
		m.work = c.Steps() - a
	}
	m.state = simrt.StateSize()
	return
}

// round serves a few connections; all their packets are dropped.
func (s *service) round() (n int) {
	c := s.c
	c.Source.Rec = c.Source.Rec[:0]
	var shared [][]byte
	for i := 0; i < 2; i++ {
		_, e := c.legalBytes(&ref.Gen{S: c.Source, Small: true}, c.ver())
		shared = append(shared, e.B)
	}
	var ts []*simrt.Thread
	c.ChooseSchedule()
	for i := 1 + c.Choose(3); i > 0; i-- {
		k := &conn{c: c, ver: c.ver()}
		var script []job
		for j := 1 + c.Choose(4); j > 0; j-- {
			if c.Choose(5) == 0 {
				script = append(script, c.forward(k.ver))
				continue
			}
			script = append(script, c.job(k.ver, shared))
		}
		n += len(script)
		ts = append(ts, c.Go("conn", func() {
			for _, j := range script {
				c.Yield()
				j.run(k)
			}
		}))
	}
	if c.Choose(3) == 0 {
		for w := c.Choose(6); w > 0; w-- {
			c.Yield()
		}
		c.Fault("abort")
		ts[c.Choose(len(ts))].Abort()
	}
	c.Join(ts...)
	if c.Choose(2) == 0 {
		c.Sleep(time.Duration(c.Choose(3600)) * time.Second)
	}
	return
}

// forward is the way of a message through a broker.
func (c *Ctx) forward(ver byte) job {
	g := &ref.Gen{S: c.Source, ForLib: true, Small: true}
	p := g.Of(ref.PUBLISH, ver)
	at := []time.Time{{}, c.Clock().Add(-time.Hour), c.Clock().Add(time.Duration(c.Choose(60)) * time.Hour)}[c.Choose(3)]
	var to []byte
	for i := 1 + c.Choose(3); i > 0; i-- {
		to = append(to, c.ver())
	}
	id := mqttp.IDType(1 + c.Choose(65535))
	bad := c.Choose(4) == 0
	return job{"forward", func(k *conn) result {
		c.try("forwarding", func() {
			b, err := mqttp.Encode(c.build(p))
			if err != nil {
				return
			}
			x, _, err := mqttp.Decode(mqttp.ProtocolVersion(ver), b)
			m, ok := x.(*mqttp.Publish)
			if err != nil || !ok {
				return
			}
			if !at.IsZero() {
				m.SetExpireAt(at)
			}
			for _, v := range to {
				y, err := m.Clone(mqttp.ProtocolVersion(v))
				if err != nil {
					continue
				}
				y.Expired()
				if bad {
					// a message of QoS 0 that claims to be a duplicate
					y.SetQoS(mqttp.QoS0)
					y.SetDup(true)
				}
				y.SetPacketID(id)
				mqttp.Encode(y)
			}
		})
		return result{}
	}}
}

func longService(c *Ctx) {
	first := 8 << c.Choose(5)
	const longest = 1 << 14 // rounds: more than any sensible cache has room for
	defer c.derive()()
	s := &service{c: c, alive: c.Alive()}
	g := &ref.Gen{S: simrt.NewSource(3), ForLib: true, Small: true}
	for _, v := range []byte{3, 4, 5} {
		for i := 0; i < 6; i++ {
			s.probe = append(s.probe, g.Packet(v))
		}
	}
	packets, at := 0, 0
	until := func(n int) measure {
		for ; at < n; at++ {
			if c.Alive() > 3*manyThreads {
				return s.take()
			}
			packets += s.round()
		}
		return s.take()
	}
	var ms []measure
	on := [3]bool{true, true, true}
	for n := first; ; n *= 2 {
		ms = append(ms, until(n))
		k := len(ms)
		m := ms[k-1]
		c.Logf("after %d rounds, %d operations: %d bytes, %d goroutines, %d steps", n, packets, m.state, m.threads, m.work)
		if k < 2 {
			continue
		}
		c.Nontrivial = true
		c.Note(uint64(m.state))
		c.Note(uint64(m.work))
		more := false
		for i := range on {
			on[i] = on[i] && m.list()[i] > ms[k-2].list()[i]
			if on[i] && k >= 6 {
				// a slow leak is irregular at first
				on[i] = 2*(m.list()[i]-ms[k-2].list()[i]) >= ms[k-2].list()[i]-ms[k-3].list()[i]
			}
			more = more || on[i]
		}
		if !more {
			break
		}
		c.Probe("grew")
		if n < longest && m.threads < manyThreads || k < 4 {
			if m.threads >= manyThreads {
				break
			}
			continue
		}
		c.Probe("grew-to-the-end")
		for i, name := range measureNames {
			a, b, d, e := ms[k-4].list()[i], ms[k-3].list()[i], ms[k-2].list()[i], m.list()[i]
			if least := []int64{2048, 12, 3 * ms[0].work}[i]; on[i] && proportional(ms[0].list()[i], a, b, d, e) && e-a >= least {
				c.Fail("growth", "%s: %d after %d rounds, then %d, %d and %d after twice, four and eight times as many (%d operations)", name, a, n/8, b, d, e, packets)
			}
		}
		break
	}
}

// proportional tells whether what was measured at first and after 1, 2, 4 and
// 8 times as much use grew in proportion to it.
func proportional(first, a, b, c, d int64) bool {
	return b > a && 2*(c-b) >= 3*(b-a) && 2*(d-c) >= 3*(c-b) && d-first >= 5*(a-first)
}

// longLived is a packet with a long life.
func longLived(c *Ctx) {
	first := 16 << c.Choose(4)
	const longest = 1 << 12
	defer c.derive()()
	ver := c.ver()
	g := &ref.Gen{S: c.Source, ForLib: true, Small: true}
	p := g.Packet(ver)
	var m mqttp.IFace
	if c.Choose(2) == 0 {
		m = c.build(p)
	} else {
		var err error
		e := c.refEncode(p)
		if m, _, err = c.decode(ver, e.B); err != nil || m == nil {
			return
		}
	}
	k := &conn{c: c, m: m, ver: ver}
	vary := c.Choose(3) > 0
	topic, filter, text := g.Topic(), g.Filter(ver), g.Text(1+c.Choose(8))
	turn := func() {
		c.Source.Rec = c.Source.Rec[:0]
		if vary {
			topic, filter, text = g.Topic(), g.Filter(ver), g.Text(1+c.Choose(8))
		}
		seed := c.U64()
		switch c.Weighted(5, 3, 2, 2, 4) {
		case 0:
			k.update(fixed(seed), topic, filter, text)
		case 1:
			c.try("encoding", func() { lib.Encode(k.m, c.pk()) })
		case 2:
			if x, ok := k.m.(*mqttp.Publish); ok {
				c.try("cloning", func() {
					if y, err := x.Clone(x.Version()); err == nil {
						k.m = y
					}
				})
			}
		case 3:
			c.try("reading", func() {
				k.m.Size()
				k.m.PropertyGet(mqttp.PropertyID(c.Choose(0x2C)))
				k.look(k.m)
			})
		case 4:
			d := ref.PropByID[byte(c.Choose(0x2C))]
			if d == nil {
				break
			}
			var ps []ref.Prop
			for j := 1 + c.Choose(3); j > 0; j-- {
				ps = append(ps, g.PropVal(d))
			}
			c.try("PropertySet", func() { k.m.PropertySet(mqttp.PropertyID(d.ID), lib.PropValue(ps, c.pk())) })
		}
	}
	cost := func(m mqttp.IFace) (steps int64, e error) {
		c.try("encoding", func() {
			mqttp.Encode(m)
			a := c.Steps()
			_, e = mqttp.Encode(m)
			steps = c.Steps() - a
		})
		return
	}
	// what the packet holds, and costs, beyond a new one with the same contents
	var held, took []int64
	at := 0
	for n := first; ; n *= 2 {
		for ; at < n; at++ {
			turn()
		}
		// properties hidden by an earlier version are contents too
		v := k.m.Version()
		k.m.SetVersion(mqttp.ProtocolV50)
		now, err := lib.Observe(k.m)
		if err != nil {
			return
		}
		var fresh mqttp.IFace
		c.try("building", func() { fresh, err = lib.Build(now, fixed(1)) })
		if err != nil {
			c.Probe("not-rebuilt")
			return
		}
		s1, e1 := cost(k.m)
		s2, e2 := cost(fresh)
		k.m.SetVersion(v)
		b1, b2 := simrt.SizeOf(k.m), simrt.SizeOf(fresh)
		if (e1 == nil) != (e2 == nil) {
			s1 = s2
		}
		c.Note(uint64(b1))
		c.Note(uint64(s1))
		c.Nontrivial = true
		c.Logf("after %d uses %s: %d bytes, %d steps; new: %d bytes, %d steps", n, now, b1, s1, b2, s2)
		held, took = append(held, b1-b2), append(took, s1-s2)
		if b1 <= b2+b2/4+64 && s1 <= s2+s2/4+64 {
			return
		}
		c.Probe("holds-more")
		if n < longest {
			continue
		}
		i := len(held) - 4
		if proportional(held[0], held[i], held[i+1], held[i+2], held[i+3]) && held[i+3] >= 512 {
			c.Fail("packet-growth", "after %d uses a packet holds %d bytes, a new one with the same contents %d: %s", n, b1, b2, now)
		}
		if proportional(took[0], took[i], took[i+1], took[i+2], took[i+3]) && took[i+3] >= s2+512 {
			c.Fail("packet-growth", "after %d uses encoding a packet takes %d steps, a new one with the same contents %d: %s", n, s1, s2, now)
		}
		return
	}
}
