package props

import (
	"fmt"
	"time"

	"github.com/VolantMQ/vlapi/vlmonitoring"

	"verif/simrt"
)

const monReal = "vlmonitoring (Counter, FlowCounter, Max, Stats) from /repo's working tree, instrumented: pre-emption before every statement and every atomic operation, read-modify-writes split"
const monStub = "connections that count traffic and the periodic sampler are simulated threads"

func init() {
	register(&Check{
		ID: "C12", Quick: 2000000, Thorough: 60000000, Races: true,
		Variants: []Variant{{"counters", 1, counters}},
		Rule:     "each run: 1-5 threads adding random amounts to 1-4 random counters of one Stats, 0-3 samplers taking interval differences with their own previous values (stalled, restarted), readers, aborts of adders, under a random schedule; judged by conservation, by the chain of returned values and its real-time order, and by the prefix sums the samplers may have seen; non-trivial when at least two threads were interleaved inside the library",
		Real:     []string{monReal}, Stub: []string{monStub, schedStub},
	})
	register(&Check{
		ID: "C13", Quick: 1500000, Thorough: 45000000, Races: true,
		Variants: []Variant{{"gauges", 6, gauges}, {"dips", 1, dips}},
		Rule:     "each run: 1-5 threads raising and lowering 1-2 random gauges of one Stats (one thread may lower what another raised), readers, aborts, in 1-3 rounds, or raises and lowerings in any order, below zero too (then only the sum is judged), under a random schedule; the gauge is looked at at every instant at which the schedule may change; non-trivial when at least two threads were interleaved inside the library",
		Real:     []string{monReal}, Stub: []string{monStub, schedStub},
	})
}

// cnt is one counter of the statistics and the ways to use it.
type cnt struct {
	name string
	c    *vlmonitoring.Counter
	flow *vlmonitoring.FlowCounter // the flow it belongs to
	sent bool
}

func allCounters(s *vlmonitoring.Stats) []cnt {
	var r []cnt
	fl := func(n string, f *vlmonitoring.FlowCounter) {
		r = append(r, cnt{n + ".Sent", &f.Sent, f, true}, cnt{n + ".Recv", &f.Recv, f, false})
	}
	one := func(n string, c *vlmonitoring.Counter) { r = append(r, cnt{name: n, c: c}) }
	p := &s.Packets
	fl("Bytes", &s.Bytes.FlowCounter)
	fl("Packets.Total", &p.Total)
	fl("Packets.Publish", &p.Publish)
	fl("Packets.Puback", &p.Puback)
	fl("Packets.Pubrec", &p.Pubrec)
	fl("Packets.Pubrel", &p.Pubrel)
	fl("Packets.Pubcomp", &p.Pubcomp)
	fl("Packets.Disconnect", &p.Disconnect)
	fl("Packets.Auth", &p.Auth)
	one("Packets.Connect", &p.Connect)
	one("Packets.ConnAck", &p.ConnAck)
	one("Packets.Sub", &p.Sub)
	one("Packets.SubAck", &p.SubAck)
	one("Packets.UnSub", &p.UnSub)
	one("Packets.UnSubAck", &p.UnSubAck)
	one("Packets.PingReq", &p.PingReq)
	one("Packets.PingResp", &p.PingResp)
	one("Packets.Unknown", &p.Unknown)
	one("Packets.Rejected", &p.Rejected)
	one("Clients.Expired", &s.Clients.Expired)
	one("Clients.Rejected", &s.Clients.Rejected)
	return r
}

type maxim struct {
	name string
	g    *vlmonitoring.Max
}

func allGauges(s *vlmonitoring.Stats) []maxim {
	p := &s.Packets
	return []maxim{
		{"Packets.UnAckSent", &p.UnAckSent}, {"Packets.UnAckRecv", &p.UnAckRecv}, {"Packets.Retained", &p.Retained}, {"Packets.Stored", &p.Stored},
		{"Clients.Connected", &s.Clients.Connected}, {"Clients.Persisted", &s.Clients.Persisted}, {"Clients.Total", &s.Clients.Total},
		{"Subs.Total", &s.Subs.Total},
	}
}

// untouched checks the statistics that nobody used.
func (c *Ctx) untouched(s *vlmonitoring.Stats, used map[string]bool) {
	for _, k := range allCounters(s) {
		if !used[k.name] && k.c.Load() != 0 {
			c.Fail("leak", "%s is %d although nobody added to it", k.name, k.c.Load())
		}
	}
	for _, g := range allGauges(s) {
		if !used[g.name] {
			if v := g.g.Load(); v.State.Load() != 0 || v.Max != 0 {
				c.Fail("leak", "%s is %d (max %d) although nobody used it", g.name, v.State.Load(), v.Max)
			}
		}
	}
}

func (k *cnt) add(c *Ctx, n uint64) uint64 {
	if k.flow != nil && c.Bool(2, 3) {
		if k.sent {
			return k.flow.SentAddU64(n)
		}
		return k.flow.RecvAddU64(n)
	}
	return k.c.AddU64(n)
}

func (k *cnt) read(c *Ctx) uint64 {
	if c.Bool(1, 3) {
		return k.c.Get()
	}
	return k.c.Load()
}

type addOp struct {
	who      string
	n, ret   uint64
	inv, res int // instants; res is 0 while under way
}

type seenOp struct {
	who      string
	v        uint64
	inv, res int
	session  int // reads of one session must not go back
}

// ledger is the history of one counter.
type ledger struct {
	cnt
	base  uint64
	adds  []addOp
	seen  []seenOp
	total uint64
}

// judge checks the history of a counter whose updates have all finished.
func (l *ledger) judge(c *Ctx) {
	// order the additions by what they returned
	by := map[uint64]int{}
	var zero []int
	for i, a := range l.adds {
		if a.n == 0 {
			zero = append(zero, i)
			continue
		}
		if j, ok := by[a.ret-a.n]; ok {
			c.Fail("lost-update", "%s: two additions started from the same value %d: %d by %s and %d by %s", l.name, a.ret-a.n, l.adds[j].n, l.adds[j].who, a.n, a.who)
		}
		by[a.ret-a.n] = i
	}
	cur := l.base
	order := []int{}
	rank := map[uint64]int{cur: 0} // value -> number of additions before it
	for len(order) < len(l.adds)-len(zero) {
		i, ok := by[cur]
		if !ok {
			c.Fail("broken-chain", "%s: no addition starts from %d (base %d, %d of %d additions in order)", l.name, cur, l.base, len(order), len(l.adds))
		}
		order = append(order, i)
		cur = l.adds[i].ret
		rank[cur] = len(order)
	}
	// real time
	min := 1 << 60
	for k := len(order) - 1; k >= 0; k-- {
		a := l.adds[order[k]]
		if min < a.inv {
			c.Fail("order", "%s: the addition of %d by %s returned %d although an addition that came earlier returned more", l.name, a.n, a.who, a.ret)
		}
		if a.res < min {
			min = a.res
		}
	}
	bounds := func(inv, res int) (lo, hi int) {
		for k, i := range order {
			if l.adds[i].res < inv {
				lo = k + 1
			}
		}
		hi = len(order)
		for k := len(order) - 1; k >= 0; k-- {
			if l.adds[order[k]].inv > res {
				hi = k
			}
		}
		return
	}
	for _, i := range zero {
		a := l.adds[i]
		r, ok := rank[a.ret]
		lo, hi := bounds(a.inv, a.res)
		if !ok || r < lo || r > hi {
			c.Fail("order", "%s: adding nothing returned %d, which the counter did not hold then", l.name, a.ret)
		}
	}
	last := map[int]int{}
	for _, s := range l.seen {
		r, ok := rank[s.v]
		if !ok {
			c.Fail("not-conserved", "%s: %s saw a sum of %d, which the counter never held (base %d, end %d)", l.name, s.who, s.v, l.base, cur)
		}
		lo, hi := bounds(s.inv, s.res)
		if r < lo || r > hi {
			c.Fail("not-conserved", "%s: %s saw a sum of %d, which is not a value of the counter at that time", l.name, s.who, s.v)
		}
		if r < last[s.session] {
			c.Fail("went-back", "%s: %s saw the sum go back to %d", l.name, s.who, s.v)
		}
		last[s.session] = r
	}
	if want := l.base + l.total; cur != want {
		c.Fail("lost-update", "%s: additions end at %d, not at %d", l.name, cur, want)
	}
	if v := l.c.Load(); v != cur {
		c.Fail("lost-update", "%s is %d after additions up to %d", l.name, v, cur)
	}
	if v := l.c.Get(); v != cur {
		c.Fail("lost-update", "%s Get is %d after additions up to %d", l.name, v, cur)
	}
}

func (c *Ctx) amount() uint64 {
	switch c.Weighted(6, 3, 2, 1) {
	case 0:
		return 1
	case 1:
		return uint64(1 + c.Choose(300))
	case 2:
		return uint64(c.Choose(1<<20)) << c.Choose(36)
	}
	return 0
}

func counters(c *Ctx) {
	st := &vlmonitoring.Stats{}
	all := allCounters(st)
	used := map[string]bool{}
	var ls []*ledger
	for n := 1 + c.Weighted(4, 3, 2, 1); n > 0; n-- {
		k := all[c.Choose(len(all))]
		if k.flow != nil && len(ls) > 0 && ls[len(ls)-1].flow != nil && c.Bool(1, 2) {
			// the other direction of the same flow
			for _, o := range all {
				if o.flow == ls[len(ls)-1].flow && o.name != ls[len(ls)-1].name {
					k = o
				}
			}
		}
		if used[k.name] {
			continue
		}
		used[k.name] = true
		l := &ledger{cnt: k}
		if c.Bool(1, 3) {
			l.base = c.U64()
			if c.Bool(1, 2) {
				l.base = -uint64(1 + c.Choose(400)) // about to wrap around
				c.Probe("wrap-around")
			}
			if v := k.c.AddU64(l.base); v != l.base {
				c.Fail("broken-chain", "%s: adding %d to zero returned %d", k.name, l.base, v)
			}
		}
		ls = append(ls, l)
	}
	now := 0
	tick := func() int { now++; return now }
	session := 0
	c.ChooseSchedule()

	var adders, samplers []*simrt.Thread
	nt := 1 + c.Weighted(1, 4, 3, 2, 1)
	for i := 0; i < nt; i++ {
		who := fmt.Sprintf("adder%d", i)
		type plan struct {
			l    *ledger
			n    uint64
			read bool
		}
		var ps []plan
		for j := 1 + c.Choose(6); j > 0; j-- {
			ps = append(ps, plan{ls[c.Choose(len(ls))], c.amount(), c.Choose(6) == 0})
		}
		session++
		ses := session
		adders = append(adders, c.Go(who, func() {
			for _, p := range ps {
				if c.Bool(1, 3) {
					c.Yield()
				}
				inv := tick()
				if p.read {
					v := p.l.read(c)
					p.l.seen = append(p.l.seen, seenOp{who, v, inv, tick(), ses})
					c.Note(v)
					continue
				}
				p.l.total += p.n
				v := p.l.add(c, p.n)
				p.l.adds = append(p.l.adds, addOp{who, p.n, v, inv, tick()})
				c.Note(v)
				c.Logf("%s += %d -> %d", p.l.name, p.n, v)
			}
		}))
	}
	stop := false
	sample := func(who string, rounds int, last func() bool) {
		type iv struct {
			prev  vlmonitoring.Counter
			sum   uint64
			ses   int
			fprev *vlmonitoring.FlowCounter
		}
		vs := make([]iv, len(ls))
		fresh := func() {
			for i := range vs {
				session++
				vs[i] = iv{ses: session}
			}
			for i, l := range ls {
				if l.flow == nil {
					continue
				}
				for j, o := range ls[:i] {
					if o.flow == l.flow {
						vs[i].fprev = vs[j].fprev
					}
				}
				if vs[i].fprev == nil {
					vs[i].fprev = &vlmonitoring.FlowCounter{}
				}
			}
		}
		fresh()
		style := c.Choose(3)
		for fin := false; ; {
			for i, l := range ls {
				v := &vs[i]
				inv := tick()
				if l.flow != nil && style > 0 {
					// both directions at once
					d := l.flow.Diff(v.fprev)
					t := tick()
					for j, o := range ls {
						if o.flow == l.flow {
							w := &vs[j]
							x := d.Recv.Load()
							if o.sent {
								x = d.Sent.Load()
							}
							w.sum += x
							o.seen = append(o.seen, seenOp{who, w.sum, inv, t, w.ses})
							c.Note(w.sum)
							c.Logf("%s: %s interval %d, sum %d", who, o.name, x, w.sum)
						}
					}
					continue
				}
				d := l.c.Diff(&v.prev)
				x := d.Load()
				v.sum += x
				l.seen = append(l.seen, seenOp{who, v.sum, inv, tick(), v.ses})
				c.Note(v.sum)
				c.Logf("%s: %s interval %d, sum %d", who, l.name, x, v.sum)
			}
			if fin {
				for i, l := range ls {
					if want := l.base + l.total; vs[i].sum != want {
						c.Fail("not-conserved", "%s: the intervals of %s sum to %d although %d was added", l.name, who, vs[i].sum, want)
					}
				}
				return
			}
			rounds--
			if last() || rounds <= 0 {
				c.Wait(func() bool { return stop })
				fin = true
				continue
			}
			switch c.Choose(6) {
			case 0:
				c.Fault("sampler-stall")
				c.Sleep(time.Duration(1+c.Choose(50)) * time.Second)
			case 1, 2:
				c.Yield()
			case 3:
				if c.Bool(1, 4) {
					c.Fault("sampler-restart")
					fresh()
				}
			}
		}
	}
	for i := c.Weighted(1, 5, 2, 1); i > 0; i-- {
		who := fmt.Sprintf("sampler%d", i)
		rounds := 1 + c.Choose(6)
		samplers = append(samplers, c.Go(who, func() { sample(who, rounds, func() bool { return stop }) }))
	}
	if c.Choose(4) == 0 {
		for w := c.Choose(8); w > 0; w-- {
			c.Yield()
		}
		adders[c.Choose(nt)].Abort()
	}
	c.Join(adders...)
	stop = true
	c.Join(samplers...)
	if c.Switches > int64(nt+len(samplers)) {
		c.Nontrivial = true
	}
	for _, l := range ls {
		l.judge(c)
	}
	// nothing is reported twice
	for _, l := range ls {
		var p vlmonitoring.Counter
		a := l.c.Diff(&p)
		b := l.c.Diff(&p)
		if a.Load() != l.base+l.total || b.Load() != 0 {
			c.Fail("not-conserved", "%s: new intervals at rest are %d and %d although %d was added", l.name, a.Load(), b.Load(), l.base+l.total)
		}
	}
	c.untouched(st, used)
}

// gauge is the history of one gauge.
type gauge struct {
	maxim
	done  uint64   // sum of the finished updates
	fly   []uint64 // updates under way
	vals  []uint64 // values held, in order
	maxs  []uint64 // maxima held, in order
	high  uint64
	owned []uint64 // raised by somebody, to be lowered by anybody
	sum   uint64
	bad   string
}

func (g *gauge) possible(v uint64) bool {
	for m := 0; m < 1<<len(g.fly); m++ {
		x := g.done
		for i, f := range g.fly {
			if m>>i&1 == 1 {
				x += f
			}
		}
		if x == v {
			return true
		}
	}
	return false
}

// look records what the gauge holds at this instant.
func (g *gauge) look() {
	m := g.g.Load()
	v := m.State.Load()
	if n := len(g.vals); n == 0 || g.vals[n-1] != v {
		g.vals = append(g.vals, v)
		if !g.possible(v) && g.bad == "" {
			g.bad = fmt.Sprintf("%s is %d, which is not what was added (%d) plus updates under way %v", g.name, v, g.done, g.fly)
		}
	}
	if v > g.high {
		g.high = v
	}
	if n := len(g.maxs); n == 0 || g.maxs[n-1] != m.Max {
		if n > 0 && g.maxs[n-1] > m.Max && g.bad == "" {
			g.bad = fmt.Sprintf("%s: the maximum went from %d down to %d", g.name, g.maxs[n-1], m.Max)
		}
		g.maxs = append(g.maxs, m.Max)
	}
}

// dips lowers gauges before they are raised: the value passes below zero, but
// what was added and subtracted still adds up. The maximum is not judged.
func dips(c *Ctx) {
	st := &vlmonitoring.Stats{}
	all := allGauges(st)
	g := all[c.Choose(len(all))]
	var sum uint64
	c.ChooseSchedule()
	var ts []*simrt.Thread
	for pairs := 1 + c.Choose(5); pairs > 0; pairs-- {
		n := uint64(1 + c.Choose(9))
		if c.Choose(4) == 0 {
			n = 1 + c.U64()>>(1+c.Choose(60))
		}
		ts = append(ts,
			c.Go("raise", func() {
				c.Yield()
				g.g.AddU64(n)
			}),
			c.Go("lower", func() {
				c.Yield()
				g.g.SubU64(n)
			}))
		c.Note(n)
		if c.Choose(3) == 0 {
			k := uint64(c.Choose(100))
			ts = append(ts, c.Go("raise", func() { g.g.AddU64(k) }))
			sum += k
			c.Note(k)
		}
	}
	c.Join(ts...)
	x := g.g.Load()
	if v := x.State.Load(); v != sum || g.g.Get() != sum {
		c.Fail("gauge", "%s is %d (Get %d) after updates that sum to %d", g.name, v, g.g.Get(), sum)
	}
	if c.Switches > int64(len(ts)) {
		c.Nontrivial = true
	}
	c.untouched(st, map[string]bool{g.name: true})
}

func gauges(c *Ctx) {
	st := &vlmonitoring.Stats{}
	all := allGauges(st)
	used := map[string]bool{}
	var gs []*gauge
	for n := 1 + c.Weighted(4, 1); n > 0; n-- {
		k := all[c.Choose(len(all))]
		if !used[k.name] {
			used[k.name] = true
			gs = append(gs, &gauge{maxim: k})
		}
	}
	look := func() {
		for _, g := range gs {
			g.look()
		}
	}
	verdict := func() {
		for _, g := range gs {
			if g.bad != "" {
				c.Fail("gauge", "%s", g.bad)
			}
		}
	}
	c.Instant(look)
	verdict()
	for _, g := range gs {
		if c.Choose(6) == 0 {
			n := []uint64{1<<31 - 1, 1 << 31, 1<<32 - 2, 1 << 53, 1<<62 - 1, 1<<63 - 3, 1 << 63}[c.Choose(7)]
			g.fly = append(g.fly, n)
			g.g.AddU64(n)
			g.fly = nil
			g.done += n
			g.owned = append(g.owned, n)
			c.Instant(look)
			verdict()
			c.Note(n)
			c.Logf("%s starts at %d", g.name, n)
		}
	}
	big := c.Choose(3)
	amount := func() uint64 {
		switch big {
		case 0:
			return 1
		case 1:
			return uint64(1 + c.Choose(9))
		}
		return uint64(c.Choose(1<<16)) << c.Choose(40)
	}
	c.ChooseSchedule()
	threads := 0
	for round := 1 + c.Choose(3); round > 0; round-- {
		var ts []*simrt.Thread
		nt := 1 + c.Weighted(1, 4, 3, 2, 1)
		c.Observe(look)
		for i := 0; i < nt; i++ {
			who := fmt.Sprintf("client%d", i)
			ops := 1 + c.Choose(6)
			up := 1 + c.Choose(3)
			ts = append(ts, c.Go(who, func() {
				for ; ops > 0; ops-- {
					if c.Bool(1, 3) {
						c.Yield()
					}
					g := gs[c.Choose(len(gs))]
					update := func(delta uint64, fn func()) {
						g.fly = append(g.fly, delta)
						fn()
						for i, f := range g.fly {
							if f == delta {
								g.fly = append(append([]uint64{}, g.fly[:i]...), g.fly[i+1:]...)
								break
							}
						}
						g.done += delta
						c.Instant(g.look)
						verdict()
						c.Note(g.done)
					}
					if len(g.owned) > 0 && c.Choose(up+1) == 0 {
						i := c.Choose(len(g.owned))
						n := g.owned[i]
						g.owned = append(append([]uint64{}, g.owned[:i]...), g.owned[i+1:]...)
						if n > 1 && c.Bool(1, 4) {
							// in two parts
							k := 1 + c.U64()%(n-1)
							g.owned = append(g.owned, n-k)
							n = k
						}
						update(-n, func() { g.g.SubU64(n) })
						c.Logf("%s -= %d", g.name, n)
						continue
					}
					n := amount()
					update(n, func() { g.g.AddU64(n) })
					g.owned = append(g.owned, n)
					c.Logf("%s += %d", g.name, n)
				}
			}))
		}
		if c.Bool(1, 2) {
			reads := 1 + c.Choose(6)
			ts = append(ts, c.Go("reader", func() {
				for ; reads > 0; reads-- {
					g := gs[c.Choose(len(gs))]
					c.Instant(g.look)
					vi, mi := len(g.vals)-1, len(g.maxs)-1
					var v, m uint64
					what := "Load"
					if c.Bool(1, 4) {
						what, v, m = "Get", g.g.Get(), g.maxs[mi]
					} else {
						x := g.g.Load()
						v, m = x.State.Load(), x.Max
					}
					c.Instant(g.look)
					verdict()
					ok := false
					for _, x := range g.vals[vi:] {
						ok = ok || x == v
					}
					if !ok {
						c.Fail("gauge", "%s of %s is %d, which it was at no time during the call %v", what, g.name, v, g.vals[vi:])
					}
					if m < g.maxs[mi] || m > g.maxs[len(g.maxs)-1] {
						c.Fail("gauge", "%s of %s reports the maximum %d, which was between %d and %d during the call", what, g.name, m, g.maxs[mi], g.maxs[len(g.maxs)-1])
					}
					c.Logf("reader: %s %d max %d", g.name, v, m)
					switch c.Choose(4) {
					case 0:
						c.Fault("reader-stall")
						c.Sleep(time.Duration(1+c.Choose(20)) * time.Second)
					case 1:
						c.Yield()
					}
				}
			}))
		}
		if c.Choose(4) == 0 {
			for w := c.Choose(8); w > 0; w-- {
				c.Yield()
			}
			ts[c.Choose(len(ts))].Abort()
		}
		threads += len(ts)
		c.Join(ts...)
		c.Observe(nil)
		c.Instant(look)
		verdict()
		for _, g := range gs {
			x := g.g.Load()
			if v := x.State.Load(); v != g.done || g.g.Get() != g.done {
				c.Fail("gauge", "%s is %d (Get %d) after updates that sum to %d", g.name, v, g.g.Get(), g.done)
			}
			if x.Max != g.high {
				c.Fail("maximum", "%s recorded the maximum %d although its highest value was %d", g.name, x.Max, g.high)
			}
		}
	}
	if c.Switches > int64(threads) {
		c.Nontrivial = true
	}
	c.untouched(st, used)
}
