package props

import (
	"fmt"
	"time"

	"github.com/VolantMQ/vlapi/mqttp"
	"github.com/VolantMQ/vlapi/vlpersistence"

	"verif/lib"
	"verif/ref"
	"verif/simrt"
)

func init() {
	register(&Check{
		ID: "C11", Quick: 150000, Thorough: 4500000,
		Foreign: []string{"build-refused", "rejected"},
		Variants: []Variant{
			{"store-and-forward", 4, storeForward},
			{"every-cut", 1, everyCut},
		},
		StepLimit: 1 << 26,
		Rule:      "each run: 1-4 boots of a broker with 1-3 publishers and 1-3 subscriber sessions of random versions; received messages are cloned per session, encoded and written to a simulated disk (one file per record, or a log), reloaded after crashes at any point, rewritten, and delivered to subscribers that may have changed their version; the disk tears, loses, cuts and refuses writes, the clock steps and time passes while the broker is down; every record that is intact must read back as what was published, every cut one must be refused, every delivery is judged against what was published and the exact remaining lifetime; non-trivial when a record was read back after a crash; distinct by hash of schedule, bytes and faults",
		Real:      []string{libReal, "vlpersistence.PersistedPacket"}, Stub: []string{"disk: simulated files with unsynced tails, torn, lost and refused writes", "wall clock: simulated", "broker logic around the library", schedStub, refStub},
	})
}

// rec is one persisted record with what it stands for.
type rec struct {
	vlpersistence.PersistedPacket
	want *ref.Pkt
	at   time.Time
	full int // length of the complete data
	sync bool
	gone bool // deleted
}

// file is the durable form of one session's queue.
type file struct {
	log  bool // one file for all records instead of one per record
	recs []*rec
}

type disk struct {
	c     *Ctx
	files map[string]*file
	mode  int // kinds of faults
}

// write stores a record in pieces, with faults.
func (d *disk) write(f *file, p vlpersistence.PersistedPacket, want *ref.Pkt, at time.Time) error {
	c := d.c
	r := &rec{want: want, at: at, full: len(p.Data)}
	r.ExpireAt = p.ExpireAt
	if f.log {
		if n := len(f.recs); n > 0 && len(f.recs[n-1].Data) < f.recs[n-1].full {
			// the log cannot be continued after a torn record
			return fmt.Errorf("log is broken")
		}
	}
	if d.mode == 1 && c.Bool(1, 10) {
		c.Fault("disk-refused")
		return fmt.Errorf("input/output error")
	}
	f.recs = append(f.recs, r)
	data := clone(p.Data)
	limit := len(data)
	short := false
	if d.mode == 2 && c.Bool(1, 8) {
		c.Fault("disk-full")
		limit, short = c.Choose(len(data)), true
	}
	for len(r.Data) < limit {
		n := limit - len(r.Data)
		if c.Bool(1, 3) {
			n = 1 + c.Choose(n)
		}
		r.Data = append(r.Data, data[len(r.Data):len(r.Data)+n]...)
		if len(r.Data) < limit || c.Bool(1, 4) {
			c.Yield()
		}
	}
	if short {
		return fmt.Errorf("no space left on device")
	}
	switch {
	case c.Bool(1, 5):
		c.Probe("not-synced")
	case d.mode == 3 && c.Bool(1, 4):
		c.Fault("disk-lying-sync")
	default:
		c.Yield()
		r.sync = true
	}
	return nil
}

// crash keeps what was durable.
func (d *disk) crash() {
	c := d.c
	for _, name := range sorted(d.files) {
		f := d.files[name]
		var keep []*rec
		for i, r := range f.recs {
			if r.gone && (r.sync || c.Bool(1, 2)) {
				continue
			}
			r.gone = false
			if !r.sync {
				switch c.Choose(4) {
				case 0:
					c.Fault("disk-lost-write")
					r.Data = nil
				case 1:
					if len(r.Data) > 0 {
						c.Fault("disk-torn-write")
						r.Data = r.Data[:c.Choose(len(r.Data))]
					}
				}
				if f.log && len(r.Data) < r.full {
					// what comes later in the log is lost with it
					keep = append(keep, r)
					for _, x := range f.recs[i+1:] {
						if !x.gone {
							c.Fault("disk-lost-write")
						}
					}
					break
				}
				if r.Data == nil && r.full > 0 && c.Bool(1, 2) {
					continue
				}
			}
			r.sync = true
			keep = append(keep, r)
		}
		f.recs = keep
	}
}

func sorted[T any](m map[string]T) []string {
	k := map[string]int64{}
	for x := range m {
		k[x] = 1
	}
	return simrt.SortedKeys(k)
}

// item is a message in a session's memory.
type item struct {
	m    *mqttp.Publish
	want *ref.Pkt
	at   time.Time
	rec  *rec
	sent bool
}

type session struct {
	name  string
	ver   byte // version of the stored records
	sub   byte // version of the subscriber now
	qos   byte
	f     *file
	in    []item // handed over by publishers
	queue []item
	id    uint16
	hist  int // records reloaded
}

type broker struct {
	c    *Ctx
	w    *world
	d    *disk
	ss   []*session
	ret  *file
	done bool
}

// packetID gives a packet of QoS 1 and 2 its identifier.
func (s *session) packetID(m *mqttp.Publish, p *ref.Pkt) {
	p.HasID, p.ID = false, 0
	if p.QoS > 0 {
		s.id++
		if s.id == 0 {
			s.id = 1
		}
		m.SetPacketID(mqttp.IDType(s.id))
		p.HasID, p.ID = true, s.id
	}
}

func (b *broker) cloneFor(m *mqttp.Publish, p *ref.Pkt, v byte) (*mqttp.Publish, *ref.Pkt) {
	c := b.c
	var x *mqttp.Publish
	var err error
	c.try("Clone", func() { x, err = m.Clone(mqttp.ProtocolVersion(v)) })
	if err != nil || x == nil {
		c.Fail("clone-refused", "Clone for version %d fails: %v: %s", v, err, p)
	}
	return x, cloneModel(p, v)
}

// scratch buffers are reused and dirty.
func (c *Ctx) scratch(buf *[]byte, m *mqttp.Publish, p *ref.Pkt) []byte {
	var n int
	var err error
	c.try("Size", func() { n, err = m.Size() })
	if err != nil {
		c.Fail("encode-refused", "Size fails: %v: %s", err, p)
	}
	if cap(*buf) < n {
		*buf = make([]byte, n+c.Choose(40))
		for i := range *buf {
			(*buf)[i] = 0xEE
		}
	}
	to := (*buf)[:n]
	if c.Bool(1, 4) {
		to = (*buf)[:cap(*buf)]
	}
	c.try("encoding", func() { n, err = m.Encode(to) })
	if err != nil {
		c.Fail("encode-refused", "a received message cannot be encoded: %v: %s", err, p)
	}
	return to[:n]
}

func persisted(data []byte, at time.Time) vlpersistence.PersistedPacket {
	p := vlpersistence.PersistedPacket{Data: data}
	if !at.IsZero() {
		p.ExpireAt = at.Format(time.RFC3339Nano)
	}
	return p
}

// publish is the life of one publisher's connection.
func (b *broker) publish(n int, name string) {
	c := b.c
	ver := c.ver()
	g := c.gen(true)
	g.Small = c.Bool(9, 10)
	var pipe []byte // the connection's receive buffer, reused
	var buf []byte
	for ; n > 0; n-- {
		p := g.Of(ref.PUBLISH, ver)
		if p.Topic == "" {
			p.Topic = fmt.Sprintf("t%d", n)
		}
		p.Props = without(p.Props, 0x23)
		exp := uint32(0)
		if ver == 5 {
			p.Props = without(p.Props, 0x02)
			if c.Bool(1, 2) {
				exp = []uint32{0, 1, 2, 5, 60, 3600, 1<<32 - 1}[c.Choose(7)]
				p.Props = append(p.Props, ref.Prop{ID: 0x02, N: exp})
			}
		}
		if c.Bool(1, 2) {
			pipe = append(pipe[:0], c.refEncode(p).B...)
		} else {
			pipe = append(pipe[:0], c.encode(c.build(p), p)...)
		}
		c.others()
		m, k, err := c.decode(ver, pipe)
		if err != nil || m == nil || k != len(pipe) {
			c.Fail("rejected", "a legal message is rejected: %v: %s", err, p)
		}
		x := m.(*mqttp.Publish)
		var at time.Time
		if v := x.PropertyGet(mqttp.PropertyPublicationExpiry); v != nil {
			s, err := v.AsInt()
			if err != nil || s != exp {
				c.Fail("altered", "expiry interval is %d (%v), want %d", s, err, exp)
			}
			at = b.w.wall.Add(time.Duration(s) * time.Second).In(zones[c.Choose(3)])
			x.SetExpireAt(at)
		} else if c.Bool(1, 8) {
			// the broker's own limit
			at = b.w.wall.Add(time.Duration(1+c.Choose(20000)) * time.Millisecond)
			x.SetExpireAt(at)
		}
		c.Logf("%s: %s expires %v", name, p, at)
		if p.Retain {
			y, q := b.cloneFor(x, p, ver)
			if q.QoS > 0 {
				y.SetPacketID(1)
				q.HasID, q.ID = true, 1
			}
			_ = b.d.write(b.ret, persisted(c.scratch(&buf, y, q), at), q, at)
		}
		for _, s := range b.ss {
			s.in = append(s.in, item{m: x, want: p, at: at})
		}
		if c.Bool(1, 2) {
			c.Yield()
		}
	}
}

// serve is the life of one session while the broker runs.
func (b *broker) serve(s *session, online bool, last func() bool) {
	c := b.c
	var buf []byte
	for {
		if len(s.in) == 0 {
			if online {
				b.deliver(s, &buf)
			}
			c.Wait(func() bool { return len(s.in) > 0 || last() })
			if len(s.in) == 0 {
				break
			}
		}
		c.Met()
		it := s.in[0]
		s.in = s.in[1:]
		m, q := b.cloneFor(it.m, it.want, s.ver)
		if q.QoS > s.qos {
			c.try("SetQoS", func() { _ = m.SetQoS(mqttp.QosType(s.qos)) })
			q.QoS = s.qos
		}
		s.packetID(m, q)
		data := c.scratch(&buf, m, q)
		k := item{m: m, want: q, at: it.at}
		if err := b.d.write(s.f, persisted(data, it.at), q, it.at); err == nil {
			k.rec = s.f.recs[len(s.f.recs)-1]
		}
		s.queue = append(s.queue, k)
		if online && c.Bool(1, 3) {
			b.deliver(s, &buf)
		}
		if c.Bool(1, 3) {
			c.Yield()
		}
		if c.Bool(1, 6) {
			b.w.set(b.w.wall.Add(time.Duration(c.Choose(3000)) * time.Millisecond))
		}
	}
	if online {
		b.deliver(s, &buf)
	}
}

// deliver sends what is in the session's queue to its subscriber.
func (b *broker) deliver(s *session, buf *[]byte) {
	c := b.c
	for i := range s.queue {
		k := &s.queue[i]
		if k.sent {
			continue
		}
		// the subscriber may have come back with another version
		v := s.sub
		df, expired := b.w.ask(&held{m: k.m, p: k.want, at: k.at, who: s.name})
		if expired {
			c.Probe("dropped-expired")
			k.sent = true
			if k.rec != nil {
				k.rec.gone = true
			}
			continue
		}
		m, q := k.m, k.want.Clone()
		if v != s.ver || c.Bool(1, 4) {
			id := k.want.ID
			m, q = b.cloneFor(m, q, v)
			if q.QoS > 0 {
				m.SetPacketID(mqttp.IDType(id))
				q.HasID, q.ID = true, id
			}
		}
		if q.V5() {
			q.Props = without(q.Props, 0x02)
			if !k.at.IsZero() {
				var err error
				c.try("PropertySet", func() { err = m.PropertySet(mqttp.PropertyPublicationExpiry, df) })
				if err != nil {
					c.Fail("update-refused", "the remaining lifetime %d is refused: %v", df, err)
				}
				q.Props = append(q.Props, ref.Prop{ID: 0x02, N: df})
			}
		}
		out := c.scratch(buf, m, q)
		c.NoteBytes(out[:min(len(out), 40)])
		if m == k.m {
			// what was set for the delivery stays in the session's copy
			k.want = q
		}
		if c.Bool(1, 2) {
			r := ref.Parse(v, out)
			if r.Pkt == nil {
				c.Fail("illegal", "the delivered bytes are not a packet (%s): %s", r.Why, q)
			}
			if d := ref.Diff(wire(q), wire(r.Pkt)); d != "" {
				c.Fail("altered", "the delivered message differs from what was published: %s: %s", d, q)
			}
		} else {
			x, n, err := c.decode(v, clone(out))
			if err != nil || x == nil || n != len(out) {
				c.Fail("illegal", "the subscriber rejects the delivered bytes: %v: %s", err, q)
			}
			c.match("altered", q, x)
		}
		c.Probe("delivered")
		c.Logf("%s: delivered %s", s.name, q)
		if q.QoS == 0 || c.Bool(1, 2) {
			// acknowledged
			k.sent = true
			if k.rec != nil {
				k.rec.gone = true
			}
		} else {
			// to be sent again
			c.try("SetDup", func() { k.m.SetDup(true) })
			k.want = k.want.Clone()
			k.want.Dup = true
			if c.Bool(1, 2) {
				k.sent = true
			}
		}
		if c.Bool(1, 4) {
			c.Yield()
		}
	}
}

// load reads a store back.
func (b *broker) load(f *file, ver func(*rec) byte, use func(*mqttp.Publish, *rec)) {
	c := b.c
	got := func(m mqttp.IFace, r *rec) {
		x, ok := m.(*mqttp.Publish)
		if !ok {
			c.Fail("altered", "a record reads back as %s: %s", m.Type().Name(), r.want)
		}
		c.match("altered", r.want, m)
		if r.ExpireAt != "" {
			at, err := time.Parse(time.RFC3339Nano, r.ExpireAt)
			if err != nil || !at.Equal(r.at) {
				c.Bug("expiry text %q: %v", r.ExpireAt, err)
			}
			x.SetExpireAt(at)
		}
		c.Probe("reloaded")
		use(x, r)
	}
	refused := func(m mqttp.IFace, err error, r *rec) {
		if m != nil || err == nil {
			c.Fail("torn-accepted", "a record cut to %d of %d bytes is accepted: %s", len(r.Data), r.full, r.want)
		}
		c.Probe("torn-refused")
	}
	if !f.log {
		for _, r := range f.recs {
			c.others()
			m, n, err := c.decode(ver(r), clone(r.Data))
			if len(r.Data) < r.full {
				refused(m, err, r)
				continue
			}
			if err != nil || m == nil || n != len(r.Data) {
				c.Fail("lost", "an intact record is rejected: %v: %s", err, r.want)
			}
			got(m, r)
		}
		return
	}
	var all []byte
	for _, r := range f.recs {
		all = append(all, r.Data...)
	}
	for _, r := range f.recs {
		m, n, err := c.decode(ver(r), all)
		if len(r.Data) < r.full {
			refused(m, err, r)
			return
		}
		if err != nil && n == r.full && n < len(all) {
			m, n, err = c.decode(ver(r), all[:n:n])
		}
		if err != nil || m == nil || n != r.full {
			c.Fail("lost", "an intact record in the log is rejected: %v (%d of %d bytes): %s", err, n, r.full, r.want)
		}
		got(m, r)
		all = all[n:]
	}
}

// boot starts the broker from its disk.
func (b *broker) boot(first bool) {
	c := b.c
	var buf []byte
	for _, s := range b.ss {
		s.in, s.queue = nil, nil
		type kept struct {
			m *mqttp.Publish
			r *rec
		}
		var ks []kept
		b.load(s.f, func(*rec) byte { return s.ver }, func(m *mqttp.Publish, r *rec) {
			ks = append(ks, kept{m, r})
			s.hist++
		})
		for _, k := range ks {
			s.queue = append(s.queue, item{m: k.m, want: k.r.want.Clone(), at: k.r.at, rec: k.r})
			if k.r.want.ID > s.id {
				s.id = k.r.want.ID
			}
		}
		// what is left of a broken log, or a store of another version, is
		// written again
		nv := s.ver
		if c.Bool(1, 6) {
			nv = c.ver()
		}
		broken := false
		for _, r := range s.f.recs {
			broken = broken || len(r.Data) < r.full
		}
		if !broken && nv == s.ver && c.Bool(3, 4) {
			continue
		}
		c.Probe("rewritten")
		f := &file{log: c.Bool(1, 2)}
		d := *b.d
		d.mode = 0
		s.ver = nv
		for i := range s.queue {
			k := &s.queue[i]
			if byte(k.m.Version()) != nv || c.Bool(1, 4) {
				id := k.want.ID
				k.m, k.want = b.cloneFor(k.m, k.want, nv)
				if k.want.QoS > 0 {
					k.m.SetPacketID(mqttp.IDType(id))
					k.want.HasID, k.want.ID = true, id
				}
			}
			if err := d.write(f, persisted(c.scratch(&buf, k.m, k.want), k.at), k.want.Clone(), k.at); err != nil {
				c.Bug("rewrite: %v", err)
			}
			k.rec = f.recs[len(f.recs)-1]
			k.rec.sync = true
		}
		// the new file replaces the old one at once
		s.f = f
		b.d.files[s.name] = f
	}
	b.load(b.ret, func(r *rec) byte { return r.want.Ver }, func(m *mqttp.Publish, r *rec) {
		if first {
			return
		}
		// retained messages go to new subscribers
		df, ex := b.w.ask(&held{m: m, p: r.want, at: r.at, who: "retained"})
		if ex {
			return
		}
		_ = df
		for _, s := range b.ss {
			if c.Bool(1, 4) {
				s.in = append(s.in, item{m: m, want: r.want, at: r.at})
			}
		}
	})
	var keep []*rec
	for _, r := range b.ret.recs {
		if len(r.Data) == r.full {
			keep = append(keep, r)
		}
	}
	b.ret.recs = keep
}

func storeForward(c *Ctx) {
	w := &world{c: c, wall: simrt.Base}
	c.NowHook = w.now
	d := &disk{c: c, files: map[string]*file{}, mode: c.Choose(4)}
	b := &broker{c: c, w: w, d: d, ret: &file{}}
	d.files["retained"] = b.ret
	for i := 1 + c.Weighted(3, 2, 1); i > 0; i-- {
		s := &session{name: fmt.Sprintf("session%d", i), ver: c.ver(), qos: byte(c.Choose(3)), f: &file{log: c.Bool(1, 2)}}
		s.sub = s.ver
		d.files[s.name] = s.f
		b.ss = append(b.ss, s)
	}
	c.ChooseSchedule()
	boots := 1 + c.Weighted(1, 4, 3, 2)
	for n := 0; n <= boots; n++ {
		b.boot(n == 0)
		final := n == boots
		var ts, ps []*simrt.Thread
		pubs := 1 + c.Choose(3)
		if final {
			pubs = c.Choose(2)
		}
		for i := 0; i < pubs; i++ {
			k := 1 + c.Choose(4)
			name := fmt.Sprintf("publisher%d.%d", n, i)
			ps = append(ps, c.Go(name, func() { b.publish(k, name) }))
		}
		last := func() bool {
			for _, t := range ps {
				if !t.Dead() {
					return false
				}
			}
			return true
		}
		for _, s := range b.ss {
			if c.Bool(1, 4) {
				s.sub = c.ver()
			}
			online := final || c.Bool(1, 3)
			ts = append(ts, c.Go(s.name, func() { b.serve(s, online, last) }))
		}
		ts = append(ts, ps...)
		if !final && c.Bool(3, 4) {
			for k := c.Choose(30); k > 0 && !last(); k-- {
				c.Yield()
			}
			c.Fault("broker-crash")
			c.Logf("crash")
			for _, t := range ts {
				t.Abort()
			}
			c.Join(ts...)
			d.crash()
		} else {
			c.Join(ts...)
			if !final {
				for _, name := range sorted(d.files) {
					f := d.files[name]
					var keep []*rec
					for _, r := range f.recs {
						r.sync = true
						if !r.gone {
							keep = append(keep, r)
						}
					}
					f.recs = keep
				}
			}
		}
		if !final {
			// time passes while the broker is down
			switch c.Choose(5) {
			case 0:
				w.set(w.wall.Add(time.Duration(c.Choose(4000)) * time.Millisecond))
			case 1:
				c.Fault("downtime")
				w.set(w.wall.Add(time.Duration(1+c.Choose(100)) * time.Minute))
			case 2:
				c.Fault("clock-back")
				w.set(w.wall.Add(-time.Duration(1+c.Choose(100)) * time.Second))
			case 3:
				// to the boundary of a record's lifetime
				for _, s := range b.ss {
					for _, r := range s.f.recs {
						if !r.at.IsZero() && r.at.Year() < 2100 && c.Bool(1, 2) {
							c.Fault("clock-forward")
							w.set(r.at.Add([]time.Duration{-1, 0, 1, -time.Second, -time.Second + 1, -time.Second - 1}[c.Choose(6)]))
						}
					}
				}
			}
		}
	}
	for _, s := range b.ss {
		if s.hist > 0 {
			c.Nontrivial = true
		}
	}
}

// everyCut cuts one record at every length.
func everyCut(c *Ctx) {
	m, p := c.message(c.ver())
	v := c.ver()
	var x *mqttp.Publish
	var err error
	c.try("Clone", func() { x, err = m.Clone(mqttp.ProtocolVersion(v)) })
	if err != nil {
		c.Fail("clone-refused", "%v: %s", err, p)
	}
	q := cloneModel(p, v)
	if q.QoS > 0 {
		x.SetPacketID(9)
		q.HasID, q.ID = true, 9
	}
	var b []byte
	c.try("encoding", func() { b, err = lib.Encode(x, c.pk()) })
	if err != nil {
		c.Fail("encode-refused", "%v: %s", err, q)
	}
	c.NoteBytes(b)
	c.Nontrivial = len(b) > 4
	step := 1 + len(b)/200
	for n := 0; n < len(b); n += step {
		y, _, err := c.decode(v, clone(b[:n]))
		if y != nil || err == nil {
			c.Fail("torn-accepted", "a record cut to %d of %d bytes is accepted: %s", n, len(b), q)
		}
		c.Fault("disk-torn-write")
	}
	y, n, err := c.decode(v, clone(b))
	if err != nil || y == nil || n != len(b) {
		c.Fail("lost", "an intact record is rejected: %v: %s", err, q)
	}
	c.match("altered", q, y)
}
