package props

import (
	"strings"

	"github.com/VolantMQ/vlapi/mqttp"

	"verif/lib"
	"verif/ref"
)

const memStub = "memory: the buffers a caller hands to Encode (short, dirty, oversized, re-used, surrounded by guard bytes)"

func init() {
	register(&Check{
		ID: "C06", Quick: 100000, Thorough: 3000000,
		Foreign: []string{"build-refused", "rejected", "setter-refused"},
		Variants: []Variant{
			{"buffers", 6, buffers},
			{"unrepresentable", 4, unrepresentable},
			{"oversize", 1, oversize},
		},
		StepLimit: 1 << 26,
		Rule:      "each run: one packet (built or decoded) goes through 1-8 encoding attempts into buffers of random size (from nothing to larger than needed, full of stale bytes, inside guard bytes), with contents made unrepresentable and repaired again in between; every attempt is judged on outcome, length, guard bytes and the contents read back by the independent parser; non-trivial when a failed attempt was followed by a successful one, or a dirty buffer was used; distinct by hash of the attempts and bytes",
		Real:      []string{libReal}, Stub: []string{memStub, refStub},
	})
}

// wire is what of the contents goes over the wire.
func wire(p *ref.Pkt) *ref.Pkt {
	q := lib.Norm(p)
	if !q.NeedID() {
		q.HasID, q.ID = false, 0
	}
	if q.Will != nil && !q.V5() {
		w := *q.Will
		w.Props = nil
		q.Will = &w
	}
	if !q.V5() {
		switch q.Type {
		case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.DISCONNECT:
			q.Reason = 0
		case ref.UNSUBACK:
			q.Codes = nil
		}
	}
	return q
}

const guard = 16

// attempt encodes into a buffer of n bytes with stale contents and judges the
// outcome. The packet's contents must be representable.
func (c *Ctx) attempt(m mqttp.IFace, p *ref.Pkt, n int) bool {
	arr := make([]byte, guard+n+guard)
	stale := byte(c.Choose(256))
	for i := range arr {
		arr[i] = stale + byte(i)*byte(c.prevOdd)
	}
	was := clone(arr)
	hi := len(arr)
	if c.Choose(2) == 0 {
		hi = guard + n
	}
	buf := arr[guard : guard+n : hi]
	var sz, k int
	var err error
	c.try("Size of "+ref.TypeNames[p.Type], func() { sz, err = m.Size() })
	if err != nil {
		c.Fail("size-refused", "Size fails with %v: %s", err, p)
	}
	c.try("encoding "+ref.TypeNames[p.Type], func() { k, err = m.Encode(buf) })
	c.Note(uint64(n)<<32 | uint64(sz))
	if n < sz {
		c.Fault("short-buffer")
		if err == nil {
			c.Fail("short-accepted", "a packet of %d bytes was encoded into %d bytes: %s", sz, n, p)
		}
		for i := range arr {
			if arr[i] != was[i] {
				c.Fail("short-touched", "a buffer of %d bytes, too small for %d, was changed at %d: %s", n, sz, i-guard, p)
			}
		}
		return false
	}
	c.Fault("dirty-buffer")
	if err != nil {
		c.Fail("encode-refused", "legal contents cannot be encoded into %d of %d bytes: %v: %s", sz, n, err, p)
	}
	if k != sz {
		c.Fail("size", "Size announced %d bytes, Encode wrote %d: %s", sz, k, p)
	}
	for i := range arr {
		if (i < guard || i >= guard+sz) && arr[i] != was[i] {
			c.Fail("beyond", "byte %d was changed by encoding %d bytes into a buffer of %d: %s", i-guard, sz, n, p)
		}
	}
	out := buf[:k]
	if k <= 512 {
		c.NoteBytes(out)
	}
	r := ref.Parse(p.Ver, out)
	if r.Verdict == ref.Illegal || r.Pkt == nil {
		c.Fail("illegal", "the encoding is not a legal packet (%s): %s: %s", r.Why, p, hexs(out))
	}
	if d := ref.Diff(wire(p), wire(r.Pkt)); d != "" {
		c.Fail("differs", "the encoding is another packet: %s: %s: %s", d, p, hexs(out))
	}
	return true
}

// source makes a packet by construction or by decoding.
func (c *Ctx) source(ver byte, small bool) (mqttp.IFace, *ref.Pkt) {
	if c.Choose(3) == 0 {
		g := c.gen(false)
		g.Small = g.Small || small
		p := g.Packet(ver)
		b := c.refEncode(p).B
		c.others()
		m, _, err := c.decode(ver, clone(b))
		if err != nil || m == nil {
			c.Fail("rejected", "a legal packet is rejected: %v: %s", err, p)
		}
		return m, p
	}
	g := c.gen(true)
	g.Small = g.Small || small
	p := g.Packet(ver)
	return c.build(p), p
}

func (c *Ctx) bufLen(sz int) int {
	switch c.Weighted(4, 3, 2, 2, 1, 1, 1) {
	case 0:
		return sz
	case 1:
		return sz + 1 + c.Choose(20)
	case 2:
		return max(0, sz-1-c.Choose(3))
	case 3:
		return c.Choose(sz)
	case 4:
		return 0
	case 5:
		return sz * 2
	}
	return sz - 1
}

func buffers(c *Ctx) {
	ver := c.ver()
	m, p := c.source(ver, false)
	c.prevOdd = byte(c.Choose(2)) * 37
	if c.Logging() {
		c.Logf("packet %s", p)
	}
	n := 1 + c.Choose(6)
	failed := false
	for i := 0; i < n; i++ {
		sz, err := m.Size()
		if err != nil {
			c.Fail("size-refused", "Size fails with %v: %s", err, p)
		}
		b := c.bufLen(sz)
		c.Logf("attempt with %d bytes, %d needed", b, sz)
		if !c.attempt(m, p, b) {
			failed = true
		} else {
			c.Nontrivial = true
		}
		if c.Bool(1, 5) {
			// an abandoned attempt: only part of the result is used
			c.Fault("abandoned")
			mqttp.Encode(m)
		}
	}
	sz, _ := m.Size()
	c.attempt(m, p, sz+c.Choose(3))
	c.Nontrivial = c.Nontrivial || failed
}

var long string

func (c *Ctx) overlong() string {
	if long == "" {
		long = strings.Repeat("abcdefgh", 25000)
	}
	return long[:[]int{65536, 65537, 65540, 66000, 70000, 131071, 131072, 131073, 196608, 200000}[c.Choose(10)]]
}

// unrepresentable makes contents that cannot be encoded, tries, repairs them
// and tries again.
func unrepresentable(c *Ctx) {
	ver := c.ver()
	g := c.gen(true)
	g.Small = true
	p := g.Packet(ver)
	type sabotage struct {
		name        string
		brk, repair func(m mqttp.IFace)
	}
	must := func(what string, err error) {
		if err != nil {
			c.Fail("setter-refused", "%s fails with %v: %s", what, err, p)
		}
	}
	var l []sabotage
	build := p
	if p.NeedID() {
		q := *p
		q.HasID = false
		build = &q
		l = append(l, sabotage{"no-id", func(mqttp.IFace) {}, func(m mqttp.IFace) {
			m.(interface{ SetPacketID(mqttp.IDType) }).SetPacketID(mqttp.IDType(p.ID))
		}})
	}
	m := c.build(build)
	if p.NeedID() && c.Choose(3) != 0 {
		l[0].repair(m)
		l = nil
	}
	if p.NeedID() && p.Type != ref.PUBLISH && len(l) == 0 && ver < 5 && p.Type != ref.SUBSCRIBE && p.Type != ref.UNSUBSCRIBE {
		return
	}
	switch x := m.(type) {
	case *mqttp.Publish:
		if p.QoS == 0 {
			l = append(l, sabotage{"dup", func(mqttp.IFace) { x.SetDup(true) }, func(mqttp.IFace) { x.SetDup(false) }})
		}
		l = append(l, sabotage{"long-topic", func(mqttp.IFace) { must("SetTopic", x.SetTopic(c.overlong())) }, func(mqttp.IFace) { must("SetTopic", x.SetTopic(p.Topic)) }})
	case *mqttp.Connect:
		l = append(l, sabotage{"long-client", func(mqttp.IFace) {
			if x.SetClientID([]byte(c.overlong())) == nil {
				c.Probe("long-client-set")
			}
		}, func(mqttp.IFace) { must("SetClientID", x.SetClientID(p.ClientID)) }})
		cred := func(mqttp.IFace) { must("SetCredentials", x.SetCredentials(p.User, p.Pass)) }
		l = append(l, sabotage{"long-user", func(mqttp.IFace) { x.SetCredentials([]byte(c.overlong()), p.Pass) }, cred})
		l = append(l, sabotage{"long-password", func(mqttp.IFace) { x.SetCredentials([]byte("user"), []byte(c.overlong())) }, cred})
		will := func(mqttp.IFace) {
			x.ResetWill()
			if p.Will != nil {
				w, err := lib.BuildWill(p.Will, p.Ver, c.pk())
				must("will", err)
				must("SetWill", x.SetWill(w))
			}
		}
		bad := func(topic string, payload []byte, prop string) func(mqttp.IFace) {
			return func(mqttp.IFace) {
				w := mqttp.NewPublish(mqttp.ProtocolVersion(ver))
				if w.Set(topic, payload, 0, false, false) != nil {
					return
				}
				if prop != "" && w.PropertySet(mqttp.PropertyContentType, prop) != nil {
					return
				}
				x.SetWill(w)
			}
		}
		l = append(l, sabotage{"long-will-topic", bad(c.overlong(), []byte("x"), ""), will}, sabotage{"long-will-payload", bad("w", []byte(c.overlong()), ""), will})
		if ver == 5 {
			l = append(l, sabotage{"long-will-property", bad("w", []byte("x"), c.overlong()), will})
		}
	}
	if ver == 5 {
		var ds []*ref.PropDef
		for _, d := range ref.PropsFor(p.Type) {
			if d.Kind == ref.KStr || d.Kind == ref.KBin || d.Kind == ref.KPair || d.Kind == ref.KVar {
				ds = append(ds, d)
			}
		}
		if len(ds) > 0 {
			d := ds[c.Choose(len(ds))]
			l = append(l, sabotage{"long-property", func(m mqttp.IFace) {
				var v interface{}
				s := c.overlong()
				switch d.Kind {
				case ref.KStr:
					v = s
				case ref.KBin:
					v = []byte(s)
				case ref.KPair:
					v = []interface{}{mqttp.StringPair{K: s, V: "v"}, mqttp.StringPair{K: "k", V: s}, []mqttp.StringPair{{K: "a", V: "b"}, {K: s, V: "v"}}}[c.Choose(3)]
				case ref.KVar:
					v = []uint32{268435456, 0x7fffffff, 0xffffffff, 1 << 30}[c.Choose(4)]
				}
				if m.PropertySet(mqttp.PropertyID(d.ID), v) != nil {
					c.Probe("refused-when-set")
				}
			}, func(m mqttp.IFace) {
				m.PropertiesDiscard()
				must("properties", lib.SetProps(m, p.Props, c.pk()))
			}})
		}
	}
	if len(l) == 0 {
		return
	}
	c.prevOdd = byte(c.Choose(2)) * 37
	rounds := 1 + c.Choose(2)
	for r := 0; r < rounds; r++ {
		s := l[c.Choose(len(l))]
		if s.name == "no-id" && r > 0 {
			continue
		}
		c.try("update", func() { s.brk(m) })
		c.Fault("unrepresentable:" + s.name)
		c.Logf("%s in %s", s.name, p)
		// is it really there? a setter may have refused it
		var now *ref.Pkt
		var err error
		c.try("reading", func() { now, err = lib.Observe(m) })
		bad := err != nil || !representable(now)
		if bad {
			var sz int
			c.try("Size with unrepresentable contents", func() { sz, err = m.Size() })
			n := 300000
			if err == nil {
				n = sz + []int{0, 0, 1, 40, 70000}[c.Choose(5)]
				if c.Choose(6) == 0 {
					n = c.Choose(sz + 1)
				}
			}
			var k int
			c.try("encoding unrepresentable contents ("+s.name+")", func() { k, err = m.Encode(make([]byte, n)) })
			if err == nil {
				c.Fail("unrepresentable-encoded", "%s: encoded into %d bytes without an error: %s", s.name, k, p)
			}
			var b []byte
			c.try("encoding unrepresentable contents ("+s.name+")", func() { b, err = mqttp.Encode(m) })
			if err == nil {
				c.Fail("unrepresentable-encoded", "%s: encoded into %d bytes without an error: %s", s.name, len(b), p)
			}
			c.Nontrivial = true
			c.Note(uint64(n))
		} else {
			c.Probe("refused-when-set")
		}
		s.repair(m)
	}
	if l[0].name == "no-id" {
		l[0].repair(m)
	}
	sz, err := m.Size()
	if err != nil {
		c.Fail("size-refused", "Size fails after repair with %v: %s", err, p)
	}
	c.attempt(m, p, sz+c.Choose(2)*9)
}

// representable tells whether the wire format can carry the contents.
func representable(p *ref.Pkt) bool {
	if p.NeedID() && !p.HasID {
		return false
	}
	if p.Type == ref.PUBLISH && p.QoS == 0 && p.Dup {
		return false
	}
	lens := []int{len(p.Topic), len(p.ClientID), len(p.User), len(p.Pass)}
	ps := p.Props
	if p.Will != nil {
		lens = append(lens, len(p.Will.Topic), len(p.Will.Payload))
		ps = append(append([]ref.Prop(nil), ps...), p.Will.Props...)
	}
	for _, x := range ps {
		lens = append(lens, len(x.K), len(x.S))
		if d := ref.PropByID[x.ID]; d != nil && d.Kind == ref.KVar && x.N > 268435455 {
			return false
		}
	}
	for _, s := range p.Subs {
		lens = append(lens, len(s.Filter))
	}
	for _, n := range lens {
		if n > 65535 {
			return false
		}
	}
	return true
}

var bigPayload []byte

// oversize makes packets around and far beyond the protocol's maximum length.
func oversize(c *Ctx) {
	ver := c.ver()
	const maxRem = 268435455
	var m mqttp.IFace
	rem := int64(0)
	var what string
	switch kind := c.Weighted(3, 2, 2, 1); kind {
	case 0:
		if bigPayload == nil {
			bigPayload = make([]byte, maxRem+70000)
		}
		pub := mqttp.NewPublish(mqttp.ProtocolVersion(ver))
		over := int64(2 + 1) // topic
		if ver == 5 {
			over++
		}
		target := int64(maxRem) + []int64{0, 1, -1, 2, 300, 60000, 5, 4}[c.Choose(8)]
		if err := pub.Set("t", bigPayload[:target-over], 0, false, false); err != nil {
			c.Fail("setter-refused", "Set: %v", err)
		}
		m, rem, what = pub, target, "payload"
	case 1, 2:
		f := strings.Repeat("a", []int{65535, 65535, 65000, 40000}[c.Choose(4)])
		n := []int64{4095, 4096, 4097, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072}[c.Choose(12)]
		t, err := mqttp.NewTopic([]byte(f))
		if err != nil {
			c.Fail("setter-refused", "NewTopic: %v", err)
		}
		rem = 2
		if ver == 5 {
			rem++
		}
		if kind == 1 {
			s := mqttp.NewSubscribe(mqttp.ProtocolVersion(ver))
			s.SetPacketID(1)
			for i := int64(0); i < n; i++ {
				s.AddTopic(t)
			}
			m = s
			rem += n * int64(3+len(f))
		} else {
			s := mqttp.NewUnSubscribe(mqttp.ProtocolVersion(ver))
			s.SetPacketID(1)
			for i := int64(0); i < n; i++ {
				s.AddTopic(t)
			}
			m = s
			rem += n * int64(2+len(f))
		}
		what = "topics"
	case 3:
		if ver < 5 {
			return
		}
		s := strings.Repeat("p", 65535)
		n := []int64{2047, 2048, 2049, 8192, 16384, 32767, 32768, 32769}[c.Choose(8)]
		l := make([]mqttp.StringPair, n)
		for i := range l {
			l[i] = mqttp.StringPair{K: s, V: s}
		}
		p := mqttp.NewConnAck(5)
		if err := p.PropertySet(mqttp.PropertyUserProperty, l); err != nil {
			return
		}
		pl := n * int64(5+2*len(s))
		rem = 2 + pl + int64(len(ref.VarInt(uint32(min(pl, maxRem)))))
		m, what = p, "properties"
	}
	c.Note(uint64(rem))
	c.Fault("oversize:" + what)
	c.Logf("%s: remaining length %d", what, rem)
	var sz int
	var err error
	c.try("Size", func() { sz, err = m.Size() })
	if rem <= maxRem {
		if err != nil {
			c.Fail("size-refused", "Size of a packet of remaining length %d (%s) fails with %v", rem, what, err)
		}
		if want := 1 + int64(len(ref.VarInt(uint32(rem)))) + rem; int64(sz) != want {
			c.Fail("size", "Size of a packet of %d bytes (%s) is %d", want, what, sz)
		}
	} else if err == nil {
		c.Fail("oversize-accepted", "Size of a packet of remaining length %d (%s) is %d, without an error", rem, what, sz)
	}
	// far too small, or as much as the wrapped size would need
	for _, n := range []int{c.Choose(100), 300000} {
		buf := make([]byte, n)
		for i := range buf {
			buf[i] = 0xA5
		}
		var k int
		c.try("encoding a packet of remaining length beyond the buffer ("+what+")", func() { k, err = m.Encode(buf) })
		if err == nil {
			c.Fail("oversize-accepted", "a packet of remaining length %d (%s) was encoded into %d of %d bytes", rem, what, k, n)
		}
		for i := range buf {
			if buf[i] != 0xA5 {
				c.Fail("short-touched", "a buffer of %d bytes was changed at %d by a packet of remaining length %d (%s)", n, i, rem, what)
			}
		}
	}
	c.Nontrivial = true
}
