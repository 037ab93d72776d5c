package props

import (
	"strings"

	"github.com/VolantMQ/vlapi/mqttp"

	"verif/lib"
	"verif/ref"
	"verif/simrt"
)

func init() {
	register(&Check{
		ID: "C19", Quick: 1200000, Thorough: 36000000,
		Foreign: []string{"panic", "unreadable"},
		Variants: []Variant{
			{"careless-peers", 6, carelessPeers},
			{"careless-updates", 5, carelessUpdates},
		},
		Rule: "each run: two programs that ask the library for legal and illegal contents (one or two parts of a legal packet replaced: texts, topics, filters, options, QoS, DUP, identifiers, codes, credentials, wills, properties) and send each other over fragmenting streams whatever is not refused, or a packet, built or received, that gets such updates one after the other and is encoded in between; every packet that leaves is read by the independent parser and by the library's decoder; non-trivial when an illegal request was made; distinct by hash of the requests and of the packets sent",
		Real: []string{libReal}, Stub: []string{refStub, "programs that ask for illegal contents"},
	})
}

// wrongText is text that is illegal in many places.
func (c *Ctx) wrongText() string {
	s := badText[c.Choose(len(badText))]
	switch c.Choose(4) {
	case 0:
		s = "ab/" + s + "/z"
	case 1:
		s = strings.Repeat("x", c.Choose(40)) + s
	}
	if c.Bool(1, 40) {
		return c.overlong()
	}
	return s
}

// spoil replaces one part of the contents by something nobody may send.
func (c *Ctx) spoil(p *ref.Pkt) string {
	type edit struct {
		name string
		do   func()
	}
	var es []edit
	add := func(name string, do func()) { es = append(es, edit{name, do}) }
	byteOf := func(legal int) byte {
		if c.Choose(2) == 0 {
			return c.edgeByte()
		}
		return byte(c.Choose(256))
	}
	spoilProps := func(ps *[]ref.Prop, t int) {
		if p.Ver != 5 {
			return
		}
		add("foreign-property", func() {
			g := &ref.Gen{S: c.Source, Small: true}
			d := &ref.Props[c.Choose(len(ref.Props))]
			*ps = append(*ps, g.PropVal(d))
		})
		if len(*ps) == 0 {
			return
		}
		i := c.Choose(len(*ps))
		x := &(*ps)[i]
		d := ref.PropByID[x.ID]
		add("property-value", func() {
			switch d.Kind {
			case ref.KByte:
				x.N = uint32(byteOf(0))
			case ref.KShort, ref.KInt:
				x.N = 0
			case ref.KVar:
				x.N = []uint32{0, 1 << 28, 1 << 31, 1<<32 - 1}[c.Choose(4)]
			case ref.KStr:
				x.S = c.wrongText()
			case ref.KBin:
				x.S = c.overlong()
			case ref.KPair:
				if c.Choose(2) == 0 {
					x.K = c.wrongText()
				} else {
					x.S = c.wrongText()
				}
			}
		})
		add("property-repeated", func() { *ps = append(*ps, *x) })
	}
	spoilProps(&p.Props, p.Type)
	if p.HasID {
		add("no-id", func() { p.HasID = false })
		add("id-0", func() { p.ID = 0 })
	}
	switch p.Type {
	case ref.CONNECT:
		add("client-id", func() { p.ClientID = []byte(c.wrongText()) })
		add("no-client-id", func() { p.ClientID, p.Clean = nil, false })
		add("user", func() { p.HasUser, p.User = true, []byte(c.wrongText()) })
		add("password-alone", func() { p.HasUser, p.User, p.HasPass, p.Pass = false, nil, true, []byte("x") })
		add("password", func() { p.HasPass, p.Pass = true, []byte(c.overlong()) })
		if w := p.Will; w != nil {
			add("will-topic", func() { w.Topic = c.wrongText() })
			add("will-qos", func() { w.QoS = byteOf(0) })
			add("will-payload", func() { w.Payload = []byte(c.overlong()) })
			spoilProps(&w.Props, ref.WILL)
		}
	case ref.CONNACK:
		add("code", func() { p.Reason = byteOf(0) })
		add("sp", func() { p.SP = true; p.Reason = 1 })
	case ref.PUBLISH:
		add("topic", func() { p.Topic = c.wrongText() })
		add("qos", func() { p.QoS = byteOf(0) })
		add("dup", func() { p.Dup, p.QoS = true, 0 })
	case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.DISCONNECT, ref.AUTH:
		add("code", func() { p.Reason = byteOf(0) })
	case ref.SUBSCRIBE, ref.UNSUBSCRIBE:
		add("none", func() { p.Subs = nil })
		if len(p.Subs) > 0 {
			i := c.Choose(len(p.Subs))
			add("filter", func() { p.Subs[i].Filter = c.wrongText() })
			if p.Type == ref.SUBSCRIBE {
				add("options", func() { p.Subs[i].Opts = byteOf(0) })
				add("options", func() { p.Subs[i].Opts |= 4 })
			}
		}
	case ref.SUBACK, ref.UNSUBACK:
		add("none", func() { p.Codes = nil })
		if len(p.Codes) > 0 {
			i := c.Choose(len(p.Codes))
			add("code", func() { p.Codes[i] = byteOf(0) })
		}
	}
	if len(es) == 0 {
		return ""
	}
	e := es[c.Choose(len(es))]
	e.do()
	return e.name
}

// judgeSent reads a packet that left the library; want is what was asked for.
func (c *Ctx) judgeSent(want *ref.Pkt, why string, b []byte) {
	if want.Type == ref.CONNECT {
		c.NoteBytes(b[:min(len(b), 200)])
	} else {
		c.NoteBytes(b[:min(len(b), 80)])
	}
	x := ref.Parse(want.Ver, b)
	if x.Verdict == ref.Illegal || x.Pkt == nil {
		c.Fail("illegal-sent", "an illegal packet (%s) is sent after %s: %s: %s", x.Why, why, want, hexs(b))
	}
	if d := ref.Diff(wire(want), wire(x.Pkt)); d != "" {
		c.Fail("differs", "what is sent is not what was asked for: %s: %s: %s", d, want, hexs(b))
	}
	m, n, err := c.decode(want.Ver, clone(b))
	if err != nil || m == nil || n != len(b) {
		c.Fail("own-refused", "the library refuses the packet it sent (%v, %d of %d bytes) after %s: %s: %s", err, n, len(b), why, want, hexs(b))
	}
	var d string
	c.try("reading", func() { d = lib.Match(wire(want), m) })
	if d != "" {
		c.Fail("own-differs", "the library reads the packet it sent differently: %s: %s: %s", d, want, hexs(b))
	}
	c.Probe("sent")
}

// request draws contents, most of them illegal.
func (c *Ctx) request(ver byte) (p *ref.Pkt, why string) {
	g := c.gen(true)
	g.Small = true
	p = g.Packet(ver).Clone()
	for n := c.Weighted(1, 6, 2); n > 0; n-- {
		if w := c.spoil(p); w != "" {
			c.Fault("asks-" + w)
			c.Nontrivial = true
			why += w + " "
		}
	}
	c.Note(uint64(p.Type))
	return
}

// carelessPeers talk to each other.
func carelessPeers(c *Ctx) {
	ver := c.ver()
	type sent struct {
		p   *ref.Pkt
		why string
	}
	dir := func(name string) []*simrt.Thread {
		p := c.newPipe()
		var q []sent
		w := c.Go(name+"-writer", func() {
			for n := 1 + c.Choose(3); n > 0; n-- {
				x, why := c.request(ver)
				var m mqttp.IFace
				var err error
				c.try("building", func() { m, err = lib.Build(x, c.pk()) })
				if err != nil {
					c.Probe("refused-by-setter")
					c.Logf("%s: refused by a setter: %v: %s", name, err, x)
					continue
				}
				var out []byte
				c.try("encoding", func() { out, err = lib.Encode(m, c.pk()) })
				if err != nil {
					c.Probe("refused-by-encode")
					c.Logf("%s: refused by Encode: %v: %s", name, err, x)
					continue
				}
				c.Logf("%s: sends %s", name, x)
				q = append(q, sent{x, why})
				p.Send(out)
			}
			p.Close()
		})
		r := c.Go(name+"-reader", func() {
			var buf []byte
			for {
				b, ok := p.Recv()
				if !ok {
					break
				}
				buf = append(buf, b...)
				for {
					n := frame(buf)
					if n < 0 || n > 0 && len(q) == 0 {
						c.Fail("illegal-sent", "what is sent cannot be read as packets: %s", hexs(buf))
					}
					if n == 0 || n > len(buf) {
						break
					}
					c.judgeSent(q[0].p, q[0].why, buf[:n])
					q, buf = q[1:], buf[n:]
				}
			}
			if len(buf) > 0 || len(q) > 0 {
				x := ref.Pkt{}
				why := ""
				if len(q) > 0 {
					x, why = *q[0].p, q[0].why
				}
				c.Fail("illegal-sent", "a packet is sent whose end never comes after %s: %s: %s", why, &x, hexs(buf))
			}
		})
		return []*simrt.Thread{w, r}
	}
	ts := dir("client")
	if c.Choose(2) == 1 {
		ts = append(ts, dir("server")...)
	}
	c.Join(ts...)
}

// update asks for the changes that make the contents q out of p.
func (c *Ctx) update(m mqttp.IFace, p, q *ref.Pkt) (err error) {
	if len(p.Props) != len(q.Props) || diffAny(p.Props, q.Props) {
		for _, g := range lib.Group(q.Props) {
			if err := m.PropertySet(mqttp.PropertyID(g[0].ID), lib.PropValue(g, c.pk())); err != nil {
				return err
			}
		}
	}
	if q.ID != p.ID {
		m.(interface{ SetPacketID(mqttp.IDType) }).SetPacketID(mqttp.IDType(q.ID))
	}
	switch m := m.(type) {
	case *mqttp.Connect:
		if string(q.ClientID) != string(p.ClientID) || q.Clean != p.Clean {
			if err = m.SetClientID(q.ClientID); err == nil {
				m.SetClean(q.Clean)
			}
			return err
		}
		if a, b := p.Will, q.Will; a != nil && b != nil &&
			(a.Topic != b.Topic || a.QoS != b.QoS || string(a.Payload) != string(b.Payload) || diffAny(a.Props, b.Props)) {
			switch w := m.Will(); {
			case c.Choose(2) == 0:
				w, err := lib.BuildWill(b, p.Ver, c.pk())
				if err != nil {
					return err
				}
				return m.SetWill(w)
			case a.Topic != b.Topic:
				return w.SetTopic(b.Topic)
			case a.QoS != b.QoS:
				return w.SetQoS(mqttp.QosType(b.QoS))
			case string(a.Payload) != string(b.Payload):
				w.SetPayload(b.Payload)
			case diffAny(a.Props, b.Props):
				for _, g := range lib.Group(b.Props) {
					if err := w.PropertySet(mqttp.PropertyID(g[0].ID), lib.PropValue(g, c.pk())); err != nil {
						return err
					}
				}
			}
		}
		if q.HasUser != p.HasUser || q.HasPass != p.HasPass || string(q.User) != string(p.User) || string(q.Pass) != string(p.Pass) {
			return m.SetCredentials(q.User, q.Pass)
		}
	case *mqttp.ConnAck:
		if err = m.SetReturnCode(mqttp.ReasonCode(q.Reason)); err == nil {
			m.SetSessionPresent(q.SP)
		}
		return err
	case *mqttp.Publish:
		switch {
		case q.Topic != p.Topic && c.Choose(2) == 0:
			return m.SetTopic(q.Topic)
		case q.QoS != p.QoS && q.Dup == p.Dup && c.Choose(2) == 0:
			return m.SetQoS(mqttp.QosType(q.QoS))
		case q.QoS == p.QoS && q.Dup != p.Dup && c.Choose(2) == 0:
			m.SetDup(q.Dup)
		default:
			return m.Set(q.Topic, q.Payload, mqttp.QosType(q.QoS), q.Retain, q.Dup)
		}
	case *mqttp.Ack:
		m.SetReason(mqttp.ReasonCode(q.Reason))
	case *mqttp.Disconnect:
		m.SetReasonCode(mqttp.ReasonCode(q.Reason))
	case *mqttp.Auth:
		return m.SetReasonCode(mqttp.ReasonCode(q.Reason))
	case *mqttp.SubAck:
		if len(q.Codes) > len(p.Codes) {
			return lib.AddCodes(m, q.Codes[len(p.Codes):], c.pk())
		}
	case *mqttp.UnSubAck:
		if len(q.Codes) > len(p.Codes) {
			return lib.AddCodes(m, q.Codes[len(p.Codes):], c.pk())
		}
	case *mqttp.Subscribe:
		for _, s := range q.Subs[len(p.Subs):] {
			t, err := mqttp.NewSubscribeTopic([]byte(s.Filter), mqttp.SubscriptionOptions(s.Opts))
			if err != nil {
				return err
			}
			return m.AddTopic(t)
		}
	case *mqttp.UnSubscribe:
		for _, s := range q.Subs[len(p.Subs):] {
			t, err := mqttp.NewTopic([]byte(s.Filter))
			if err != nil {
				return err
			}
			return m.AddTopic(t)
		}
	}
	return nil
}

func diffAny(a, b []ref.Prop) bool {
	if len(a) != len(b) {
		return true
	}
	for i := range a {
		if a[i] != b[i] {
			return true
		}
	}
	return false
}

// carelessUpdates change one packet again and again.
func carelessUpdates(c *Ctx) {
	ver := c.ver()
	m, p := c.source(ver, true)
	p = p.Clone()
	if p.Type == ref.PUBLISH && !p.NeedID() {
		p.HasID, p.ID = false, 0
	}
	var why string
	for n := 2 + c.Choose(4); n > 0; n-- {
		q := p.Clone()
		w := c.spoil(q)
		switch {
		case w == "" || w == "no-id" || w == "none" || q.HasID && !p.HasID:
			continue
		case len(q.Subs) > 0 || len(q.Codes) > 0:
			// these can only be added to
			if w == "filter" || w == "options" || w == "code" {
				for i := range p.Subs {
					if q.Subs[i] != p.Subs[i] {
						q.Subs = append(append([]ref.Sub(nil), p.Subs...), q.Subs[i])
						break
					}
				}
				for i := range p.Codes {
					if q.Codes[i] != p.Codes[i] {
						q.Codes = append(append([]byte(nil), p.Codes...), q.Codes[i])
						break
					}
				}
			}
		}
		c.Fault("asks-" + w)
		c.Nontrivial = true
		var err error
		c.try("updating", func() { err = c.update(m, p, q) })
		c.Logf("%s: %v: %s", w, err, q)
		if err != nil {
			c.Probe("refused-by-setter")
		} else {
			why += w + " "
			p = q
		}
		c.Note(uint64(n)<<8 | uint64(p.Type))
		var out []byte
		c.try("encoding", func() { out, err = lib.Encode(m, c.pk()) })
		if err != nil {
			c.Probe("refused-by-encode")
			if legal(p) {
				c.Fail("legal-refused", "legal contents are refused with %v after %s: %s", err, why, p)
			}
			return
		}
		c.judgeSent(p, why, out)
	}
}
