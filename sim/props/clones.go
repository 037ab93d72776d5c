package props

import (
	"fmt"
	"slices"
	"time"

	"github.com/VolantMQ/vlapi/mqttp"

	"verif/lib"
	"verif/ref"
	"verif/simrt"
)

const schedStub = "thread scheduling: simulated threads, pre-empted at the statements of the instrumented library by a seeded scheduler"

func init() {
	register(&Check{
		ID: "C08", Quick: 280000, Thorough: 8400000, Races: true,
		Foreign: []string{"build-refused", "rejected"},
		Variants: []Variant{
			{"fan-out", 1, fanOut},
		},
		StepLimit: 1 << 26,
		Rule:      "each run: one application message (built or decoded) is cloned by 1-6 simulated subscriber threads for random versions while others do the same; each subscriber changes, extends, clones again and encodes its copies; every clone is compared with the model of its source, every copy with its own model after each change and the original with its contents at the end; a map written while another thread uses it is a violation; non-trivial when at least two threads were interleaved inside the library; distinct by hash of schedule and operations",
		Real:      []string{libReal}, Stub: []string{schedStub, refStub},
	})
}

var forwarded = map[byte]bool{0x01: true, 0x03: true, 0x08: true, 0x09: true, 0x26: true}

// cloneModel is what a clone of p for version v holds.
func cloneModel(p *ref.Pkt, v byte) *ref.Pkt {
	q := p.Clone()
	q.Dup = false
	q.HasID, q.ID = false, 0
	q.Ver = v
	q.Props = nil
	if p.V5() && v == 5 {
		for _, x := range p.Props {
			if forwarded[x.ID] {
				q.Props = append(q.Props, x)
			}
		}
	}
	return q
}

// message draws an application message as a publisher's connection holds it.
func (c *Ctx) message(ver byte) (*mqttp.Publish, *ref.Pkt) {
	g := c.gen(true)
	g.Small, g.Mid = c.Bool(15, 16), true
	p := g.Of(ref.PUBLISH, ver)
	if p.Topic == "" {
		p.Topic = "t"
	}
	if ver == 5 && c.Choose(3) > 0 {
		// more of what is forwarded
		for _, id := range []byte{0x01, 0x03, 0x08, 0x09, 0x26} {
			d := ref.PropByID[id]
			if c.Choose(2) == 0 {
				k := 1
				if id == 0x26 {
					k = 1 + c.Choose(6)
				}
				p.Props = without(p.Props, id)
				for i := 0; i < k; i++ {
					p.Props = append(p.Props, g.PropVal(d))
				}
			}
		}
	}
	if len(p.Payload) < 60000 && c.Choose(8) == 7 {
		// the will that a lost connection has left
		w := g.Of(ref.CONNECT, ver)
		w.Will = &ref.Will{Topic: p.Topic, Payload: p.Payload, QoS: p.QoS, Retain: p.Retain}
		for _, x := range p.Props {
			if slices.Contains(ref.PropByID[x.ID].Types, ref.WILL) {
				w.Will.Props = append(w.Will.Props, x)
			}
		}
		return c.will(w, nil)
	}
	if c.Choose(3) > 0 {
		b := c.refEncode(p).B
		c.others()
		m, _, err := c.decode(ver, b)
		if err != nil || m == nil {
			c.Fail("rejected", "a legal packet is rejected: %v: %s", err, p)
		}
		return m.(*mqttp.Publish), p
	}
	m := c.build(p).(*mqttp.Publish)
	if c.Choose(2) == 0 {
		// a payload that lies in a larger buffer of the publisher
		m.SetPayload(append(make([]byte, 0, len(p.Payload)+32), p.Payload...))
	}
	return m, p
}

// will receives a CONNECT and takes its will, with the model of it as a
// message; in is where the packet lies, or nil.
func (c *Ctx) will(w *ref.Pkt, in []byte) (*mqttp.Publish, *ref.Pkt) {
	if in == nil {
		in = c.refEncode(w).B
	}
	c.others()
	m, _, err := c.decode(w.Ver, in)
	x, ok := m.(*mqttp.Connect)
	if err != nil || !ok {
		c.Fail("rejected", "a legal packet is rejected: %v: %s", err, w)
	}
	q := &ref.Pkt{Type: ref.PUBLISH, Ver: w.Ver, Topic: w.Will.Topic, Payload: clone(w.Will.Payload), QoS: w.Will.QoS, Retain: w.Will.Retain}
	q.Props = append(q.Props, w.Will.Props...)
	c.Probe("will")
	return x.Will(), q
}

// copyOf is one subscriber's copy with its model.
type copyOf struct {
	c    *Ctx
	who  string
	m    *mqttp.Publish
	p    *ref.Pkt
	at   time.Time
	pid  uintptr
	pred bool
}

func (k *copyOf) check(after string) {
	c := k.c
	var q *ref.Pkt
	var err error
	c.try("reading a copy", func() { q, err = lib.Observe(k.m) })
	if err != nil {
		c.Fail("unreadable", "%s after %s: %v: %s", k.who, after, err, k.p)
	}
	if d := ref.Diff(lib.Norm(k.p), lib.Norm(q)); d != "" {
		c.Fail("copy-changed", "%s after %s: %s: %s", k.who, after, d, k.p)
	}
	var at time.Time
	c.try("Expired", func() { at, _, _ = k.m.Expired() })
	if !at.Equal(k.at) {
		c.Fail("expiry-changed", "%s after %s: expiry time %v, want %v", k.who, after, at, k.at)
	}
}

// clone makes and checks a clone.
func (k *copyOf) clone(who string, v byte) *copyOf {
	c := k.c
	var m *mqttp.Publish
	var err error
	c.try("Clone", func() { m, err = k.m.Clone(mqttp.ProtocolVersion(v)) })
	if err != nil || m == nil {
		c.Fail("clone-refused", "Clone for version %d fails: %v: %s", v, err, k.p)
	}
	n := &copyOf{c: c, who: who, m: m, p: cloneModel(k.p, v), at: k.at}
	n.check(fmt.Sprintf("Clone for version %d", v))
	return n
}

func (k *copyOf) encode() {
	c := k.c
	if k.p.QoS > 0 && !k.p.HasID {
		k.m.SetPacketID(7)
		k.p.HasID, k.p.ID = true, 7
	}
	if k.p.QoS == 0 && k.p.Dup || k.p.Topic == "" {
		return
	}
	var b []byte
	var err error
	c.try("encoding a copy", func() { b, err = lib.Encode(k.m, c.pk()) })
	if err != nil {
		c.Fail("encode-refused", "%s: the copy cannot be encoded: %v: %s", k.who, err, k.p)
	}
	r := ref.Parse(k.p.Ver, b)
	if r.Pkt == nil {
		c.Fail("illegal", "%s: the copy's encoding is not a packet (%s): %s", k.who, r.Why, k.p)
	}
	if d := ref.Diff(wire(k.p), wire(r.Pkt)); d != "" {
		c.Fail("copy-changed", "%s: the copy's encoding differs: %s: %s", k.who, d, k.p)
	}
	c.NoteBytes(b[:min(len(b), 64)])
}

// change updates the copy in one way.
func (k *copyOf) change(tag byte) {
	c := k.c
	g := &ref.Gen{S: c.Source, ForLib: true, Small: true}
	m, p := k.m, k.p
	var err error
	what := ""
	switch c.Choose(12) {
	case 0:
		what = "SetTopic"
		p.Topic = g.Topic()
		c.try(what, func() { err = m.SetTopic(p.Topic) })
	case 1:
		what = "SetPayload"
		p.Payload = g.Bytes(1 + c.Choose(12))
		c.try(what, func() { m.SetPayload(clone(p.Payload)) })
	case 2:
		what = "SetQoS"
		p.QoS = byte(c.Choose(3))
		c.try(what, func() { err = m.SetQoS(mqttp.QosType(p.QoS)) })
	case 3:
		what = "SetRetain"
		p.Retain = !p.Retain
		c.try(what, func() { m.SetRetain(p.Retain) })
	case 4:
		what = "SetDup"
		p.Dup = !p.Dup
		c.try(what, func() { m.SetDup(p.Dup) })
	case 5:
		what = "SetPacketID"
		p.HasID, p.ID = true, uint16(1+c.Choose(65535))
		c.try(what, func() { m.SetPacketID(mqttp.IDType(p.ID)) })
	case 6:
		what = "SetExpireAt"
		k.at = simrt.Base.Add(time.Duration(c.Choose(1000)) * time.Second)
		if c.Choose(4) == 0 {
			k.at = time.Time{}
		}
		c.try(what, func() { m.SetExpireAt(k.at) })
	case 7:
		if p.Ver != 5 {
			return
		}
		what = "PropertySet"
		ds := ref.PropsFor(ref.PUBLISH)
		d := ds[c.Choose(len(ds))]
		n := 1
		if d.Repeats(ref.PUBLISH) {
			n = 1 + c.Choose(3)
		}
		var ps []ref.Prop
		for i := 0; i < n; i++ {
			ps = append(ps, g.PropVal(d))
		}
		p.Props = append(without(p.Props, d.ID), ps...)
		c.try(what, func() { err = m.PropertySet(mqttp.PropertyID(d.ID), lib.PropValue(ps, c.pk())) })
	case 8:
		if p.Ver != 5 {
			return
		}
		what = "PropertiesDiscard"
		p.Props = nil
		c.try(what, func() { m.PropertiesDiscard() })
	case 9:
		if p.Ver != 5 {
			return
		}
		// the list of user properties that the copy holds, extended
		what = "extending the user properties"
		v := m.PropertyGet(mqttp.PropertyUserProperty)
		if v == nil {
			return
		}
		l, err := v.AsStringPairs()
		if err != nil {
			return
		}
		key := fmt.Sprintf("added-%d", c.Choose(100))
		l = append(l, mqttp.StringPair{K: key, V: k.who})
		p.Props = append(p.Props, ref.Prop{ID: 0x26, K: key, S: k.who})
		c.try(what, func() { err = m.PropertySet(mqttp.PropertyUserProperty, l) })
		if err != nil {
			c.Fail("update-refused", "%s fails with %v", what, err)
		}
	case 10:
		what = "extending the payload"
		x := append(m.Payload(), tag, 'e')
		p.Payload = append(append([]byte(nil), p.Payload...), tag, 'e')
		c.try(what, func() { m.SetPayload(x) })
	case 11:
		if p.Ver != 5 {
			return
		}
		what = "extending the correlation data"
		v := m.PropertyGet(mqttp.PropertyCorrelationData)
		if v == nil {
			return
		}
		l, err := v.AsBinary()
		if err != nil || len(l) == 65535 {
			return
		}
		l = append(l, tag)
		for i := range p.Props {
			if p.Props[i].ID == 0x09 {
				p.Props[i].S += string([]byte{tag})
			}
		}
		c.try(what, func() { err = m.PropertySet(mqttp.PropertyCorrelationData, l) })
		if err != nil {
			c.Fail("update-refused", "%s fails with %v", what, err)
		}
	}
	if err != nil {
		c.Fail("update-refused", "%s: %s fails with %v: %s", k.who, what, err, p)
	}
	c.Logf("%s: %s", k.who, what)
	k.check(what)
}

func fanOut(c *Ctx) {
	ver := c.ver()
	m, p := c.message(ver)
	o := &copyOf{c: c, who: "the original", m: m, p: p.Clone()}
	if c.Choose(2) == 0 {
		o.at = simrt.Base.Add(time.Duration(c.Choose(100000))*time.Millisecond + time.Duration(c.Choose(3)*c.Choose(1000000)))
		m.SetExpireAt(o.at)
	}
	m.SetPublishID(uintptr(1 + c.Choose(5)))
	if c.Choose(8) == 0 {
		// a message stored for one version is handed to a session of another
		v := c.ver()
		c.try("SetVersion", func() { m.SetVersion(mqttp.ProtocolVersion(v)) })
		o.p.Ver = v
		c.Logf("the original is set to version %d", v)
		if v == 5 && c.Choose(2) == 0 {
			o.change('Z')
		}
	}
	c.Logf("original %s", o.p)
	n := 1 + c.Weighted(1, 4, 3, 2, 1, 1)
	c.ChooseSchedule()
	var all []*copyOf
	var ts []*simrt.Thread
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("subscriber %d", i)
		ts = append(ts, c.Go(name, func() {
			rounds := 1 + c.Choose(3)
			var mine []*copyOf
			for r := 0; r < rounds; r++ {
				k := o.clone(name, c.ver())
				all = append(all, k)
				mine = append(mine, k)
				for j := c.Choose(5); j > 0; j-- {
					if c.Choose(4) == 0 {
						c.Yield()
					}
					x := mine[c.Choose(len(mine))]
					switch c.Choose(8) {
					case 0:
						x.encode()
					case 1:
						// a bridge passes its copy on
						y := x.clone(name+"'s bridge", c.ver())
						all = append(all, y)
						mine = append(mine, y)
					default:
						x.change(byte('A' + i))
					}
				}
				c.Yield()
			}
			for _, k := range mine {
				k.check("its own work")
				k.encode()
			}
		}))
	}
	// the broker goes on reading the message while it is fanned out
	for j := c.Choose(4); j > 0; j-- {
		o.check("clones were made")
		c.Yield()
	}
	c.Join(ts...)
	if c.Switches > int64(2*n) {
		c.Nontrivial = true
	}
	for _, k := range all {
		k.check("the others' work")
		k.encode()
	}
	o.check("everything")
	if o.m.PublishID() == 0 {
		c.Fail("copy-changed", "the original's publish id is lost")
	}
	if o.p.QoS > 0 || !o.p.Dup {
		o.encode()
	}
}
