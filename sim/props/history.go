package props

import (
	"bytes"

	"github.com/VolantMQ/vlapi/mqttp"

	"verif/lib"
	"verif/ref"
)

func init() {
	register(&Check{
		ID: "C07", Quick: 1000000, Thorough: 30000000,
		Foreign: []string{"build-refused", "rejected"},
		Variants: []Variant{
			{"history", 1, histories},
		},
		StepLimit: 1 << 26,
		Rule:      "each run: one packet (built or decoded) goes through 3-30 random operations (setters with valid and invalid values, property updates of right and wrong type and of numbers out of range, discards, version changes, size queries, failing and succeeding encodings, decoding of its own encoding); after each one the getters are compared with a model of its contents, and each encoding is read by the independent parser and compared with the model; non-trivial when an update was refused or an encoding failed and a later encoding succeeded; distinct by hash of operations and encodings",
		Real:      []string{libReal}, Stub: []string{memStub, refStub},
	})
}

// hist is one packet with the model of its contents. The model keeps what a
// version hides (properties, reasons, codes of version 5 in a version 3 packet).
type hist struct {
	*Ctx
	m       mqttp.IFace
	p       *ref.Pkt
	refused bool
	failed  bool
}

// legal tells whether the contents must be encodable.
func legal(p *ref.Pkt) bool {
	if !representable(p) {
		return false
	}
	if p.V5() == false && p.Type == ref.AUTH {
		return false
	}
	e := ref.Encode(p, nil)
	r := ref.Parse(p.Ver, e.B)
	return r.Verdict == ref.Legal && r.Pkt != nil && ref.Diff(wire(p), wire(r.Pkt)) == ""
}

func (h *hist) observe(after string) *ref.Pkt {
	var q *ref.Pkt
	var err error
	h.try("reading after "+after, func() { q, err = lib.Observe(h.m) })
	if err != nil {
		h.Fail("unreadable", "after %s the contents cannot be read: %v: %s", after, err, h.p)
	}
	return q
}

// same compares the packet with the model.
func (h *hist) same(after string) {
	if d := ref.Diff(lib.Norm(h.p), lib.Norm(h.observe(after))); d != "" {
		h.Fail("contents", "after %s: %s: %s", after, d, h.p)
	}
}

// done judges an update that was expected to give the new contents when it is
// accepted.
func (h *hist) done(what string, err error, next *ref.Pkt) {
	h.Note(uint64(len(what)))
	if err == nil {
		h.p = next
	} else {
		h.refused = true
		what += " (refused)"
		h.Fault("refused-update")
	}
	h.Logf("%s -> %v", what, err)
	h.same(what)
}

func (h *hist) legalUpdate(what string, err error, next *ref.Pkt) {
	if err != nil {
		h.Fail("update-refused", "%s: a legal value is refused: %v: %s", what, err, h.p)
	}
	h.done(what, nil, next)
}

// either accepts an update that takes effect or is ignored.
func (h *hist) either(what string, next *ref.Pkt) {
	got := lib.Norm(h.observe(what))
	if ref.Diff(lib.Norm(next), got) == "" {
		h.p = next
	}
	h.done(what, nil, h.p)
}

func histories(c *Ctx) {
	ver := c.ver()
	m, p := c.source(ver, true)
	h := &hist{Ctx: c, m: m, p: p.Clone()}
	c.Logf("start %s", p)
	if p.Type == ref.PUBLISH && !p.NeedID() {
		h.p.HasID, h.p.ID = false, 0
	}
	c.prevOdd = byte(c.Choose(2)) * 37
	h.same("construction")
	n := 3 + c.Choose(8)
	if c.Bool(1, 3) {
		n += c.Choose(20)
	}
	for i := 0; i < n; i++ {
		switch c.Weighted(10, 5, 2, 5, 2, 1) {
		case 0:
			h.set()
		case 1:
			h.property()
		case 2:
			h.version()
		case 3:
			h.encode()
		case 4:
			c.try("Size", func() { h.m.Size() })
			h.same("Size")
		case 5:
			h.redecode()
		}
	}
	h.encode()
	if h.refused || h.failed {
		c.Nontrivial = true
	}
}

// encode makes an attempt and compares its result with the model.
func (h *hist) encode() {
	c := h.Ctx
	must := legal(h.p)
	var sz int
	var err error
	direct := must && c.Choose(3) == 2 // into a buffer at hand, without asking for the size
	if direct {
		sz = len(ref.Encode(wire(h.p), nil).B) + 16
	} else {
		c.try("Size", func() { sz, err = h.m.Size() })
	}
	if err != nil {
		if must {
			c.Fail("size-refused", "Size fails with %v: %s", err, h.p)
		}
		h.failed = true
		h.same("failed Size")
		return
	}
	n := sz
	if !direct {
		n = c.bufLen(sz)
	}
	buf := make([]byte, n)
	for i := range buf {
		buf[i] = byte(i)*c.prevOdd + 0xC3
	}
	var k int
	c.try("encoding", func() { k, err = h.m.Encode(buf) })
	c.Logf("encode into %d of %d bytes: %d, %v", n, sz, k, err)
	if err != nil {
		if must && n >= sz {
			c.Fail("encode-refused", "legal contents cannot be encoded: %v: %s", err, h.p)
		}
		h.failed = true
		c.Fault("failed-encode")
		h.same("failed Encode")
		return
	}
	if direct {
		c.try("Size", func() { sz, err = h.m.Size() })
		if err != nil {
			c.Fail("size-refused", "Size fails with %v: %s", err, h.p)
		}
	}
	if n < sz {
		c.Fail("short-accepted", "a packet of %d bytes was encoded into %d bytes: %s", sz, n, h.p)
	}
	if k != sz {
		c.Fail("size", "Size announced %d bytes, Encode wrote %d: %s", sz, k, h.p)
	}
	c.NoteBytes(buf[:min(k, 200)])
	r := ref.Parse(h.p.Ver, buf[:k])
	switch {
	case must && (r.Verdict == ref.Illegal || r.Pkt == nil):
		c.Fail("illegal", "the encoding is not a legal packet (%s): %s: %s", r.Why, h.p, hexs(buf[:k]))
	case r.Pkt != nil:
		if d := ref.Diff(wire(h.p), wire(r.Pkt)); d != "" {
			c.Fail("stale", "the encoding is not the current contents: %s: %s: %s", d, h.p, hexs(buf[:k]))
		}
	}
	h.same("Encode")
}

// redecode goes on with the packet that a receiver gets.
func (h *hist) redecode() {
	c := h.Ctx
	if !legal(h.p) {
		return
	}
	var b []byte
	var err error
	c.try("encoding", func() { b, err = mqttp.Encode(h.m) })
	if err != nil {
		c.Fail("encode-refused", "legal contents cannot be encoded: %v: %s", err, h.p)
	}
	if h.p.Type == ref.DISCONNECT && len(b) == 3 {
		return // K1, reported by C05
	}
	c.others()
	m, _, err := c.decode(h.p.Ver, b)
	if err != nil || m == nil {
		c.Fail("rejected", "the encoding of legal contents is rejected: %v: %s", err, h.p)
	}
	h.m = m
	q := wire(h.p).Clone()
	q.HasUser, q.HasPass = h.p.HasUser, h.p.HasPass
	h.p = q
	if q.Ver < 5 {
		// what the version hides is not sent
		q.Props = nil
	}
	c.Logf("decoded again")
	h.same("decoding its own encoding")
}

func (h *hist) version() {
	c := h.Ctx
	v := c.ver()
	if c.Choose(3) > 0 {
		v = []byte{5, 4, 5, 5}[c.Choose(4)]
	}
	s, ok := h.m.(interface{ SetVersion(mqttp.ProtocolVersion) })
	if !ok {
		return
	}
	c.try("SetVersion", func() { s.SetVersion(mqttp.ProtocolVersion(v)) })
	c.Fault("version-change")
	h.p = h.p.Clone()
	h.p.Ver = v // properties that an older version hides stay
	h.done("SetVersion", nil, h.p)
}

// wrong gives a value of a type the property does not have.
func (h *hist) wrong(d *ref.PropDef) interface{} {
	for {
		k := h.Choose(18)
		right := map[int][]int{ref.KByte: {0}, ref.KShort: {1}, ref.KInt: {2}, ref.KVar: {2, 9}, ref.KStr: {3}, ref.KBin: {4}, ref.KPair: {5, 10}}[d.Kind]
		ok := false
		for _, r := range right {
			ok = ok || r == k
		}
		if ok {
			continue
		}
		switch k {
		case 0:
			return byte(1)
		case 1:
			return uint16(1)
		case 2:
			return uint32(1)
		case 3:
			return "text"
		case 4:
			return []byte("bin")
		case 5:
			return mqttp.StringPair{K: "k", V: "v"}
		case 6:
			return 1
		case 7:
			return int64(7)
		case 8:
			return []uint16{1, 2}
		case 9:
			return []uint32{1, 2}
		case 10:
			return []mqttp.StringPair{{K: "k", V: "v"}}
		case 11:
			return []string{"a", "b"}
		case 12:
			return [][]byte{[]byte("a"), []byte("b")}
		case 13:
			return nil
		case 14:
			return true
		case 15:
			return [][]string{{"a"}, {"b"}}
		case 16:
			return struct{}{}
		case 17:
			x := "p"
			return &x
		}
	}
}

func without(ps []ref.Prop, id byte) []ref.Prop {
	var r []ref.Prop
	for _, p := range ps {
		if p.ID != id {
			r = append(r, p)
		}
	}
	return r
}

func (h *hist) propSet(id byte, v interface{}) (err error) {
	h.try("PropertySet", func() { err = h.m.PropertySet(mqttp.PropertyID(id), v) })
	return
}

func (h *hist) property() {
	c := h.Ctx
	ds := ref.PropsFor(h.p.Type)
	next := h.p.Clone()
	kind := c.Weighted(8, 4, 2, 2, 2, 2)
	if h.p.Ver < 5 {
		// every update must be refused; a discard is allowed
		if kind == 4 {
			c.try("PropertiesDiscard", func() { h.m.(interface{ PropertiesDiscard() }).PropertiesDiscard() })
			next.Props = nil
			h.done("PropertiesDiscard", nil, next)
			return
		}
		d := &ref.Props[c.Choose(len(ref.Props))]
		g := c.gen(true)
		g.Small = true
		v := lib.PropValue([]ref.Prop{g.PropVal(d)}, c.pk())
		if err := h.propSet(d.ID, v); err == nil {
			c.Fail("property-accepted", "a version %d packet accepts properties: %s", h.p.Ver, h.p)
		} else {
			h.done("PropertySet", err, nil)
		}
		return
	}
	if len(ds) == 0 {
		kind = 2
	}
	switch kind {
	case 0: // set or replace
		d := ds[c.Choose(len(ds))]
		g := c.gen(true)
		g.Small, g.Mid = c.Bool(19, 20), true
		k := 1
		if d.Repeats(h.p.Type) {
			k = 1 + c.Choose(4)
		}
		var ps []ref.Prop
		for i := 0; i < k; i++ {
			ps = append(ps, g.PropVal(d))
		}
		next.Props = append(without(next.Props, d.ID), ps...)
		err := h.propSet(d.ID, lib.PropValue(ps, c.pk()))
		h.legalUpdate("PropertySet("+ps[0].String()+")", err, next)
	case 1: // a value of a wrong type
		d := ds[c.Choose(len(ds))]
		v := h.wrong(d)
		err := h.propSet(d.ID, v)
		if err == nil {
			c.Fail("wrong-type-accepted", "property %#x accepts the value %T: %s", d.ID, v, h.p)
		}
		h.done("PropertySet of a wrong type", err, nil)
	case 2: // a property of other packets, or of none
		id := c.Choose(0x30)
		d := ref.PropByID[byte(id)]
		if d != nil && (d.Allowed(h.p.Type) || h.p.Type == ref.PUBLISH && d.Allowed(ref.WILL)) {
			return
		}
		v := h.wrong(&ref.PropDef{Kind: 99})
		if d != nil {
			g := c.gen(true)
			g.Small = true
			v = lib.PropValue([]ref.Prop{g.PropVal(d)}, c.pk())
		}
		err := h.propSet(byte(id), v)
		if err == nil {
			c.Fail("foreign-accepted", "property %#x, not allowed in this packet, is accepted: %s", id, h.p)
		}
		h.done("PropertySet of a foreign property", err, nil)
	case 3: // several values where one is allowed
		d := ds[c.Choose(len(ds))]
		if d.Repeats(h.p.Type) {
			return
		}
		v := map[int]interface{}{ref.KByte: []byte{0, 1}, ref.KShort: []uint16{1, 2}, ref.KInt: []uint32{1, 2}, ref.KVar: []uint32{1, 2}, ref.KStr: []string{"a", "b"},
			ref.KBin: [][]byte{{1}, {2}}, ref.KPair: nil}[d.Kind]
		err := h.propSet(d.ID, v)
		if err == nil {
			c.Fail("repeat-accepted", "property %#x, which must not repeat, accepts several values: %s", d.ID, h.p)
		}
		h.done("PropertySet of several values", err, nil)
	case 4:
		c.try("PropertiesDiscard", func() { h.m.(interface{ PropertiesDiscard() }).PropertiesDiscard() })
		next.Props = nil
		h.done("PropertiesDiscard", nil, next)
	case 5: // a number that a variable byte integer cannot hold
		if d := ref.PropByID[0x0B]; !d.Allowed(h.p.Type) {
			return
		}
		big := uint32(1<<28 + c.Choose(2)*c.Choose(1<<31))
		var v interface{} = big
		if h.p.Type == ref.PUBLISH && c.Choose(2) == 0 {
			l := []uint32{1, 2, 3, 4}[:1+c.Choose(4)]
			l[c.Choose(len(l))] = big
			v = l
		}
		err := h.propSet(0x0B, v)
		if err == nil {
			c.Fail("range-accepted", "a subscription identifier of %d is accepted: %s", big, h.p)
		}
		h.done("PropertySet of a number out of range", err, nil)
	}
}

var badTopics = []string{"#", "a/#", "+", "a+b", "x#"}

// set calls a random setter of the packet with a valid or invalid value.
func (h *hist) set() {
	c := h.Ctx
	next := h.p.Clone()
	g := c.gen(true)
	g.Small, g.Mid = c.Bool(19, 20), true
	if x, ok := h.m.(interface{ SetPacketID(mqttp.IDType) }); ok && c.Choose(5) == 4 {
		id := uint16(1 + c.Choose(65535))
		if c.Choose(2) == 0 {
			id = uint16(c.Choose(4))
		}
		c.try("SetPacketID", func() { x.SetPacketID(mqttp.IDType(id)) })
		next.HasID, next.ID = true, id
		h.done("SetPacketID", nil, next)
		return
	}
	switch m := h.m.(type) {
	case *mqttp.Publish:
		h.setPublish(m, next, g)
	case *mqttp.Connect:
		h.setConnect(m, next, g)
	case *mqttp.ConnAck:
		if c.Choose(2) == 0 {
			next.SP = c.Choose(2) == 0
			c.try("SetSessionPresent", func() { m.SetSessionPresent(next.SP) })
			h.done("SetSessionPresent", nil, next)
			return
		}
		code := h.code(ref.CONNACK)
		next.Reason = code
		var err error
		c.try("SetReturnCode", func() { err = m.SetReturnCode(mqttp.ReasonCode(code)) })
		if h.p.V5() && ref.CodeOK(ref.CONNACK, code) || !h.p.V5() && code < 6 {
			h.legalUpdate("SetReturnCode", err, next)
		} else {
			h.done("SetReturnCode", err, next)
		}
	case *mqttp.Ack:
		code := h.code(h.p.Type)
		next.Reason = code
		c.try("SetReason", func() { m.SetReason(mqttp.ReasonCode(code)) })
		if h.p.V5() && ref.CodeOK(h.p.Type, code) {
			h.done("SetReason", nil, next)
		} else {
			h.either("SetReason", next)
		}
	case *mqttp.Disconnect:
		code := h.code(h.p.Type)
		next.Reason = code
		c.try("SetReasonCode", func() { m.SetReasonCode(mqttp.ReasonCode(code)) })
		if h.p.V5() && ref.CodeOK(h.p.Type, code) {
			h.done("SetReasonCode", nil, next)
		} else {
			h.either("SetReasonCode", next)
		}
	case *mqttp.Auth:
		code := h.code(h.p.Type)
		next.Reason = code
		var err error
		c.try("SetReasonCode", func() { err = m.SetReasonCode(mqttp.ReasonCode(code)) })
		if ref.CodeOK(h.p.Type, code) {
			h.legalUpdate("SetReasonCode", err, next)
		} else {
			h.done("SetReasonCode", err, next)
		}
	case *mqttp.SubAck:
		h.addCodes(m, next)
	case *mqttp.UnSubAck:
		h.addCodes(m, next)
	case *mqttp.Subscribe:
		h.addTopic(next, g, m.AddTopic, true)
	case *mqttp.UnSubscribe:
		h.addTopic(next, g, m.AddTopic, false)
	}
}

func (h *hist) code(t int) byte {
	if h.Choose(3) == 0 {
		return byte(h.Choose(256))
	}
	l := ref.Codes5[t]
	return l[h.Choose(len(l))]
}

type adder interface {
	AddReturnCodes([]mqttp.ReasonCode) error
	AddReturnCode(mqttp.ReasonCode) error
}

func (h *hist) addCodes(m adder, next *ref.Pkt) {
	c := h.Ctx
	var l []mqttp.ReasonCode
	ok := true
	n := 1 + c.Choose(4)
	for i := 0; i < n; i++ {
		var x byte
		if h.p.V5() {
			x = h.code(h.p.Type)
			ok = ok && ref.CodeOK(h.p.Type, x)
		} else {
			x = []byte{0, 1, 2, 0x80, 3, 0x81, 0, 1}[c.Choose(8)]
			ok = ok && (x < 3 || x == 0x80)
		}
		l = append(l, mqttp.ReasonCode(x))
		next.Codes = append(next.Codes, x)
	}
	ok = ok && (h.p.V5() || h.p.Type == ref.SUBACK)
	var err error
	if n == 1 && c.Choose(2) == 0 {
		c.try("AddReturnCode", func() { err = m.AddReturnCode(l[0]) })
	} else {
		c.try("AddReturnCodes", func() { err = m.AddReturnCodes(l) })
		// the caller's list may be used for other things afterwards
		for i := range l {
			l[i] = 0xFF
		}
	}
	if ok {
		h.legalUpdate("AddReturnCodes", err, next)
		return
	}
	h.done("AddReturnCodes", err, next)
	// codes that version 3 hides are not visible: a refused list that was
	// taken all the same would show up after a version change
}

func (h *hist) addTopic(next *ref.Pkt, g *ref.Gen, add func(*mqttp.Topic) error, sub bool) {
	c := h.Ctx
	f := g.Filter(h.p.Ver)
	var o byte
	var t *mqttp.Topic
	var err error
	if sub {
		o = byte(c.Choose(3))
		if h.p.V5() {
			o |= byte(c.Choose(2))<<3 | byte(c.Choose(3))<<4
		}
		t, err = mqttp.NewSubscribeTopic([]byte(f), mqttp.SubscriptionOptions(o))
	} else {
		t, err = mqttp.NewTopic([]byte(f))
	}
	if err != nil {
		c.Fail("update-refused", "a legal topic filter is refused: %v: %q", err, f)
	}
	next.Subs = append(next.Subs, ref.Sub{Filter: f, Opts: o})
	c.try("AddTopic", func() { err = add(t) })
	h.legalUpdate("AddTopic", err, next)
}

func (h *hist) setPublish(m *mqttp.Publish, next *ref.Pkt, g *ref.Gen) {
	c := h.Ctx
	var err error
	topic := func() (string, bool) {
		if c.Choose(5) == 0 {
			return badTopics[c.Choose(len(badTopics))], false
		}
		return g.Topic(), true
	}
	switch c.Choose(7) {
	case 0:
		t, ok := topic()
		next.Topic = t
		c.try("SetTopic", func() { err = m.SetTopic(t) })
		if ok {
			h.legalUpdate("SetTopic", err, next)
		} else {
			h.done("SetTopic", err, next)
		}
	case 1:
		next.Topic = ""
		c.try("SetTopic", func() { err = m.SetTopic("") })
		h.done("SetTopic(\"\")", err, next)
	case 2:
		next.Payload = g.Bytes(c.Choose(20))
		v := clone(next.Payload)
		if len(v) == 0 && c.Choose(2) == 0 {
			v = nil
		}
		c.try("SetPayload", func() { m.SetPayload(v) })
		h.done("SetPayload", nil, next)
	case 3:
		q := byte(c.Choose(5))
		next.QoS = q
		c.try("SetQoS", func() { err = m.SetQoS(mqttp.QosType(q)) })
		if q < 3 {
			h.legalUpdate("SetQoS", err, next)
		} else {
			h.done("SetQoS", err, next)
		}
	case 4:
		next.Retain = c.Choose(2) == 0
		c.try("SetRetain", func() { m.SetRetain(next.Retain) })
		h.done("SetRetain", nil, next)
	case 5:
		next.Dup = c.Choose(2) == 0
		c.try("SetDup", func() { m.SetDup(next.Dup) })
		h.done("SetDup", nil, next)
	case 6:
		t, ok := topic()
		q := byte(c.Choose(4))
		next.Topic, next.QoS, next.Retain, next.Dup = t, q, c.Choose(2) == 0, c.Choose(2) == 0
		next.Payload = g.Bytes(c.Choose(20))
		c.try("Set", func() { err = m.Set(t, clone(next.Payload), mqttp.QosType(q), next.Retain, next.Dup) })
		if ok && q < 3 {
			h.legalUpdate("Set", err, next)
		} else {
			h.done("Set", err, next)
		}
	}
}

func (h *hist) setConnect(m *mqttp.Connect, next *ref.Pkt, g *ref.Gen) {
	c := h.Ctx
	var err error
	switch c.Choose(9) {
	case 0:
		next.Clean = c.Choose(2) == 0
		c.try("SetClean", func() { m.SetClean(next.Clean) })
		h.done("SetClean", nil, next)
	case 1:
		next.KeepAlive = uint16(c.Choose(65536))
		c.try("SetKeepAlive", func() { m.SetKeepAlive(next.KeepAlive) })
		h.done("SetKeepAlive", nil, next)
	case 2:
		id := []string{"", "a", "client-1", "ABCdef0123456789", "bad\x00id", "\xff\xfe", "semi;colon", "0"}[c.Choose(8)]
		known := id == "a" || id == "0" || id == "ABCdef0123456789"
		if c.Choose(4) == 0 {
			n := 1 + c.Choose(23)
			if h.p.Ver > 3 && c.Choose(2) == 0 {
				n = g.Len(1)
			}
			id, known = string(g.ClientID(n)), true
		}
		next.ClientID = []byte(id)
		c.try("SetClientID", func() { err = m.SetClientID([]byte(id)) })
		if known {
			h.legalUpdate("SetClientID", err, next)
		} else {
			h.done("SetClientID", err, next)
		}
	case 3, 4:
		u := []string{"", "user", "u2", "\xff\xfe", "another user"}[c.Choose(5)]
		p := []string{"", "pass", "\x00\xff binary", ""}[c.Choose(4)]
		if c.Choose(6) == 0 {
			u, p = g.Text(g.Len(0)), string(g.Bytes(g.Len(0)))
		}
		next.User, next.HasUser = []byte(u), u != ""
		next.Pass, next.HasPass = []byte(p), p != ""
		uu, pp := []byte(u), []byte(p)
		if c.Choose(2) == 0 {
			if u == "" {
				uu = nil
			}
			if p == "" {
				pp = nil
			}
		}
		c.try("SetCredentials", func() { err = m.SetCredentials(uu, pp) })
		switch {
		case u == "\xff\xfe":
			if err == nil {
				c.Fail("bad-credentials", "a user name that is not UTF-8 is accepted: %s", h.p)
			}
			h.done("SetCredentials with invalid user name", err, nil)
		case u == "" && p != "" && h.p.Ver < 5:
			if err == nil {
				c.Fail("bad-credentials", "a password without a user name is accepted in version %d: %s", h.p.Ver, h.p)
			}
			h.done("SetCredentials without user name", err, nil)
		default:
			h.legalUpdate("SetCredentials", err, next)
		}
	case 5:
		if c.Choose(4) == 0 {
			c.try("ResetWill", func() { m.ResetWill() })
			next.Will = nil
			h.done("ResetWill", nil, next)
			return
		}
		q := g.Of(ref.CONNECT, h.p.Ver)
		if q.Will == nil {
			return
		}
		w, err := lib.BuildWill(q.Will, h.p.Ver, c.pk())
		if err != nil {
			c.Fail("build-refused", "legal will refused: %v", err)
		}
		next.Will = q.Will
		c.try("SetWill", func() { err = m.SetWill(w) })
		h.legalUpdate("SetWill", err, next)
	case 6, 7:
		h.changeWill(m.Will(), next, g)
	case 8:
		// wills that cannot be
		var w *mqttp.Publish
		k := c.Choose(3)
		if k > 0 {
			w = mqttp.NewPublish(mqttp.ProtocolVersion(h.p.Ver))
			if k == 2 {
				w.SetPayload([]byte("x"))
			}
			next.Will = &ref.Will{Payload: bytes.Clone(w.Payload())}
		}
		c.try("SetWill", func() { err = m.SetWill(w) })
		if err == nil {
			c.Fail("bad-will", "a will without topic is accepted: %s", h.p)
		}
		h.done("SetWill of an impossible will", err, nil)
	}
}

// changeWill updates the will of a CONNECT in place.
func (h *hist) changeWill(w *mqttp.Publish, next *ref.Pkt, g *ref.Gen) {
	c := h.Ctx
	if w == nil || next.Will == nil {
		return
	}
	x := next.Will
	var err error
	what := ""
	switch c.Choose(6) {
	case 0:
		what = "SetTopic of the will"
		x.Topic = g.Topic()
		c.try(what, func() { err = w.SetTopic(x.Topic) })
	case 1:
		what = "SetPayload of the will"
		x.Payload = g.Bytes(1 + c.Choose(20))
		c.try(what, func() { w.SetPayload(bytes.Clone(x.Payload)) })
	case 2:
		what = "SetQoS of the will"
		x.QoS = byte(c.Choose(3))
		c.try(what, func() { err = w.SetQoS(mqttp.QosType(x.QoS)) })
	case 3:
		what = "SetRetain of the will"
		x.Retain = c.Choose(2) == 1
		c.try(what, func() { w.SetRetain(x.Retain) })
	case 4:
		if w.Version() != mqttp.ProtocolV50 {
			return
		}
		what = "PropertySet of the will"
		ds := ref.PropsFor(ref.WILL)
		d := ds[c.Choose(len(ds))]
		n := 1
		if d.Repeats(ref.WILL) {
			n = 1 + c.Choose(3)
		}
		var ps []ref.Prop
		for i := 0; i < n; i++ {
			ps = append(ps, g.PropVal(d))
		}
		x.Props = append(without(x.Props, d.ID), ps...)
		c.try(what, func() { err = w.PropertySet(mqttp.PropertyID(d.ID), lib.PropValue(ps, c.pk())) })
	case 5:
		if w.Version() != mqttp.ProtocolV50 {
			return
		}
		what = "PropertiesDiscard of the will"
		x.Props = nil
		c.try(what, func() { w.PropertiesDiscard() })
	}
	h.legalUpdate(what, err, next)
}
