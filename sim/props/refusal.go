package props

import (
	"errors"

	"github.com/VolantMQ/vlapi/mqttp"

	"verif/lib"
	"verif/ref"
)

func init() {
	register(&Check{
		ID: "C18", Quick: 1200000, Thorough: 36000000,
		Foreign: []string{"both", "neither", "accepted", "panic"},
		Variants: []Variant{
			{"login", 4, login},
			{"damaged-login", 4, damagedLogin},
			{"damaged-session", 4, damagedSession},
		},
		Rule: "each run: a client's CONNECT with one thing wrong or damaged in transit, or the damaged packets of a session, over a fragmenting stream to a server that turns the reason it is given into CONNACK or DISCONNECT in the client's version and sends it back over another stream, where the independent parser reads it; non-trivial when a packet was refused with a reason code; distinct by hash of the refused bytes",
		Real: []string{libReal}, Stub: []string{mitmStub, refStub, "server that answers refused packets with the reason it is given"},
	})
}

// connAckCodes are the reasons for refusal that CONNACK of 5.0 may carry.
var connAckCodes = map[byte]bool{
	0x80: true, 0x81: true, 0x82: true, 0x83: true, 0x84: true, 0x85: true, 0x86: true, 0x87: true, 0x88: true, 0x89: true, 0x8A: true,
	0x8C: true, 0x90: true, 0x95: true, 0x97: true, 0x99: true, 0x9A: true, 0x9B: true, 0x9C: true, 0x9D: true, 0x9F: true,
}

// disconnectCodes are those of DISCONNECT of 5.0.
var disconnectCodes = map[byte]bool{
	0x80: true, 0x81: true, 0x82: true, 0x83: true, 0x87: true, 0x89: true, 0x8B: true, 0x8D: true, 0x8E: true, 0x8F: true, 0x90: true,
	0x93: true, 0x94: true, 0x95: true, 0x96: true, 0x97: true, 0x98: true, 0x99: true, 0x9A: true, 0x9B: true, 0x9C: true, 0x9D: true,
	0x9E: true, 0x9F: true, 0xA0: true, 0xA1: true, 0xA2: true,
}

// spoken is the protocol version that a CONNECT speaks, 0 when it does not say.
func spoken(b []byte) byte {
	h := hdrLen(b)
	if h == 0 || b[0] != 0x10 {
		return 0
	}
	b = b[h:]
	switch {
	case len(b) > 6 && string(b[:6]) == "\x00\x04MQTT" && (b[6] == 4 || b[6] == 5):
		return b[6]
	case len(b) > 8 && string(b[:8]) == "\x00\x06MQIsdp" && b[8] == 3:
		return 3
	}
	return 0
}

// reason judges a reason code by what the peer can be told.
func (c *Ctx) reason(ver byte, connect bool, rc mqttp.ReasonCode, b []byte) {
	v := byte(rc)
	switch {
	case v == 0 || v > 5 && v < 0x80:
		c.Fail("no-failure", "a packet is refused with the reason %#x, which is not a failure: %s", v, hexs(b))
	case ver == 0:
	case connect && ver < 5:
		if v > 5 {
			c.Fail("foreign-reason", "CONNECT of version %d is refused with the reason %#x, which CONNACK of that version does not have: %s", ver, v, hexs(b))
		}
	case connect:
		if !connAckCodes[v] {
			c.Fail("foreign-reason", "CONNECT of version 5 is refused with the reason %#x, which CONNACK of that version does not have: %s", v, hexs(b))
		}
	case ver == 5:
		if !disconnectCodes[v] {
			c.Fail("foreign-reason", "a packet of version 5 is refused with the reason %#x, which DISCONNECT does not have: %s", v, hexs(b))
		}
	}
}

// answer sends the reason back; what the client reads is judged.
func (c *Ctx) answer(ver byte, connect bool, rc mqttp.ReasonCode, back *Pipe) {
	if ver == 0 || !connect && ver < 5 {
		back.Close()
		return
	}
	t, m := ref.DISCONNECT, mqttp.IFace(nil)
	if connect {
		t = ref.CONNACK
	}
	var err error
	var out []byte
	c.try("building an answer", func() {
		if m, err = lib.New(t, ver, c.pk()); err != nil {
			return
		}
		switch m := m.(type) {
		case *mqttp.ConnAck:
			err = m.SetReturnCode(rc)
		case *mqttp.Disconnect:
			m.SetReasonCode(rc)
		}
	})
	if err != nil {
		c.Fail("no-answer", "%s of version %d cannot carry the reason %#x: %v", ref.TypeNames[t], ver, byte(rc), err)
	}
	c.try("encoding an answer", func() { out, err = lib.Encode(m, c.pk()) })
	if err != nil {
		c.Fail("no-answer", "%s of version %d with the reason %#x cannot be encoded: %v", ref.TypeNames[t], ver, byte(rc), err)
	}
	if c.Bool(1, 12) {
		back.Send(out[:c.Choose(len(out))])
		back.Reset()
		return
	}
	back.Send(out)
	back.Close()
}

// client reads the answer; want is the reason, or nil before it is known.
func (c *Ctx) client(ver byte, connect bool, back *Pipe, want *mqttp.ReasonCode) {
	var got []byte
	for {
		b, ok := back.Recv()
		if !ok {
			break
		}
		got = append(got, b...)
	}
	if back.reset || len(got) == 0 || ver == 0 {
		return
	}
	x := ref.Parse(ver, got)
	t := ref.DISCONNECT
	if connect {
		t = ref.CONNACK
	}
	if x.Verdict == ref.Illegal || x.Pkt == nil || x.Pkt.Type != t {
		c.Fail("bad-answer", "the client cannot read the answer with the reason %#x: %s: %s", byte(*want), x.Why, hexs(got))
	}
	if x.Pkt.Reason != byte(*want) {
		c.Fail("bad-answer", "the client is told %#x instead of %#x: %s", x.Pkt.Reason, byte(*want), hexs(got))
	}
	c.Probe("answered")
}

// serve decodes the stream up to the first refused packet and answers it. It
// returns the reason, if any.
func (c *Ctx) serve(p, back *Pipe, ver byte, connect bool, sees func(b []byte, rc mqttp.ReasonCode, err error), why *mqttp.ReasonCode) {
	var buf []byte
	defer back.Close()
	for {
		b, ok := p.Recv()
		if !ok {
			return
		}
		buf = append(buf, b...)
		for {
			n := frame(buf)
			if n < 0 {
				return
			}
			if n == 0 || n > len(buf) {
				break
			}
			m, _, err := c.decode(ver, buf[:n:n])
			if m == nil && err == nil {
				c.Fail("neither", "Decode returned neither a packet nor an error on %s", hexs(buf[:n]))
			}
			if m == nil {
				if incomplete(err) {
					c.Fail("waits", "a complete packet is refused with %v, as if more of it were to come: %s", err, hexs(buf[:n]))
				}
				bad := clone(buf[:n])
				isConn := connect || bad[0]>>4 == ref.CONNECT
				v := ver
				if isConn {
					v = spoken(bad)
				}
				var rc mqttp.ReasonCode
				if !errors.As(err, &rc) {
					c.Probe("refused-without-reason")
					if sees != nil {
						sees(bad, 0, err)
					}
					return
				}
				c.Nontrivial = true
				c.NoteBytes(bad)
				c.Note(uint64(v))
				c.Probe("refused")
				if c.Logging() {
					c.Logf("refused with %#x: %s", byte(rc), hexs(bad))
				}
				c.reason(v, isConn, rc, bad)
				if sees != nil {
					sees(bad, rc, nil)
				}
				*why = rc
				if isConn == connect {
					c.answer(v, isConn, rc, back)
				}
				return
			}
			buf = buf[n:]
		}
	}
}

// login is one CONNECT with one thing wrong that has a reason of its own.
func login(c *Ctx) {
	ver := c.ver()
	g := c.gen(false)
	g.Small = true
	p := g.Of(ref.CONNECT, ver)
	var want byte
	v3 := func(a, b byte) byte {
		if ver < 5 {
			return a
		}
		return b
	}
	bad := []string{"\x00", "a\x00", "\xff", "\xed\xa0\x80", "ab\xc3", "\xc0\x80", "x\xf4\x90\x80\x80", "a\x80"}
	kind := c.Choose(7) / 2
	switch kind {
	case 0:
		c.Fault("bad-client-id")
		p.ClientID = append(clone(p.ClientID[:min(len(p.ClientID), c.Choose(20))]), bad[c.Choose(len(bad))]...)
		if c.Bool(1, 3) {
			p.ClientID = append(p.ClientID, "tail"...)
		}
		want = v3(0x02, 0x85)
	case 1:
		c.Fault("bad-user-name")
		p.HasUser = true
		p.User = append(clone(p.User[:min(len(p.User), c.Choose(20))]), bad[c.Choose(len(bad))]...)
		want = v3(0x04, 0x86)
	case 2:
		if ver == 5 {
			ver = 4 - byte(c.Choose(2))
			p = g.Of(ref.CONNECT, ver)
		}
		if c.Choose(2) == 0 {
			c.Fault("no-client-id")
			p.ClientID, p.Clean = nil, false
			want = 0x02
		} else {
			c.Fault("password-alone")
			p.HasUser, p.User = false, nil
			p.HasPass = true
			want = 0x04
		}
	}
	b := c.refEncode(p).B
	if kind == 3 {
		c.Fault("unsupported-version")
		i := hdrLen(b) + 6
		if ver == 3 {
			i += 2
		}
		b[i] = []byte{0, 1, 2, 6, 7, 0x7F, 0x80, 0x83, 0x84, 0x85, 0xFF}[c.Choose(11)]
	}
	up, back := c.newPipe(), c.newPipe()
	var why mqttp.ReasonCode
	refused := false
	cl := c.Go("client", func() {
		up.Send(b)
		up.Close()
		if kind == 3 {
			return
		}
		c.client(ver, true, back, &why)
	})
	sv := c.Go("server", func() {
		c.serve(up, back, []byte{3, 4, 5}[c.Choose(3)], true, func(_ []byte, rc mqttp.ReasonCode, err error) {
			if kind == 3 {
				if err != mqttp.ErrInvalidProtocolVersion && rc != 0x01 && rc != 0x84 {
					c.Fail("wrong-reason", "an unsupported protocol version is refused with %v (%#x): %s", err, byte(rc), hexs(b))
				}
				c.Nontrivial = true
				refused = true
				return
			}
			refused = true
			if err != nil {
				c.Fail("vague", "%s is refused with %v instead of the reason %#x", p, err, want)
			}
			if byte(rc) != want {
				c.Fail("wrong-reason", "the reason is %#x instead of %#x for %s", byte(rc), want, p)
			}
		}, &why)
	})
	c.Join(cl, sv)
	if !refused {
		c.Fail("accepted", "a CONNECT that must be refused is not: %s", hexs(b))
	}
}

// damagedLogin is a CONNECT that is damaged in any way.
func damagedLogin(c *Ctx) {
	ver := c.ver()
	g := c.gen(false)
	g.Small = true
	var b []byte
	if c.Choose(3) > 0 {
		b = c.breakRule(ver, ref.CONNECT)
	} else {
		b = c.mutate(c.refEncode(g.Of(ref.CONNECT, ver)), ver)
	}
	if len(b) == 0 {
		return
	}
	up, back := c.newPipe(), c.newPipe()
	var why mqttp.ReasonCode
	cl := c.Go("client", func() {
		up.Send(b)
		up.Close()
		c.client(spoken(b), true, back, &why)
	})
	sv := c.Go("server", func() {
		c.serve(up, back, []byte{3, 4, 5}[c.Choose(3)], true, nil, &why)
	})
	c.Join(cl, sv)
}

// damagedSession is the traffic after CONNECT, some of it damaged.
func damagedSession(c *Ctx) {
	ver := c.ver()
	up, back := c.newPipe(), c.newPipe()
	var why mqttp.ReasonCode
	cl := c.Go("client", func() {
		g := c.gen(false)
		g.Small = true
		for n := 1 + c.Choose(3); n > 0; n-- {
			e := c.refEncode(g.Packet(ver))
			b := e.B
			if n == 1 || c.Choose(3) == 0 {
				if c.Choose(3) > 0 {
					b = c.breakRule(ver, 0)
				} else {
					b = c.mutate(e, ver)
				}
			}
			up.Send(b)
		}
		up.Close()
		c.client(ver, false, back, &why)
	})
	sv := c.Go("server", func() {
		c.serve(up, back, ver, false, nil, &why)
	})
	c.Join(cl, sv)
}
