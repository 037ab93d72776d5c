package props

import (
	"bytes"
	"fmt"
	"time"

	"github.com/VolantMQ/vlapi/mqttp"

	"verif/lib"
	"verif/ref"
)

const libReal = "mqttp (all packet types, properties, header, Encode/Decode) from /repo's working tree, instrumented"
const netStub = "network: simulated reliable byte stream (fragments, coalesces, delays, stalls, resets)"
const refStub = "independent MQTT encoder/parser (package ref), written from the standards"

func init() {
	register(&Check{
		ID: "C01", Quick: 400000, Thorough: 12000000,
		Variants: []Variant{
			{"stream-guided", 5, func(c *Ctx) { streamLib(c, true) }},
			{"stream-framed", 3, func(c *Ctx) { streamLib(c, false) }},
			{"stream-reset", 2, streamReset},
		},
		Rule: "each run: 1-3 connections of a random protocol version, each carrying 1-12 random legal packets in one or both directions over a stream that fragments/coalesces/delays/stalls/resets, in a sixth of the runs among other connections of the process with legal and damaged traffic; non-trivial when at least two packets, or one packet in several fragments, reached the other side and every one was compared field by field; distinct by hash of bytes sent, fragmentation and thread schedule",
		Real: []string{libReal}, Stub: []string{netStub},
	})
	register(&Check{
		ID: "C02", Quick: 1500000, Thorough: 45000000,
		Foreign: []string{"build-refused", "encode-refused"},
		Variants: []Variant{
			{"prefixes", 5, prefixes},
			{"guided-progress", 4, guidedProgress},
			{"long-length-field", 1, longLength},
			{"giant-frames", 1, giantFrames},
		},
		Rule: "each run: one packet (sometimes with leading zeros in its length, if that is accepted) in all or up to 80 of its proper prefixes plus a following packet or part of it; or a stream cut at random places, in which a packet must come out in the delivery that completes it; or a forged length field; or the first bytes of a frame of up to 268435455 bytes; non-trivial when at least one incomplete and one complete buffer were judged; distinct by hash of bytes and cuts",
		Real: []string{libReal}, Stub: []string{netStub, refStub},
	})
	register(&Check{
		ID: "C05", Quick: 2000000, Thorough: 60000000,
		Variants: []Variant{
			{"ref-to-lib", 5, refToLib},
			{"lib-to-ref", 4, libToRef},
			{"stream-mixed", 2, streamMixed},
			{"damaged-but-legal", 3, func(c *Ctx) { c.hostile(c.mustAccept) }},
			{"short-disconnect", 1, shortDisconnect},
		},
		Rule: "each run: random legal contents written by the independent encoder in a random permitted form and read by the library (then written again by the library and read by the independent parser), or the reverse, alone or as a two-node conversation over a fragmenting stream; non-trivial when a packet crossed from one implementation to the other and all fields were compared; distinct by hash of the bytes",
		Real: []string{libReal}, Stub: []string{netStub, refStub},
	})
}

func (c *Ctx) gen(forLib bool) *ref.Gen {
	g := &ref.Gen{S: c.Source, ForLib: forLib}
	g.Small = c.Weighted(1, 6) == 1
	return g
}

// checkMeta checks what the packet says about its frame.
func (c *Ctx) checkMeta(m mqttp.IFace, p *ref.Pkt, n int, b []byte) {
	if n != len(b) {
		c.Fail("consumed", "a packet of %d bytes is reported to have %d: %s", len(b), n, p)
	}
	if x, ok := m.(interface{ RemainingLength() int32 }); ok && int(x.RemainingLength()) != len(b)-hdrLen(b) {
		c.Fail("remaining-length", "RemainingLength is %d, %d bytes follow the fixed header: %s", x.RemainingLength(), len(b)-hdrLen(b), p)
	}
	if x, ok := m.(interface{ Flags() byte }); ok && x.Flags() != b[0]&15 {
		c.Fail("flags", "Flags is %#x, first byte %#x: %s", x.Flags(), b[0], p)
	}
}

// receive reads packets from a pipe until it ends and hands them over.
func (c *Ctx) receive(p *Pipe, ver byte, guided bool, onPkt func(m mqttp.IFace, n int, raw []byte)) (left []byte) {
	var buf []byte
	for {
		b, ok := p.Recv()
		if !ok {
			return buf
		}
		buf = append(buf, b...)
		for len(buf) > 0 {
			c.others()
			if guided {
				st := c.next(ver, buf)
				if st.more {
					break
				}
				if st.m == nil {
					c.Fail("rejected", "a legal packet is rejected: %v: %s", st.err, hexs(buf))
				}
				if st.n <= 0 || st.n > len(buf) {
					c.Fail("consumed", "%d bytes consumed of %d", st.n, len(buf))
				}
				onPkt(st.m, st.n, buf[:st.n])
				buf = append([]byte(nil), buf[st.n:]...)
				continue
			}
			n := frame(buf)
			if n <= 0 || n > len(buf) {
				break
			}
			m, k, err := c.decode(ver, buf[:n:n])
			if err != nil {
				c.Fail("rejected", "a legal packet is rejected: %v: %s", err, hexs(buf[:n]))
			}
			onPkt(m, k, buf[:n])
			buf = append([]byte(nil), buf[n:]...)
		}
	}
}

func streamLib(c *Ctx, guided bool) {
	conns := 1 + c.Weighted(6, 2, 1)
	c.ChooseSchedule()
	got := 0
	frags := int64(0)
	for i := 0; i < conns; i++ {
		ver := c.ver()
		dirs := 1 + c.Choose(2)
		for d := 0; d < dirs; d++ {
			p := c.newPipe()
			n := 1 + c.Weighted(3, 3, 2, 2, 1, 1)
			if n == 6 {
				n = 6 + c.Choose(7)
			}
			var sent []*ref.Pkt
			name := fmt.Sprintf("conn%d.%d", i, d)
			c.Go(name+".send", func() {
				g := c.gen(true)
				var held []byte
				for k := 0; k < n; k++ {
					c.Yield()
					pkt := g.Packet(ver)
					m := c.build(pkt)
					b := c.encode(m, pkt)
					sent = append(sent, pkt)
					c.NoteBytes(b[:min(len(b), 64)])
					if c.Logging() {
						c.Logf("send #%d %s: %s", k, pkt, hexs(b))
					}
					held = append(held, b...)
					if c.Choose(3) == 2 && k+1 < n {
						continue // written together with the next packet
					}
					p.Send(held)
					held = nil
					if c.Choose(3) == 0 {
						c.Sleep(time.Duration(c.Choose(10)) * time.Millisecond)
					}
				}
				p.Send(held)
				p.Close()
			})
			c.Go(name+".recv", func() {
				k := 0
				left := c.receive(p, ver, guided, func(m mqttp.IFace, n int, raw []byte) {
					if k >= len(sent) {
						c.Fail("extra", "a packet nobody sent: %s", m.Type().Name())
					}
					c.match("altered", sent[k], m)
					c.checkMeta(m, sent[k], n, raw)
					k++
					got++
					if c.Logging() {
						c.Logf("recv #%d (%d bytes)", k-1, n)
					}
				})
				if len(left) > 0 {
					c.Fail("stuck", "%d bytes at the end of the stream never became a packet: %s", len(left), hexs(left))
				}
				if k != n {
					c.Fail("missing", "%d of %d packets arrived", k, n)
				}
			})
		}
	}
	for _, t := range c.Others() {
		c.Join(t)
	}
	for _, k := range []string{"fragment"} {
		frags += c.Faults[k]
	}
	c.Nontrivial = got >= 2 || frags > 0
}

func streamReset(c *Ctx) {
	ver := c.ver()
	p := c.newPipe()
	n := 2 + c.Choose(6)
	g := c.gen(true)
	var sent []*ref.Pkt
	var ends []int
	total := 0
	c.Go("send", func() {
		for k := 0; k < n; k++ {
			c.Yield()
			pkt := g.Packet(ver)
			b := c.encode(c.build(pkt), pkt)
			sent = append(sent, pkt)
			total += len(b)
			ends = append(ends, total)
			c.NoteBytes(b[:min(len(b), 64)])
			p.Send(b)
			if c.Choose(2) == 0 {
				c.Sleep(time.Duration(c.Choose(20)) * time.Millisecond)
			}
			if c.Bool(1, 5) {
				break
			}
		}
		p.Reset()
	})
	k := 0
	got := 0
	r := c.Go("recv", func() {
		left := c.receive(p, ver, c.Choose(2) == 0, func(m mqttp.IFace, n int, raw []byte) {
			if k >= len(sent) {
				c.Fail("extra", "a packet nobody sent: %s", m.Type().Name())
			}
			c.match("altered", sent[k], m)
			c.checkMeta(m, sent[k], n, raw)
			k++
			got += n
		})
		got += len(left)
	})
	c.Join(r)
	want := 0
	for want < len(ends) && ends[want] <= got {
		want++
	}
	if k != want {
		c.Fail("missing", "%d bytes arrived before the reset, that is %d whole packets, but %d came out", got, want, k)
	}
	c.Nontrivial = k > 0
}

// legalBytes makes a legal packet with either implementation.
func (c *Ctx) legalBytes(g *ref.Gen, ver byte) (*ref.Pkt, *ref.Enc) {
	g2 := *g
	g2.ForLib = c.Choose(2) == 0
	p := g2.Packet(ver)
	if g2.ForLib {
		return p, &ref.Enc{B: c.encode(c.build(p), p)}
	}
	return p, c.refEncode(p)
}

// checkPrefix judges one proper prefix of a packet.
func (c *Ctx) checkPrefix(ver byte, whole []byte, k int, p *ref.Pkt) {
	// the bytes that follow in memory must not matter
	buf := make([]byte, k, k+8)
	copy(buf, whole[:k])
	m, n, err := c.decode(ver, buf)
	if m != nil {
		c.Fail("premature", "%d of %d bytes already give a packet: %s", k, len(whole), p)
	}
	if err == nil {
		c.Fail("neither", "%d of %d bytes give neither packet nor error", k, len(whole))
	}
	if !incomplete(err) {
		c.Fail("not-incomplete", "%d of %d bytes of a legal packet are rejected with %v: %s", k, len(whole), err, p)
	}
	if hdrLen(buf) > 0 && n != len(whole) {
		c.Fail("announced-length", "after %d of %d bytes the announced length is %d: %s", k, len(whole), n, p)
	}
}

func (c *Ctx) checkSurplus(ver byte, whole, extra []byte, p *ref.Pkt) {
	buf := append(clone(whole), extra...)
	m, n, err := c.decode(ver, buf)
	if m != nil {
		c.Fail("surplus-accepted", "a buffer with %d bytes after a packet of %d bytes gives a packet: %s", len(extra), len(whole), p)
	}
	if err == nil {
		c.Fail("neither", "neither packet nor error")
	}
	if incomplete(err) || n != len(whole) {
		c.Fail("surplus-length", "packet of %d bytes followed by %d more: reported length %d (%v): %s", len(whole), len(extra), n, err, p)
	}
	m, n, err = c.decode(ver, buf[:n])
	if m == nil || err != nil || n != len(whole) {
		c.Fail("rejected", "a legal packet cut by its reported length is rejected: %v (%d): %s", err, n, p)
	}
}

func prefixes(c *Ctx) {
	ver := c.ver()
	g := c.gen(false)
	p, e := c.legalBytes(g, ver)
	whole := e.B
	h := hdrLen(whole)
	if h < 5 && c.Choose(12) == 0 {
		// a length field with leading zeros, if the library takes it at all
		x := clone(whole[:h])
		for n := 1 + c.Choose(5-h); n > 0; n-- {
			x[len(x)-1] |= 0x80
			x = append(x, 0)
		}
		x = append(x, whole[h:]...)
		if m, _, err := c.decode(ver, clone(x)); m != nil && err == nil {
			c.Fault("padded-length")
			whole = x
			h = hdrLen(x)
		}
	}
	c.NoteBytes(whole[:min(len(whole), 64)])
	if c.Logging() {
		c.Logf("packet %s: %s", p, hexs(whole))
	}
	if len(whole) <= 80 {
		for k := 0; k < len(whole); k++ {
			c.checkPrefix(ver, whole, k, p)
			c.Fault("cut")
		}
	} else {
		for k := 0; k <= h+2; k++ {
			c.checkPrefix(ver, whole, k, p)
			c.Fault("cut")
		}
		for i := 0; i < 20; i++ {
			c.checkPrefix(ver, whole, c.Choose(len(whole)), p)
			c.Fault("cut")
		}
		for k := len(whole) - 3; k < len(whole); k++ {
			c.checkPrefix(ver, whole, k, p)
			c.Fault("cut")
		}
	}
	m, n, err := c.decode(ver, clone(whole))
	if m == nil || err != nil || n != len(whole) {
		c.Fail("rejected", "a legal packet is rejected: %v (%d of %d): %s", err, n, len(whole), p)
	}
	_, e2 := c.legalBytes(g, ver)
	x := e2.B
	for i := 0; i < 3; i++ {
		k := 1 + c.Choose(len(x))
		if i == 0 {
			k = len(x)
		}
		c.checkSurplus(ver, whole, x[:k], p)
		c.Fault("surplus")
	}
	c.Nontrivial = true
}

func guidedProgress(c *Ctx) {
	ver := c.ver()
	g := c.gen(false)
	p := c.newPipe()
	n := 1 + c.Weighted(2, 3, 3, 2, 1, 1, 1)
	var sent []*ref.Pkt
	var ends []int
	total := 0
	c.Go("send", func() {
		var held []byte
		for k := 0; k < n; k++ {
			c.Yield()
			pkt, e := c.legalBytes(g, ver)
			sent = append(sent, pkt)
			total += len(e.B)
			ends = append(ends, total)
			c.NoteBytes(e.B[:min(len(e.B), 64)])
			held = append(held, e.B...)
			if c.Choose(2) == 0 || k+1 == n {
				p.Send(held)
				held = nil
			}
			if c.Choose(3) == 0 {
				c.Sleep(time.Duration(c.Choose(10)) * time.Millisecond)
			}
		}
		p.Close()
	})
	done := 0
	r := c.Go("recv", func() {
		var buf []byte
		got, used := 0, 0
		for {
			b, ok := p.Recv()
			if !ok {
				break
			}
			got += len(b)
			buf = append(buf, b...)
			need := 0
			for len(buf) > 0 {
				st := c.next(ver, buf)
				if st.more {
					need = st.need
					break
				}
				if st.m == nil {
					c.Fail("rejected", "a legal packet is rejected: %v: %s", st.err, hexs(buf))
				}
				if done >= len(ends) || used+st.n != ends[done] {
					c.Fail("consumed", "packet %d: %d bytes consumed of %s", done, st.n, hexs(buf))
				}
				c.match("altered", sent[done], st.m)
				used += st.n
				buf = buf[st.n:]
				done++
			}
			whole := 0
			for whole < len(ends) && ends[whole] <= got {
				whole++
			}
			if done != whole {
				c.Fail("no-progress", "%d packets have arrived completely, %d were extracted; %d bytes are stuck", whole, done, len(buf))
			}
			if hdrLen(buf) > 0 && done < len(ends) && need != ends[done]-used {
				c.Fail("announced-length", "%d bytes of a packet of %d bytes: announced length is %d", len(buf), ends[done]-used, need)
			}
		}
	})
	c.Join(r)
	if done != n {
		c.Fail("missing", "%d of %d packets came out", done, n)
	}
	c.Nontrivial = c.Faults["fragment"]+c.Faults["coalesce"] > 0
}

// giantFrames sends the beginning of a packet of up to the largest length.
func giantFrames(c *Ctx) {
	ver := c.ver()
	p := (&ref.Gen{S: c.Source, Small: true}).Of(ref.PUBLISH, ver)
	p.Payload = nil
	b := ref.Encode(p, nil).B
	max := 1<<28 - 1
	body := b[hdrLen(b):]
	n := []int{max, max - 1, 1 << 27, 1<<27 + 1, 1<<27 - 1, 1<<21 - 1, 1 << 21, 1 << 14, 1 << 24, 1<<24 - 1, 1 << 16, 1<<16 - 1}[c.Choose(12)]
	if c.Choose(2) == 1 {
		n = 1<<14 + c.Choose(max-1<<14)
	}
	b = append([]byte{b[0]}, ref.VarInt(uint32(n))...)
	total := len(b) + n
	b = append(b, body...)
	b = append(b, (&ref.Gen{S: c.Source}).Bytes(c.Choose(60))...)
	c.NoteBytes(b)
	for k := 0; k <= len(b) && k < total; k++ {
		m, got, err := c.decode(ver, clone(b[:k]))
		if m != nil {
			c.Fail("premature", "%d of %d bytes already give a packet: %s", k, total, p)
		}
		if !incomplete(err) {
			c.Fail("not-incomplete", "%d of %d bytes of a legal packet give %v: %s", k, total, err, hexs(b[:k]))
		}
		if hdrLen(b[:k]) > 0 && got != total {
			c.Fail("announced-length", "after %d of %d bytes the announced length is %d: %s", k, total, got, hexs(b[:k]))
		}
	}
	c.Fault("giant")
	c.Nontrivial = true
}

func longLength(c *Ctx) {
	ver := c.ver()
	t := ref.Types(ver)[c.Choose(len(ref.Types(ver)))]
	first := byte(t<<4) | (&ref.Pkt{Type: t, Ver: ver}).Flags()
	b := []byte{first}
	for i := 0; i < 4; i++ {
		b = append(b, 0x80|byte(c.Choose(128)))
	}
	n := 1 + c.Weighted(3, 2, 1, 1)
	for i := 0; i < n; i++ {
		switch c.Choose(3) {
		case 0:
			b = append(b, byte(c.Choose(128)))
		case 1:
			b = append(b, 0x80|byte(c.Choose(128)))
		case 2:
			b = append(b, []byte{0, 1, 2, 0x7f, 0x80, 0xff}[c.Choose(6)])
		}
	}
	for i := c.Choose(20); i > 0; i-- {
		b = append(b, byte(c.Choose(256)))
	}
	c.Fault("forged-length")
	c.NoteBytes(b)
	m, k, err := c.decode(ver, b)
	if m != nil {
		c.Fail("long-length-accepted", "a length field of more than four bytes gives a packet: %s", hexs(b))
	}
	if err == nil || incomplete(err) {
		c.Fail("long-length-incomplete", "a length field of more than four bytes is reported as incomplete (%v, %d): %s", err, k, hexs(b))
	}
	c.Nontrivial = true
}

// refAccept feeds a legal packet of the independent implementation to the
// library.
func (c *Ctx) refAccept(ver byte, p *ref.Pkt, b []byte) mqttp.IFace {
	in := clone(b)
	c.others()
	m, n, err := c.decode(ver, in)
	if err != nil || m == nil {
		c.Fail("interop-rejected", "a legal packet is rejected with %v: %s: %s", err, p, hexs(b))
	}
	if n != len(b) {
		c.Fail("consumed", "%d of %d bytes consumed: %s", n, len(b), p)
	}
	c.match("interop-altered", p, m)
	return m
}

// refRead has the independent implementation read what the library wrote.
func (c *Ctx) refRead(ver byte, p *ref.Pkt, b []byte) {
	r := ref.Parse(ver, b)
	if r.Verdict == ref.Illegal || r.Pkt == nil {
		c.Fail("interop-illegal", "the library wrote an illegal packet (%s): %s: %s", r.Why, p, hexs(b))
	}
	want, got := lib.Norm(p), lib.Norm(r.Pkt)
	if d := ref.Diff(want, got); d != "" {
		c.Fail("interop-differs", "the library wrote something else: %s: %s: %s", d, p, hexs(b))
	}
}

func connVer(c *Ctx, ver byte, p *ref.Pkt) byte {
	if p.Type == ref.CONNECT && c.Choose(2) == 1 {
		// the version of a connection is only known from its CONNECT
		return []byte{4, 5, 3}[c.Choose(3)]
	}
	return ver
}

func refToLib(c *Ctx) {
	ver := c.ver()
	g := c.gen(false)
	p := g.Packet(ver)
	e := c.refEncode(p)
	c.NoteBytes(e.B[:min(len(e.B), 256)])
	if c.Logging() {
		c.Logf("ref wrote %s: %s", p, hexs(e.B))
	}
	m := c.refAccept(connVer(c, ver, p), p, e.B)
	if c.Bool(1, 4) {
		if d := lib.Accessors(m, p, c.Choose(8)); d != "" {
			c.Fail("getters", "%s: %s", d, p)
		}
	}
	b := c.encode(m, p)
	c.refRead(ver, p, b)
	c.Nontrivial = true
}

func libToRef(c *Ctx) {
	ver := c.ver()
	g := c.gen(true)
	p := g.Packet(ver)
	b := c.encode(c.build(p), p)
	c.NoteBytes(b[:min(len(b), 256)])
	if c.Logging() {
		c.Logf("lib wrote %s: %s", p, hexs(b))
	}
	c.refRead(connVer(c, ver, p), p, b)
	c.Nontrivial = true
}

// mustAccept judges bytes that may still be legal.
func (c *Ctx) mustAccept(ver byte, b []byte) {
	v := ref.Parse(ver, b)
	c.Probe("verdict:" + v.Verdict.String())
	if v.Verdict != ref.Legal {
		return
	}
	if v.Pkt.Type == ref.DISCONNECT && len(b) == 3 {
		return // see shortDisconnect
	}
	m := c.refAccept(ver, v.Pkt, b)
	if v.Pkt.Type == ref.CONNECT {
		ver = v.Pkt.Ver
	}
	c.refRead(ver, v.Pkt, c.encode(m, v.Pkt))
	c.Nontrivial = true
}

func shortDisconnect(c *Ctx) {
	p := &ref.Pkt{Type: ref.DISCONNECT, Ver: 5, Reason: ref.Codes5[ref.DISCONNECT][c.Choose(len(ref.Codes5[ref.DISCONNECT]))]}
	b := []byte{0xE0, 1, p.Reason}
	c.NoteBytes(b)
	in := clone(b)
	m, _, err := c.decode(5, in)
	if err != nil || m == nil {
		c.Fail("interop-short-disconnect", "a version 5 DISCONNECT of remaining length 1 is rejected with %v: %s", err, hexs(b))
	}
	c.match("interop-altered", p, m)
	c.Nontrivial = true
}

// streamMixed is a conversation of a library node and an independent node.
func streamMixed(c *Ctx) {
	ver := c.ver()
	c.ChooseSchedule()
	toLib, toRef := c.newPipe(), c.newPipe()
	n := 1 + c.Choose(6)
	var sentR, sentL []*ref.Pkt
	c.Go("refnode.send", func() {
		g := c.gen(false)
		for k := 0; k < n; k++ {
			c.Yield()
			p := g.Packet(ver)
			e := c.refEncode(p)
			sentR = append(sentR, p)
			c.NoteBytes(e.B[:min(len(e.B), 64)])
			toLib.Send(e.B)
		}
		toLib.Close()
	})
	c.Go("libnode.send", func() {
		g := c.gen(true)
		for k := 0; k < n; k++ {
			c.Yield()
			p := g.Packet(ver)
			b := c.encode(c.build(p), p)
			sentL = append(sentL, p)
			c.NoteBytes(b[:min(len(b), 64)])
			toRef.Send(b)
		}
		toRef.Close()
	})
	gl, gr := 0, 0
	a := c.Go("libnode.recv", func() {
		left := c.receive(toLib, ver, true, func(m mqttp.IFace, n int, raw []byte) {
			if gl >= len(sentR) {
				c.Fail("extra", "a packet nobody sent")
			}
			c.match("interop-altered", sentR[gl], m)
			gl++
		})
		if len(left) > 0 || gl != n {
			c.Fail("missing", "%d of %d packets arrived, %d bytes left", gl, n, len(left))
		}
	})
	b := c.Go("refnode.recv", func() {
		var buf []byte
		for {
			x, ok := toRef.Recv()
			if !ok {
				break
			}
			buf = append(buf, x...)
			for {
				k := frame(buf)
				if k <= 0 || k > len(buf) {
					break
				}
				if gr >= len(sentL) {
					c.Fail("extra", "a packet nobody sent")
				}
				c.refRead(ver, sentL[gr], buf[:k])
				gr++
				buf = bytes.Clone(buf[k:])
			}
		}
		if len(buf) > 0 || gr != n {
			c.Fail("missing", "%d of %d packets arrived at the independent node, %d bytes left", gr, n, len(buf))
		}
	})
	c.Join(a, b)
	c.Nontrivial = true
}
