package props

import (
	"bytes"
	"fmt"

	"github.com/VolantMQ/vlapi/mqttp"

	"verif/lib"
	"verif/ref"
	"verif/simrt"
)

func init() {
	register(&Check{
		ID: "C14", Quick: 240000, Thorough: 7200000,
		Foreign:   []string{"rejected"},
		Variants:  []Variant{{"receive-buffer", 1, reuse}},
		StepLimit: 1 << 26,
		Rule:      "each run: 1-2 connections read 2-10 application messages and acknowledgements (with some others) of random versions into one reused receive buffer, which is overwritten by the next traffic, scribbled over or compacted while 1-3 threads hold, read, change, clone and encode what was received; what is held must stay equal to the model of what was sent, and the buffer may only change by what the connection puts into it; non-trivial when the buffer was overwritten under a packet that was read afterwards; distinct by hash of schedule and bytes",
		Real:      []string{libReal}, Stub: []string{"receive buffer of a connection, with a shadow copy", schedStub, refStub},
	})
}

// rbuf is a receive buffer with a shadow of what the connection put into it.
type rbuf struct {
	c      *Ctx
	b      []byte
	shadow []byte
	gen    int
}

func (r *rbuf) put(off int, b []byte) {
	copy(r.b[off:], b)
	copy(r.shadow[off:], b)
	r.gen++
}

func (r *rbuf) check(after string) {
	if !bytes.Equal(r.b, r.shadow) {
		i := 0
		for r.b[i] == r.shadow[i] {
			i++
		}
		r.c.Fail("buffer-written", "the receive buffer was written at %d (%#x instead of %#x): %s", i, r.b[i], r.shadow[i], after)
	}
}

// heldPkt is a received packet with its history.
type heldPkt struct {
	*hist
	from *rbuf
	gen  int
}

func reuse(c *Ctx) {
	var queue []*heldPkt
	var rbs []*rbuf
	check := func(after string) {
		for _, r := range rbs {
			r.check(after)
		}
	}
	open := 1 + c.Weighted(3, 1)
	recv := func(name string, n int) {
		defer func() { open-- }()
		ver := c.ver()
		size := []int{256, 64, 1024, 4096}[c.Choose(4)]
		rb := &rbuf{c: c, b: make([]byte, size), shadow: make([]byte, size)}
		rbs = append(rbs, rb)
		g := c.gen(false)
		g.Small, g.Mid = c.Bool(7, 8), true
		off := 0
		fill := func(lo, hi int) {
			x := make([]byte, hi-lo)
			k := byte(c.Choose(256))
			for i := range x {
				x[i] = byte(i)*k + k
			}
			rb.put(lo, x)
		}
		for ; n > 0; n-- {
			types := []int{ref.PUBLISH, ref.PUBLISH, ref.PUBLISH, ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.SUBACK, ref.UNSUBACK, ref.CONNACK}
			if ver == 5 {
				types = append(types, ref.AUTH)
			}
			p := g.Of(types[c.Choose(len(types))], ver)
			if c.Bool(1, 8) {
				// the will outlives its connection
				p = g.Of(ref.CONNECT, ver)
				if p.Will == nil {
					w := g.Of(ref.PUBLISH, ver)
					p.Will = &ref.Will{Topic: w.Topic, Payload: w.Payload[:min(len(w.Payload), 60000)], QoS: w.QoS, Retain: w.Retain}
					if p.Will.Topic == "" {
						p.Will.Topic = "w"
					}
				}
			}
			e := c.refEncode(p).B
			if len(e) > len(rb.b) {
				size = len(e) + c.Choose(100)
				rb = &rbuf{c: c, b: make([]byte, size), shadow: make([]byte, size)}
				rbs = append(rbs, rb)
				off = 0
			}
			if off+len(e) > len(rb.b) || c.Bool(1, 3) {
				off = 0
			}
			rb.put(off, e)
			var in []byte
			switch c.Choose(3) {
			case 0:
				in = rb.b[off : off+len(e) : off+len(e)]
			case 1:
				in = rb.b[off : off+len(e)] // more of the buffer behind it
			case 2:
				in = rb.b[off:] // with what is left of earlier traffic
			}
			c.others()
			if p.Type == ref.CONNECT {
				in = in[:len(e)]
				x, q := c.will(p, in)
				check("decoding CONNECT")
				h := &heldPkt{hist: &hist{Ctx: c, m: x, p: q}, from: rb, gen: rb.gen}
				h.same("decoding a will")
				queue = append(queue, h)
				c.Logf("%s: %s", name, p)
				continue
			}
			m, k, err := c.decode(ver, in)
			if err != nil && k == len(e) && len(in) > len(e) {
				m, k, err = c.decode(ver, in[:k])
			}
			if err != nil || m == nil || k != len(e) {
				c.Fail("rejected", "a legal packet is rejected: %v (%d of %d bytes): %s", err, k, len(e), p)
			}
			c.NoteBytes(e[:min(len(e), 64)])
			check("decoding " + ref.TypeNames[p.Type])
			h := &heldPkt{hist: &hist{Ctx: c, m: m, p: p.Clone()}, from: rb, gen: rb.gen}
			if p.Type == ref.PUBLISH && !p.NeedID() {
				h.p.HasID, h.p.ID = false, 0
			}
			h.same("decoding")
			check("reading")
			queue = append(queue, h)
			c.Logf("%s: %s", name, p)
			if c.Bool(1, 2) {
				off += len(e)
			}
			switch c.Choose(4) {
			case 0:
				c.Fault("buffer-scribbled")
				fill(0, len(rb.b))
			case 1:
				// what is left is moved to the front
				c.Fault("buffer-compacted")
				x := clone(rb.b[off:])
				rb.put(0, x)
				off = 0
			case 2:
				c.Yield()
			}
			if c.Bool(1, 6) {
				c.Fault("read-stall")
				c.Yield()
				c.Yield()
			}
		}
		c.Fault("buffer-scribbled")
		fill(0, len(rb.b))
	}
	c.ChooseSchedule()
	var ts []*simrt.Thread
	for i := open; i > 0; i-- {
		name := fmt.Sprintf("connection%d", i)
		n := 2 + c.Choose(6)
		ts = append(ts, c.Go(name, func() { recv(name, n) }))
	}
	late := 0
	var all []*heldPkt
	for i := 1 + c.Choose(3); i > 0; i-- {
		ts = append(ts, c.Go(fmt.Sprintf("worker%d", i), func() {
			var mine []*heldPkt
			for {
				if len(mine) == 0 || c.Bool(1, 2) {
					c.Wait(func() bool { return len(queue) > 0 || open == 0 })
					if len(queue) == 0 {
						break
					}
					mine = append(mine, queue[0])
					all = append(all, queue[0])
					queue = queue[1:]
				}
				h := mine[c.Choose(len(mine))]
				if h.from.gen > h.gen {
					late++
				}
				h.same("the buffer was used again")
				for k := c.Choose(4); k > 0; k-- {
					what := ""
					switch c.Weighted(4, 4, 3, 3, 1) {
					case 0:
						what = "an update"
						h.set()
					case 1:
						what = "a property update"
						h.property()
					case 2:
						what = "an encoding"
						h.encode()
					case 3:
						m, ok := h.m.(*mqttp.Publish)
						if !ok || h.p.Topic == "" {
							break
						}
						what = "cloning"
						v := c.ver()
						var x *mqttp.Publish
						var err error
						c.try("Clone", func() { x, err = m.Clone(mqttp.ProtocolVersion(v)) })
						if err != nil {
							c.Fail("clone-refused", "%v: %s", err, h.p)
						}
						y := &heldPkt{hist: &hist{Ctx: c, m: x, p: cloneModel(h.p, v)}, from: h.from, gen: h.gen}
						y.same("Clone")
						mine = append(mine, y)
						all = append(all, y)
					case 4:
						// a bigger payload or list out of what was received
						m, ok := h.m.(*mqttp.Publish)
						if !ok {
							break
						}
						what = "extending the payload"
						c.try(what, func() { m.SetPayload(append(m.Payload(), "more"...)) })
						h.p = h.p.Clone()
						h.p.Payload = append(h.p.Payload, "more"...)
						h.same(what)
					}
					check(what + " of " + ref.TypeNames[h.p.Type])
				}
				c.Yield()
			}
			for _, h := range mine {
				h.same("all traffic")
			}
		}))
	}
	if c.Choose(6) == 0 {
		// a connection breaks; what it received stays
		for w := c.Choose(10); w > 0; w-- {
			c.Yield()
		}
		t := ts[0]
		if !t.Dead() {
			c.Fault("reset")
		}
		t.Abort()
	}
	c.Join(ts...)
	for _, r := range rbs {
		r.put(0, bytes.Repeat([]byte{0xFF}, len(r.b)))
	}
	for _, h := range all {
		h.same("everything was overwritten")
		if legal(h.p) && late > 0 {
			c.Nontrivial = true
			var b []byte
			var err error
			c.try("encoding", func() { b, err = lib.Encode(h.m, c.pk()) })
			if err != nil {
				c.Fail("encode-refused", "%v: %s", err, h.p)
			}
			if r := ref.Parse(h.p.Ver, b); r.Pkt == nil || ref.Diff(wire(h.p), wire(r.Pkt)) != "" {
				c.Fail("stale", "the encoding of a held packet differs: %s", h.p)
			}
		}
	}
	check("everything")
}
