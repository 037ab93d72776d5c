package props

import (
	"bytes"
	"runtime"
	"runtime/metrics"

	"github.com/VolantMQ/vlapi/mqttp"

	"verif/lib"
	"verif/ref"
)

const mitmStub = "hostile peer and corrupting link: breaks rules, flips, cuts, splices, duplicates and forges fields of packets written by the independent encoder"

func init() {
	register(&Check{
		ID: "C03", Quick: 800000, Thorough: 24000000,
		Variants: []Variant{
			{"corrupted-packet", 8, func(c *Ctx) { c.hostile(c.safeDecode) }},
			{"noise", 2, noise},
			{"corrupted-stream", 3, corruptedStream},
			{"huge-claims", 1, hugeClaims},
		},
		StepLimit: 1 << 26,
		Rule:      "each run: a legal packet damaged by one to four structure-aware or blind corruptions (fields, lengths, bits, cuts, splices, duplicates; length fields repaired or not), plain noise, a stream with corrupted bytes, or lengths that claim far more than is there; every Decode is judged for outcome, bounds, steps, allocation and input integrity, every packet it returns is written and read again; non-trivial when Decode got past the fixed header's checks or returned a packet; distinct by hash of the input bytes",
		Real:      []string{libReal}, Stub: []string{mitmStub, refStub},
	})
	register(&Check{
		ID: "C04", Quick: 3000000, Thorough: 90000000,
		Foreign: []string{"rejected", "build-refused", "encode-refused"},
		Variants: []Variant{
			{"rule-break", 6, ruleBreak},
			{"corrupted-packet", 8, func(c *Ctx) { c.hostile(c.mustReject) }},
			{"cut-and-repaired", 2, cutRepaired},
			{"hostile-stream", 2, hostileStream},
		},
		Rule: "each run: a legal packet with one protocol rule broken on purpose, or damaged at random, or cut at every position with its length field repaired, alone or inside a stream; the independent parser names the broken rule, and the library must not return a packet; non-trivial when the independent parser found at least one violation; distinct by hash of the input bytes",
		Real: []string{libReal}, Stub: []string{mitmStub, refStub},
	})
}

// chunk is one field of a packet under attack.
type chunk struct {
	kind string
	b    []byte
	blk  int // 1-based number of the property block it lies in
}

func chunks(e *ref.Enc) []chunk {
	var r []chunk
	blk, left := 0, 0
	for _, f := range e.Fields {
		k := chunk{kind: f.Kind, b: clone(e.B[f.Off : f.Off+f.Len])}
		if left > 0 {
			k.blk = blk
			left -= f.Len
		}
		r = append(r, k)
		if f.Kind == "plen" {
			blk++
			for i, x := range k.b {
				left |= int(x&127) << (7 * i)
			}
		}
	}
	return r
}

// assemble writes the chunks; lengths are repaired as asked.
func assemble(cs []chunk, fixProps, fixLen bool) []byte {
	if fixProps {
		blk := 0
		for i := range cs {
			if cs[i].kind != "plen" {
				continue
			}
			blk++
			n := 0
			for _, k := range cs {
				if k.blk == blk {
					n += len(k.b)
				}
			}
			cs[i].b = ref.VarInt(uint32(n))
		}
	}
	var head, body []byte
	for i, k := range cs {
		if i == 0 && k.kind == "first" {
			head = append(head, k.b...)
		} else if k.kind == "rlen" {
			if !fixLen {
				head = append(head, k.b...)
			}
		} else {
			body = append(body, k.b...)
		}
	}
	if fixLen {
		head = append(head, ref.VarInt(uint32(len(body)))...)
	}
	return append(head, body...)
}

var badText = []string{
	"\xff", "a\xc0\xaf", "\xed\xa0\x80", "a\x00b", "\x00", "+", "#", "a/+", "a/#", "a+b", "a#", "#/a", "a/#/b", "+a", "", "\xf4\x90\x80\x80",
	"\xe2\x82", "$share", "$share/", "$share/g", "$share/g/", "$share//a", "$share/+/a", "$share/#/a", "$share/g/a#", "$SYS", "$", "$/a", "/", "//",
	"a\xcc\x80", "\xef\xbf\xbf", "\x7f", "\x1f", "\xc2\x80", "MQTT", "MQIsdp", "mqtt", "\xc3\x28", "\xf0\x28\x8c\x28", "\xfe\xfe\xff\xff", "\u2028", "a b",
}

func (c *Ctx) edgeByte() byte {
	return []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 0x0C, 0x10, 0x11, 0x18, 0x19, 0x20, 0x30, 0x33, 0x3F, 0x40, 0x7F, 0x80, 0x81, 0x82, 0x83, 0x87, 0x8C, 0x8E, 0x91, 0x92, 0x97, 0x99, 0x9E, 0xA0, 0xA2, 0xA3, 0xC0, 0xC3, 0xFE, 0xFF}[c.Choose(39)]
}

// mutate damages a packet.
func (c *Ctx) mutate(e *ref.Enc, ver byte) []byte {
	cs := chunks(e)
	fixProps, fixLen := true, true
	n := 1 + c.Weighted(6, 2, 1, 1)
	for ; n > 0; n-- {
		if len(cs) == 0 {
			break
		}
		i := c.Choose(len(cs))
		if c.Choose(2) == 1 {
			// prefer structure over payload
			for t := 0; t < 4 && (len(cs[i].b) == 0 || cs[i].kind == "payload" || cs[i].kind == "str"); t++ {
				i = c.Choose(len(cs))
			}
		}
		k := &cs[i]
		switch c.Weighted(4, 3, 8, 2, 2, 1, 2, 3, 2, 2, 2) {
		case 0:
			if len(k.b) > 0 {
				c.Fault("bit-flip")
				k.b[c.Choose(len(k.b))] ^= 1 << c.Choose(8)
			}
		case 1:
			if len(k.b) > 0 {
				c.Fault("byte-overwrite")
				k.b[c.Choose(len(k.b))] = c.edgeByte()
			}
		case 2:
			c.forge(cs, i)
		case 3:
			c.Fault("field-deleted")
			cs = append(cs[:i:i], cs[i+1:]...)
		case 4:
			c.Fault("field-duplicated")
			d := chunk{k.kind, clone(k.b), k.blk}
			cs = append(cs[:i+1:i+1], append([]chunk{d}, cs[i+1:]...)...)
		case 5:
			j := c.Choose(len(cs))
			c.Fault("fields-swapped")
			cs[i], cs[j] = cs[j], cs[i]
		case 6:
			c.Fault("bytes-inserted")
			x := make([]byte, 1+c.Choose(4))
			for j := range x {
				x[j] = c.edgeByte()
			}
			cs = append(cs[:i+1:i+1], append([]chunk{{"junk", x, k.blk}}, cs[i+1:]...)...)
		case 7:
			c.Fault("cut")
			if len(k.b) > 0 {
				k.b = k.b[:c.Choose(len(k.b))]
			}
			cs = cs[:i+1]
		case 8:
			c.Fault("splice")
			o := chunks(ref.Encode((&ref.Gen{S: c.Source, Small: true}).Packet(ver), nil))
			j := c.Choose(len(o))
			cs = append(cs[:i:i], o[j:]...)
		case 9: // whole property again
			c.Fault("property-duplicated")
			for a := range cs {
				if cs[(i+a)%len(cs)].kind == "pid" {
					a = (i + a) % len(cs)
					z := a + 1
					for z < len(cs) && cs[z].blk == cs[a].blk && cs[z].kind != "pid" {
						z++
					}
					dup := append([]chunk(nil), cs[a:z]...)
					for q := range dup {
						dup[q].b = clone(dup[q].b)
					}
					cs = append(cs[:z:z], append(dup, cs[z:]...)...)
					break
				}
			}
		case 10:
			c.Fault("bytes-appended")
			x := make([]byte, 1+c.Choose(6))
			if c.Bool(1, 60) {
				// a surplus that counters of fewer bits do not see
				x = make([]byte, []int{128, 256, 16384, 32768, 65536, 65536, 2 * 65536}[c.Choose(7)])
			}
			for j := range x {
				if j < 8 {
					x[j] = c.edgeByte()
				}
			}
			cs = append(cs, chunk{"junk", x, 0})
		}
	}
	switch c.Weighted(8, 2, 1, 1) {
	case 1:
		fixProps = false
	case 2:
		fixLen = false
	case 3:
		fixProps, fixLen = false, false
	}
	b := assemble(cs, fixProps, fixLen)
	if c.Bool(1, 40) && len(b) > 1 {
		// length field lies
		c.Fault("length-lie")
		b = append(append([]byte{b[0]}, ref.VarInt(uint32(c.Choose(300)))...), b[2:]...)
	}
	return b
}

// forge replaces a field by an edge value of its kind.
func (c *Ctx) forge(cs []chunk, i int) {
	k := &cs[i]
	c.Fault("forged-" + k.kind)
	switch k.kind {
	case "first":
		if len(k.b) == 0 {
			return
		}
		if c.Choose(3) == 0 {
			k.b[0] = k.b[0]&15 | byte(c.Choose(16))<<4
		} else {
			k.b[0] = k.b[0]&0xF0 | byte(c.Choose(16))
		}
	case "lp":
		if len(k.b) != 2 {
			return
		}
		v := int(k.b[0])<<8 | int(k.b[1])
		v = []int{v + 1, v - 1, 0, 0xFFFF, v + 2, v + 3, v - 2, v + 256, 1}[c.Choose(9)]
		k.b = []byte{byte(v >> 8), byte(v)}
	case "plen":
		v := uint32(0)
		for j, x := range k.b {
			v |= uint32(x&127) << (7 * j)
		}
		k.kind = "plen-forged"
		switch c.Choose(10) {
		case 0:
			k.b = ref.VarInt(v + 1)
		case 1:
			k.b = ref.VarInt(v - 1&0xFFFFFFF)
		case 2:
			k.b = []byte{0}
		case 3:
			k.b = append(ref.VarInt(v), 0)
			k.b[len(k.b)-2] |= 0x80
		case 4:
			k.b = []byte{0xff, 0xff, 0xff, 0xff, 0x7f}
		case 5:
			k.b = []byte{0xff, 0xff, 0xff, 0x7f}
		case 6:
			k.b = []byte{0x80, 0x80, 0x80, 0x80, 0x01}
		case 7:
			k.b = nil
		case 8:
			k.b = ref.VarInt(v + uint32(c.Choose(40)))
		case 9:
			k.b = ref.VarInt(uint32(c.Choose(int(v) + 1)))
		}
	case "pid":
		switch c.Choose(5) {
		case 0, 1, 2:
			k.b = []byte{ref.Props[c.Choose(len(ref.Props))].ID}
		case 3:
			k.b = []byte{[]byte{0, 4, 5, 0x14, 0x1B, 0x20, 0x2B, 0x7F, 0x30}[c.Choose(9)]}
		case 4:
			k.b = [][]byte{{0x80, 0x01}, {0xFF, 0xFF, 0xFF, 0x7F}, {0x80, 0x80, 0x80, 0x80, 0x01}, {0x81, 0x02}}[c.Choose(4)]
		}
	case "str":
		k.b = []byte(badText[c.Choose(len(badText))])
		if c.Choose(3) == 0 {
			// inside a longer text
			k.b = append(append([]byte("ab/"), k.b...), "/z"...)
		}
		if i > 0 && cs[i-1].kind == "lp" && c.Choose(8) != 0 {
			cs[i-1].b = []byte{byte(len(k.b) >> 8), byte(len(k.b))}
		}
	case "byte", "pval":
		if len(k.b) == 0 {
			return
		}
		if len(k.b) == 1 {
			k.b[0] = c.edgeByte()
			return
		}
		fallthrough
	case "short":
		x := []byte{0, 0xFF, 0x80, 1}[c.Choose(4)]
		for j := range k.b {
			k.b[j] = x
		}
	case "payload", "junk":
		k.b = append(k.b, c.edgeByte(), c.edgeByte())
	case "rlen":
		k.b = [][]byte{{0}, {1}, {2}, {0x80, 0x01}, {0xFF, 0xFF, 0xFF, 0x7F}, {0x80, 0x80, 0x80, 0x00}, {0x85, 0x00}}[c.Choose(7)]
	}
}

// hostile draws a damaged packet and hands it to the judge.
func (c *Ctx) hostile(judge func(ver byte, b []byte)) {
	ver := c.ver()
	g := c.gen(false)
	g.Small, g.Mid = !c.Bool(1, 100), true
	p := g.Packet(ver)
	e := c.refEncode(p)
	b := c.mutate(e, ver)
	if c.Bool(1, 12) {
		// the receiver speaks another version
		ver = c.ver()
		c.Fault("version-confusion")
	}
	c.NoteBytes(b)
	c.Note(uint64(ver))
	if c.Logging() {
		c.Logf("from %s", p)
		c.Logf("hostile input for version %d: %x", ver, b[:min(len(b), 400)])
	}
	judge(ver, b)
}

func noise(c *Ctx) {
	ver := c.ver()
	n := c.Weighted(1, 6, 3, 1)
	switch n {
	case 1:
		n = 1 + c.Choose(24)
	case 2:
		n = 1 + c.Choose(150)
	case 3:
		n = 1 + c.Choose(3000)
	}
	b := make([]byte, n)
	x := c.U64()
	for i := range b {
		if i%8 == 0 {
			x = x*6364136223846793005 + 1442695040888963407
		}
		b[i] = byte(x >> (8 * (i % 8)))
		if c.Thorough && i < 32 && c.Choose(4) == 0 {
			b[i] = c.edgeByte()
		}
	}
	if n > 2 && c.Choose(4) != 0 {
		t := 1 + c.Choose(15)
		b[0] = byte(t<<4) | (&ref.Pkt{Type: t}).Flags()
		h := ref.VarInt(uint32(n - 2))
		if len(h) == 1 {
			b[1] = h[0]
		} else if n > 3 {
			h = ref.VarInt(uint32(n - 3))
			copy(b[1:], h)
			if len(h) == 1 {
				b[1] = h[0]
			}
		}
	}
	c.Fault("noise")
	c.NoteBytes(b)
	c.Note(uint64(ver))
	c.safeDecode(ver, b)
}

func hugeClaims(c *Ctx) {
	ver := c.ver()
	var b []byte
	switch c.Choose(5) {
	case 4: // very many times the same bytes
		cs := chunks(c.refEncode((&ref.Gen{S: c.Source, Small: true}).Packet(ver)))
		pat := make([]byte, 1+c.Choose(4))
		for i := range pat {
			pat[i] = c.edgeByte()
			if c.Choose(3) == 0 {
				pat[i] = 0
			}
		}
		i := c.Choose(len(cs))
		if c.Choose(2) == 0 {
			for j := range cs {
				if cs[j].kind == "plen" {
					i = j
				}
			}
		}
		blk := cs[i].blk
		if cs[i].kind == "plen" {
			for j := 0; j <= i; j++ {
				if cs[j].kind == "plen" {
					blk++
				}
			}
		}
		k := chunk{"junk", bytes.Repeat(pat, 500+c.Choose(2500)), blk}
		cs = append(cs[:i+1:i+1], append([]chunk{k}, cs[i+1:]...)...)
		b = assemble(cs, c.Choose(4) > 0, true)
	case 0: // remaining length far beyond the data
		t := 1 + c.Choose(15)
		b = append([]byte{byte(t<<4) | (&ref.Pkt{Type: t}).Flags()}, ref.VarInt([]uint32{268435455, 268435454, 100 << 20, 65536, 2097152}[c.Choose(5)])...)
		b = append(b, (&ref.Gen{S: c.Source}).Bytes(c.Choose(60))...)
	case 1: // property length far beyond the data
		p := (&ref.Gen{S: c.Source, Small: true}).Packet(5)
		cs := chunks(c.refEncode(p))
		for i := range cs {
			if cs[i].kind == "plen" {
				cs[i].b = ref.VarInt([]uint32{268435455, 65535, 100 << 20, 1 << 21}[c.Choose(4)])
				cs[i].kind = "plen-forged"
			}
		}
		ver = 5
		b = assemble(cs, false, true)
	case 2: // string lengths far beyond the data
		p := (&ref.Gen{S: c.Source, Small: true}).Packet(ver)
		cs := chunks(c.refEncode(p))
		for i := range cs {
			if cs[i].kind == "lp" && c.Choose(2) == 0 {
				cs[i].b = []byte{0xFF, 0xFF}
			}
		}
		b = assemble(cs, true, true)
	case 3: // very many tiny items
		k := 200 + c.Choose(3000)
		ver = 5
		var body []byte
		switch c.Choose(3) {
		case 0: // user properties
			p := &ref.Pkt{Type: ref.PUBLISH, Ver: 5, Topic: "t"}
			for i := 0; i < k; i++ {
				p.Props = append(p.Props, ref.Prop{ID: 0x26})
			}
			b = ref.Encode(p, nil).B
		case 1: // subscription identifiers
			p := &ref.Pkt{Type: ref.PUBLISH, Ver: 5, Topic: "t"}
			for i := 0; i < k; i++ {
				p.Props = append(p.Props, ref.Prop{ID: 0x0B, N: 1})
			}
			b = ref.Encode(p, nil).B
		case 2: // topics
			ver = c.ver()
			p := &ref.Pkt{Type: []int{ref.SUBSCRIBE, ref.UNSUBSCRIBE}[c.Choose(2)], Ver: ver, HasID: true, ID: 1}
			for i := 0; i < k; i++ {
				p.Subs = append(p.Subs, ref.Sub{Filter: "t"})
			}
			b = ref.Encode(p, nil).B
		}
		_ = body
		if c.Choose(3) == 0 {
			b[len(b)-1] ^= byte(1 << c.Choose(8))
		}
	}
	c.Fault("huge-claim")
	c.NoteBytes(b)
	c.safeDecode(ver, b)
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocBytes() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

func preciseAlloc(fn func()) uint64 {
	var a, b runtime.MemStats
	best := ^uint64(0)
	for i := 0; i < 3; i++ {
		runtime.ReadMemStats(&a)
		fn()
		runtime.ReadMemStats(&b)
		best = min(best, b.TotalAlloc-a.TotalAlloc)
	}
	return best
}

const slack = 24

// safeDecode judges one Decode of arbitrary bytes.
func (c *Ctx) safeDecode(ver byte, in []byte) { c.safe(ver, in) }

func (c *Ctx) safe(ver byte, in []byte) (mqttp.IFace, int, error) {
	arr := make([]byte, slack+len(in)+slack)
	for i := range arr {
		arr[i] = 0xA5
	}
	copy(arr[slack:], in)
	b := arr[slack : slack+len(in) : len(arr)]
	if c.Choose(3) == 0 {
		b = arr[slack : slack+len(in) : slack+len(in)]
	}
	var m mqttp.IFace
	var n int
	var err error
	s0, a0 := c.Steps(), allocBytes()
	c.Solo(func() { m, n, err = c.decode(ver, b) })
	steps, alloc := c.Steps()-s0, allocBytes()-a0
	if lim := int64(5000 + 200*len(in)); steps > lim {
		c.Fail("work", "%d steps for %d bytes: %s", steps, len(in), hexs(in))
	}
	if lim := uint64(32768 + 256*len(in)); alloc > lim {
		if a := preciseAlloc(func() { c.Solo(func() { lib.Decode(ver, b) }) }); a > lim {
			c.Fail("memory", "%d bytes allocated for an input of %d bytes: %s", a, len(in), hexs(in))
		}
	}
	for i, x := range arr {
		if i >= slack && i < slack+len(in) {
			if x != in[i-slack] {
				c.Fail("input-modified", "byte %d of the input was changed: %s", i-slack, hexs(in))
			}
		} else if x != 0xA5 {
			c.Fail("input-modified", "memory around the input was changed: %s", hexs(in))
		}
	}
	switch {
	case m != nil && err != nil:
		c.Fail("both", "Decode returned a packet and the error %v: %s", err, hexs(in))
	case m == nil && err == nil:
		c.Fail("neither", "Decode returned neither a packet nor an error: %s", hexs(in))
	case m == nil:
		c.Nontrivial = c.Nontrivial || (hdrLen(in) > 0 && frame(in) == len(in))
		c.Probe("rejected")
		return m, n, err
	}
	c.Nontrivial = true
	c.Probe("accepted")
	if n != len(in) {
		c.Fail("unaccounted", "a packet accounts for %d of %d bytes: %s", n, len(in), hexs(in))
	}
	c.again(m, in)
	return m, n, err
}

// again writes a decoded packet and reads it again.
func (c *Ctx) again(m mqttp.IFace, in []byte) {
	var first *ref.Pkt
	var err error
	ver := byte(m.Version())
	c.try("reading a decoded packet", func() { first, err = lib.Observe(m) })
	if err != nil {
		c.Fail("unreadable", "a decoded packet cannot be read: %v: %s", err, hexs(in))
	}
	var out []byte
	c.try("encoding a decoded packet", func() { out, err = lib.Encode(m, c.pk()) })
	if err != nil {
		c.Fail("not-encodable", "a decoded packet cannot be encoded: %v: %s: %s", err, first, hexs(in))
	}
	m2, n2, err := c.decode(ver, clone(out))
	if err != nil || m2 == nil {
		c.Fail("not-decodable", "what a decoded packet was encoded to is rejected with %v: %s: %s from %s", err, first, hexs(out), hexs(in))
	}
	if n2 != len(out) {
		c.Fail("unaccounted", "a packet accounts for %d of %d bytes: %s", n2, len(out), hexs(out))
	}
	var second *ref.Pkt
	c.try("reading a decoded packet", func() { second, err = lib.Observe(m2) })
	if err != nil {
		c.Fail("unreadable", "a decoded packet cannot be read: %v: %s", err, hexs(out))
	}
	if d := ref.Diff(first, second); d != "" {
		c.Fail("unstable", "decoding what a decoded packet was encoded to gives something else: %s: %s: %s from %s", d, first, hexs(out), hexs(in))
	}
	// what the getters do not show
	x, y := ref.Parse(ver, in), ref.Parse(ver, out)
	if x.Pkt != nil && y.Pkt != nil {
		if x.Pkt.HasUser != y.Pkt.HasUser || x.Pkt.HasPass != y.Pkt.HasPass {
			c.Fail("unstable", "credentials flags change: %s from %s", hexs(out), hexs(in))
		}
	}
}

// corruptedStream is a connection whose link damages bytes.
func corruptedStream(c *Ctx) {
	ver := c.ver()
	p := c.newPipe()
	n := 1 + c.Choose(4)
	c.Go("send", func() {
		g := c.gen(false)
		g.Small = true
		for k := 0; k < n; k++ {
			c.Yield()
			b := clone(c.refEncode(g.Packet(ver)).B)
			for d := c.Weighted(2, 3, 1); d > 0; d-- {
				c.Fault("link-corruption")
				b[c.Choose(len(b))] ^= byte(1 + c.Choose(255))
			}
			if c.Bool(1, 8) {
				c.Fault("link-loss")
				i := c.Choose(len(b))
				b = append(b[:i], b[i+c.Choose(len(b)-i):]...)
			}
			c.NoteBytes(b)
			p.Send(b)
		}
		p.Close()
	})
	r := c.Go("recv", func() {
		var buf []byte
		for {
			x, ok := p.Recv()
			if !ok {
				return
			}
			buf = append(buf, x...)
			for len(buf) > 0 {
				m, k, err := c.safe(ver, buf)
				if m == nil && !incomplete(err) && k > 0 && k < len(buf) && frame(buf) == k {
					m, k, err = c.safe(ver, buf[:k])
				}
				if m == nil {
					if incomplete(err) {
						break
					}
					return // connection closed
				}
				buf = clone(buf[k:])
			}
		}
	})
	c.Join(r)
}

// mustReject judges bytes that may break a rule.
func (c *Ctx) mustReject(ver byte, b []byte) {
	v := ref.Parse(ver, b)
	c.Probe("verdict:" + v.Verdict.String())
	if v.Verdict != ref.Illegal {
		return
	}
	c.Nontrivial = true
	m, _, _ := c.decode(ver, clone(b))
	if m != nil {
		c.Fail("accepted", "version %d: %s: accepted as %s: %s", ver, v.Why, m.Type().Name(), hexs(b))
	}
}

// cutRepaired cuts one packet at every position and repairs its length field.
func cutRepaired(c *Ctx) {
	ver := c.ver()
	g := c.gen(false)
	g.Small = true
	p := g.Packet(ver)
	b := c.refEncode(p).B
	h := hdrLen(b)
	c.NoteBytes(b)
	c.Logf("cut: %s", p)
	step := 1 + len(b)/80
	from := c.Choose(step)
	for i := h + from; i < len(b); i += step {
		c.Fault("cut")
		x := append(append([]byte{b[0]}, ref.VarInt(uint32(i-h))...), b[h:i]...)
		c.mustReject(ver, x)
	}
}

// hostileStream hides one broken packet among legal ones.
func hostileStream(c *Ctx) {
	ver := c.ver()
	p := c.newPipe()
	g := c.gen(false)
	g.Small = true
	n := c.Choose(3)
	var legal []*ref.Pkt
	var all []byte
	for i := 0; i < n; i++ {
		q := g.Packet(ver)
		legal = append(legal, q)
		all = append(all, c.refEncode(q).B...)
	}
	var bad []byte
	if c.Choose(2) == 0 {
		bad = c.breakRule(ver, 0)
	} else {
		bad = c.mutate(c.refEncode(g.Packet(ver)), ver)
	}
	if len(bad) < 2 || frame(bad) != len(bad) || ref.Parse(ver, bad).Verdict != ref.Illegal {
		return
	}
	v := ref.Parse(ver, bad)
	all = append(all, bad...)
	if c.Choose(2) == 0 {
		all = append(all, c.refEncode(g.Packet(ver)).B...)
	}
	c.NoteBytes(all)
	c.Fault("hostile-packet")
	c.Go("send", func() {
		p.Send(all)
		p.Close()
	})
	got := 0
	r := c.Go("recv", func() {
		var buf []byte
		for {
			x, ok := p.Recv()
			if !ok {
				return
			}
			buf = append(buf, x...)
			for len(buf) > 0 {
				st := c.next(ver, buf)
				if st.more {
					break
				}
				if st.m == nil {
					if got < n {
						c.Fail("rejected", "a legal packet is rejected with %v: %s", st.err, legal[got])
					}
					return
				}
				if got == n {
					c.Fail("accepted", "version %d: %s: accepted: %s", ver, v.Why, hexs(bad))
				}
				got++
				buf = clone(buf[st.n:])
			}
		}
	})
	c.Join(r)
	c.Nontrivial = got == n
}

func ruleBreak(c *Ctx) {
	ver := c.ver()
	b := c.breakRule(ver, 0)
	if b == nil {
		return
	}
	c.NoteBytes(b)
	c.Note(uint64(ver))
	c.mustReject(ver, b)
}

func (c *Ctx) badString() string {
	return []string{"\xff", "a\xc0\xaf", "\xed\xa0\x80b", "x/\xf4\x90\x80\x80", "\xe2\x82", "\x00", "a\x00b"}[c.Choose(7)]
}

func (c *Ctx) badName() string {
	s := []string{"+", "#", "a/+", "a/#", "+/a", "a#", "a+", "a+b/c", "#/", "x\x00", "\x00"}[c.Choose(11)]
	if c.Choose(3) == 0 {
		return c.badString()
	}
	return s
}

func (c *Ctx) badFilter(ver byte) string {
	if c.Choose(3) == 0 {
		return c.badString()
	}
	l := []string{"", "a#", "a+", "#a", "+a", "a/#/b", "#/a", "a/b#", "a/+b/c", "++", "##", "a/##", "+#", "a\x00", "/a+/", "#/", "#/#"}
	if ver == 5 {
		l = append(l, "$share/", "$share/g", "$share/g/", "$share//a", "$share/+/a", "$share/#/a", "$share/g/a#", "$share/g/#/b", "$share/g+/a", "$share/g/+a")
	}
	return l[c.Choose(len(l))]
}

// breakRule writes a packet, of one type unless t is 0, that breaks one rule.
func (c *Ctx) breakRule(ver byte, t int) []byte {
	g := c.gen(false)
	g.Small = true
	var p *ref.Pkt
	if t == 0 {
		p = g.Packet(ver)
	} else {
		p = g.Of(t, ver)
	}
	v := &ref.Variant{Pick: c.Choose}
	rules := []func() []byte{
		func() []byte { // flags of the fixed header
			b := ref.Encode(p, v).B
			b[0] = b[0]&0xF0 | byte(c.Choose(16))
			return b
		},
		func() []byte { // reserved type
			b := ref.Encode(p, v).B
			if ver < 5 && c.Choose(2) == 0 {
				b[0] = 0xF0
			} else {
				b[0] &= 0x0F
			}
			return b
		},
		func() []byte { // bytes after the end
			b := ref.Encode(p, v).B
			n := 1 + c.Choose(5)
			body := append(clone(b[hdrLen(b):]), (&ref.Gen{S: c.Source}).Bytes(n)...)
			return append(append([]byte{b[0]}, ref.VarInt(uint32(len(body)))...), body...)
		},
	}
	name := []string{"flags", "type", "surplus"}
	add := func(n string, f func() []byte) { name, rules = append(name, n), append(rules, f) }
	enc := func(f func()) func() []byte {
		return func() []byte { f(); return ref.Encode(p, v).B }
	}
	if p.NeedID() {
		add("no-id", enc(func() { p.HasID = false }))
		add("half-id", func() []byte {
			// the packet ends inside its identifier
			b := ref.Encode(p, v)
			for _, f := range b.Fields {
				if f.Kind == "short" {
					x := b.B[hdrLen(b.B) : f.Off+c.Choose(2)]
					return append(append([]byte{b.B[0]}, ref.VarInt(uint32(len(x)))...), x...)
				}
			}
			return b.B
		})
	}
	badReason := func() {
		for {
			x := byte(c.Choose(256))
			if c.Choose(2) == 0 {
				x = c.edgeByte()
			}
			if !ref.CodeOK(p.Type, x) {
				p.Reason = x
				return
			}
		}
	}
	switch p.Type {
	case ref.PUBLISH:
		add("qos3", func() []byte { b := ref.Encode(p, v).B; b[0] |= 6; return b })
		add("dup", enc(func() { p.QoS, p.HasID, p.Dup = 0, false, true }))
		add("topic", enc(func() { p.Topic = c.badName() }))
		add("no-topic", enc(func() {
			p.Topic = ""
			var ps []ref.Prop
			for _, x := range p.Props {
				if x.ID != 0x23 {
					ps = append(ps, x)
				}
			}
			p.Props = ps
		}))
	case ref.CONNACK:
		add("connack-flags", func() []byte {
			e := ref.Encode(p, v)
			for _, f := range e.Fields {
				if f.Kind == "byte" {
					e.B[f.Off] |= 1 << (1 + c.Choose(7))
					break
				}
			}
			return e.B
		})
		add("reason", enc(badReason))
	case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.DISCONNECT, ref.AUTH:
		if ver == 5 {
			add("reason", enc(badReason))
			add("reason", enc(badReason))
		}
	case ref.SUBACK, ref.UNSUBACK:
		if ver == 5 || p.Type == ref.SUBACK {
			add("codes", enc(func() {
				badReason()
				if len(p.Codes) == 0 {
					p.Codes = []byte{0}
				}
				if ver < 5 {
					p.Reason = []byte{3, 4, 0x7F, 0x81, 0x87, 0xFF, 0x82}[c.Choose(7)]
				}
				p.Codes[c.Choose(len(p.Codes))] = p.Reason
			}))
		}
	case ref.SUBSCRIBE, ref.UNSUBSCRIBE:
		add("filter", enc(func() { p.Subs[c.Choose(len(p.Subs))].Filter = c.badFilter(ver) }))
		add("filter", enc(func() { p.Subs[c.Choose(len(p.Subs))].Filter = c.badFilter(ver) }))
		add("no-filter", enc(func() { p.Subs = nil }))
		if p.Type == ref.SUBSCRIBE {
			add("options", enc(func() {
				s := &p.Subs[c.Choose(len(p.Subs))]
				s.Opts = byte(c.Choose(256))
				if c.Choose(4) == 0 {
					s.Filter, s.Opts = "$share/g/"+g.Text(1), 4|byte(c.Choose(3))
				}
			}))
			add("options", enc(func() {
				p.Subs[c.Choose(len(p.Subs))].Opts |= []byte{3, 0x30, 0x40, 0x80, 0xC0, 0x04, 0x08, 0x10}[c.Choose(8)]
			}))
		}
	case ref.CONNECT:
		patch := func(f func(flags *byte, level *byte, name []byte)) func() []byte {
			return func() []byte {
				e := ref.Encode(p, v)
				var at []int
				str := []byte(nil)
				for _, x := range e.Fields {
					if x.Kind == "byte" {
						at = append(at, x.Off)
					}
					if x.Kind == "str" && str == nil {
						str = e.B[x.Off : x.Off+x.Len]
					}
				}
				f(&e.B[at[1]], &e.B[at[0]], str)
				return e.B
			}
		}
		add("connect-flags", patch(func(f, _ *byte, _ []byte) { *f |= 1 }))
		add("connect-flags", patch(func(f, _ *byte, _ []byte) { *f ^= 1 << c.Choose(8) }))
		add("will-flags", patch(func(f, _ *byte, _ []byte) { *f = *f&^4 | []byte{8, 16, 24, 32, 0x28}[c.Choose(5)] }))
		add("will-qos", enc(func() {
			if p.Will == nil {
				p.Will = &ref.Will{Topic: "w", Payload: []byte("x")}
			}
			p.Will.QoS = 3
		}))
		add("level", patch(func(_, l *byte, _ []byte) { *l = []byte{0, 1, 2, 3, 4, 5, 6, 0x83, 0x84, 255}[c.Choose(10)] }))
		add("name", patch(func(_, _ *byte, n []byte) { n[c.Choose(len(n))] ^= byte(1 << c.Choose(8)) }))
		add("no-user", enc(func() { p.HasUser, p.User, p.HasPass, p.Pass = false, nil, true, []byte("p") }))
		add("user-utf8", enc(func() { p.HasUser, p.User = true, []byte(c.badString()) }))
		add("client-utf8", enc(func() { p.ClientID = []byte(c.badString()) }))
		add("no-client", enc(func() { p.ClientID, p.Clean = nil, false }))
		add("will-topic", enc(func() {
			if p.Will == nil {
				p.Will = &ref.Will{Topic: "w", Payload: []byte("x")}
			}
			p.Will.Topic = c.badName()
			if c.Choose(4) == 0 {
				p.Will.Topic = ""
			}
		}))
	}
	if ver == 5 {
		where := []struct {
			t  int
			ps *[]ref.Prop
		}{{p.Type, &p.Props}}
		if p.Type == ref.PINGREQ || p.Type == ref.PINGRESP {
			where = nil
		}
		if p.Will != nil {
			where = append(where, where[0])
			where[1].t, where[1].ps = ref.WILL, &p.Will.Props
		}
		if len(where) > 0 {
			w := where[c.Choose(len(where))]
			valid := func(d *ref.PropDef) ref.Prop {
				if c.Choose(4) == 3 {
					return ref.Prop{ID: d.ID} // zero or empty
				}
				return g.PropVal(d)
			}
			add("prop-type", enc(func() {
				for {
					d := &ref.Props[c.Choose(len(ref.Props))]
					if !d.Allowed(w.t) {
						*w.ps = append(*w.ps, valid(d))
						return
					}
				}
			}))
			add("prop-repeat", enc(func() {
				ds := ref.PropsFor(w.t)
				var l []*ref.PropDef
				for _, d := range ds {
					if !d.Repeats(w.t) {
						l = append(l, d)
					}
				}
				if len(l) == 0 {
					return
				}
				d := l[c.Choose(len(l))]
				x := valid(d)
				y := x
				if c.Choose(2) == 1 {
					y = valid(d)
				}
				*w.ps = append(*w.ps, x, y)
				if c.Choose(2) == 0 {
					*w.ps = append(*w.ps, ref.Prop{ID: 0x26, K: "k", S: "v"})
				}
			}))
			add("prop-unknown", enc(func() {
				*w.ps = append(*w.ps, ref.Prop{ID: []byte{0, 4, 5, 6, 7, 0x0A, 0x0C, 0x10, 0x14, 0x1B, 0x1D, 0x1E, 0x20, 0x2B, 0x7F}[c.Choose(15)], N: uint32(c.Choose(2))})
			}))
			add("prop-utf8", enc(func() {
				var l []*ref.PropDef
				for _, d := range ref.PropsFor(w.t) {
					if d.Kind == ref.KStr || d.Kind == ref.KPair {
						l = append(l, d)
					}
				}
				if len(l) == 0 {
					return
				}
				d := l[c.Choose(len(l))]
				x := valid(d)
				if d.Kind == ref.KPair && c.Choose(2) == 0 {
					x.K = c.badString()
				} else {
					x.S = c.badString()
				}
				*w.ps = append(*w.ps, x)
			}))
			add("prop-length", func() []byte {
				cs := chunks(ref.Encode(p, v))
				var at []int
				for i := range cs {
					if cs[i].kind == "plen" {
						at = append(at, i)
					}
				}
				if len(at) == 0 {
					return nil
				}
				i := at[c.Choose(len(at))]
				x := uint32(0)
				for j, y := range cs[i].b {
					x |= uint32(y&127) << (7 * j)
				}
				d := uint32(1 + c.Choose(6))
				if c.Choose(2) == 0 && x >= d {
					x -= d
				} else {
					x += d
				}
				cs[i].b = ref.VarInt(x)
				return assemble(cs, false, true)
			})
		}
	}
	i := c.Choose(len(rules))
	b := rules[i]()
	c.Fault("broken:" + name[i])
	if c.Logging() {
		c.Logf("rule %s broken in %s: %x", name[i], p, b[:min(len(b), 400)])
	}
	return bytes.Clone(b)
}
