package ref

import (
	"fmt"

	"verif/simrt"
)

// Gen draws legal packets.
type Gen struct {
	S *simrt.Source
	// ForLib restricts contents to those the library's construction API can
	// express (non-empty will payload and credentials)
	ForLib bool
	// Small avoids long fields
	Small bool
	// Mid avoids packets of megabytes
	Mid bool
	// Tag makes payloads distinguishable
	Tag byte
}

var runes = []rune{'a', 'b', 'z', 'A', 'Z', '0', '9', ' ', '-', '_', '.', '$', '~', '!', '"', '\\', 0xE9, 0x3B1, 0x6F22, 0xFFE5, 0xFEFF, 0x1F600, 0x10348, 0xA0, 0x7FF, 0x800, 0x10000}

// Text makes n bytes or slightly fewer of UTF-8 text.
func (g *Gen) Text(n int) string {
	if n == 0 {
		return ""
	}
	b := make([]byte, 0, n)
	tail := ""
	if g.S.Bool(1, 10) {
		m := textMarkers[g.S.Choose(len(textMarkers))]
		if w := g.S.Choose(3); 2*len(m) <= n {
			if w != 1 {
				b = append(b, m...)
			}
			if w != 0 {
				tail = m
				n -= len(m)
			}
		}
	}
	return string(g.text(b, n)) + tail
}

// text extends b to n bytes.
func (g *Gen) text(b []byte, n int) []byte {
	kind := g.S.Choose(4)
	x := uint64(g.S.Choose(1 << 16))
	from := len(b)
	if kind < 2 {
		for len(b) < n {
			b = append(b, byte('a'+(int(x)+len(b))%26))
		}
		if kind == 1 {
			// texts that differ in one place only
			for i := from; i < n; i++ {
				b[i] = byte('a' + i%26)
			}
			if from < n {
				b[from+int(x>>8)%(n-from)] = byte('0' + x%10)
			}
		}
		return b
	}
	for len(b) < n {
		x = simrt.Mix(x, uint64(len(b)))
		r := runes[x%uint64(len(runes))]
		e := []byte(string(r))
		if len(b)+len(e) > n {
			b = append(b, 'x')
			continue
		}
		b = append(b, e...)
	}
	return b
}

// Bytes makes n arbitrary bytes.
func (g *Gen) Bytes(n int) []byte {
	b := make([]byte, n)
	if n == 0 {
		return b
	}
	kind := g.S.Choose(4)
	x := uint64(g.S.Choose(1 << 16))
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			b[i] = byte('a' + i%26)
		case 1:
			b[i] = byte(i) + byte(x)
		case 2:
			b[i] = 0xff
		default:
			if i%8 == 0 {
				x = simrt.Mix(x, uint64(i))
			}
			b[i] = byte(x >> (8 * (i % 8)))
		}
	}
	if kind == 0 && x&1 == 1 {
		// contents that differ in one place only
		b[int(x>>5)%n] ^= byte(x >> 1)
	}
	if g.S.Bool(1, 10) {
		// contents that text tools, compressors and parsers give a meaning to
		m := markers[g.S.Choose(len(markers))]
		if w := g.S.Choose(3); len(m) <= n {
			if w != 1 {
				copy(b, m)
			}
			if w != 0 {
				copy(b[n-len(m):], m)
			}
		}
	}
	b[0] ^= g.Tag
	return b
}

var markers = []string{"\xEF\xBB\xBF", "\xFF\xFE", "\xFE\xFF", "\x1F\x8B", "\x00", "\x00\x00", "\n", "\r\n", " ", "  ", "\t", "\"", "'", "{", "[", "}", "]", "\x1b", "MQTT", "\x00\x04MQTT", "null", "\xC0\x80", "\xED\xA0\x80", "\x80", "\x7F", "%s", "$", "#", "+", "/", "\\", "=", "==", "\x00\x00\x00\x00", "\xFF\xFF\xFF\xFF"}

// the same within what a text may hold
var textMarkers = []string{"\uFEFF", " ", "  ", "\"", "'", "{", "[", "}", "]", "MQTT", "null", "%s", "%", "\\", "=", "==", "*", "..", ".", "\u00A0", "\u2028", "\u200B", "-", "_", "0", "00", "e\u0301", "\uFB01", "\u212B", "\uFFFD", "\u0130"}

// Len draws a length in [lo,65535].
func (g *Gen) Len(lo int) int {
	r := g.S
	var n int
	switch r.Weighted(40, 12, 4, 2, 1) {
	case 0:
		n = lo + r.Choose(8)
	case 1:
		n = lo + r.Choose(40)
	case 2:
		n = 120 + r.Choose(16)
	case 3:
		n = 250 + r.Choose(12)
	case 4:
		if g.Small {
			n = lo + r.Choose(300)
		} else {
			n = 1000
			switch r.Choose(8) {
			case 6:
				n = 256 << r.Choose(8)
				n += r.Choose(n)
				n = min(n, 65535)
			case 7:
				// powers of two and around
				n = min(256<<r.Choose(9)+r.Choose(3)-1, 65535)
			default:
				n = []int{65535, 65534, 32768, 32767, 16383, 16384}[r.Choose(6)]
			}
		}
	}
	return n
}

// Topic draws a legal topic name.
func (g *Gen) Topic() string {
	r := g.S
	switch r.Weighted(6, 4, 3, 1, 1, 1, 3) {
	case 6:
		// of many devices of one kind
		return fmt.Sprintf("%s%0*d%s", []string{"d/", "devices/", ""}[r.Choose(3)], 1+r.Choose(6), r.Choose(1<<r.Choose(17)), []string{"/state", "/s", ""}[r.Choose(3)])
	case 0:
		return []string{"a", "a/b", "/", "a//b", "/a", "a/", "$SYS/x", "sensors/1/temp"}[r.Choose(8)]
	case 1:
		return g.Text(1 + r.Choose(12))
	case 2:
		return g.Text(1+r.Choose(6)) + "/" + g.Text(r.Choose(6))
	case 3:
		return g.Text(g.Len(1))
	case 5:
		return g.levels()
	}
	return "$share/g/" + g.Text(1+r.Choose(5))
}

// levels draws a topic of several levels.
func (g *Gen) levels() string {
	n := 2 + g.S.Choose(6)
	if g.S.Choose(8) == 7 {
		n = 40
	}
	var b []byte
	for i := 0; i < n; i++ {
		if i > 0 {
			b = append(b, '/')
		}
		if k := g.S.Choose(4); k > 0 {
			b = append(b, g.Text(k*k)...)
		}
	}
	return string(b)
}

// ClientID makes a client identifier of characters that the library documents
// to accept.
func (g *Gen) ClientID(n int) []byte {
	if n == 0 {
		return nil
	}
	set := "abcXYZ0189"
	x := n
	if g.S.Bool(1, 4) {
		set = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -_,.|/"
		x = g.S.Choose(len(set))
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = set[(i*7+x)%len(set)]
	}
	return b
}

// Filter draws a legal topic filter.
func (g *Gen) Filter(ver byte) string {
	r := g.S
	switch r.Weighted(6, 4, 3, 2, 1, 1) {
	case 0:
		return []string{"a", "#", "+", "a/#", "+/+", "a/+/b", "/", "a//+", "+/a/#", "/#", "/+", "$SYS/#", "$SYS/+/x", "//"}[r.Choose(14)]
	case 1:
		return g.nodollar(g.Text(1 + r.Choose(20)))
	case 2:
		return g.nodollar(g.Text(1+r.Choose(4))) + "/+/" + g.Text(r.Choose(4))
	case 3:
		if ver == 5 {
			n := 1 + r.Choose(6)
			if r.Bool(1, 8) {
				n = min(g.Len(1), 60000)
			}
			return "$share/" + g.nodollar(g.Text(n)) + "/" + []string{"a", "#", "a/+", "+/b/#", "/", "/x"}[r.Choose(6)]
		}
		return g.nodollar(g.Text(1+r.Choose(4))) + "/#"
	case 5:
		s := g.levels()
		switch r.Choose(4) {
		case 0:
			s += "/#"
		case 1:
			s = "+/" + s + "/+"
		}
		return g.nodollar(s)
	}
	return g.nodollar(g.Text(g.Len(1)))
}

func (g *Gen) nodollar(s string) string {
	if s != "" && s[0] == '$' {
		return "d" + s[1:]
	}
	return s
}

// num draws one of the values, the last of which is the greatest allowed, or
// any number between one and that.
func (g *Gen) num(vs []uint32) uint32 {
	i := g.S.Choose(len(vs) + 3)
	if i < len(vs) {
		return vs[i]
	}
	max := uint64(vs[len(vs)-1])
	v := simrt.Mix(uint64(g.S.Choose(1<<20)), 77)
	switch i - len(vs) {
	case 0:
		v &= 0xff
	case 1:
		v &= 0xffff
	}
	return uint32(1 + v%max)
}

// PropVal draws a legal value.
func (g *Gen) PropVal(d *PropDef) Prop {
	r := g.S
	p := Prop{ID: d.ID}
	switch d.Kind {
	case KByte:
		p.N = uint32(r.Choose(2))
	case KShort:
		p.N = g.num([]uint32{1, 2, 127, 128, 255, 256, 32767, 32768, 65535})
		if (d.ID == 0x13 || d.ID == 0x22) && p.N == 2 {
			p.N = 0 // keep alive and alias maximum may be none
		}
	case KInt:
		p.N = g.num([]uint32{1, 0, 127, 128, 255, 256, 65535, 65536, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1})
		if d.ID == 0x27 && p.N == 0 {
			p.N = 10
		}
	case KVar:
		p.N = g.num([]uint32{1, 2, 127, 128, 16383, 16384, 2097151, 2097152, 268435455})
	case KStr:
		p.S = g.Text(g.Len(0))
		if d.ID == 0x08 {
			p.S = g.Topic()
		}
	case KBin:
		p.S = string(g.Bytes(g.Len(0)))
	case KPair:
		p.K, p.S = g.Text(g.Len(0)), g.Text(g.Len(0))
	}
	return p
}

// PropSet draws legal properties for a packet type.
func (g *Gen) PropSet(t int) []Prop {
	r := g.S
	var ps []Prop
	defs := PropsFor(t)
	if len(defs) == 0 {
		return nil
	}
	var n int
	switch r.Weighted(3, 4, 2, 1) {
	case 0:
		return nil
	case 1:
		n = 1 + r.Choose(2)
	case 2:
		n = 1 + r.Choose(len(defs))
	case 3:
		n = len(defs)
	}
	start := r.Choose(len(defs))
	for i := 0; i < n && i < len(defs); i++ {
		d := defs[(start+i)%len(defs)]
		k := 1
		if d.Repeats(t) {
			k = 1 + r.Weighted(4, 3, 2, 1)
			if k == 4 && r.Choose(8) == 7 {
				k = []int{40, 40, 130, 300}[r.Choose(4)]
				if k == 300 && g.plenty() {
					ps = append(ps, g.manyProps(d)...)
					continue
				}
			}
		}
		g2 := *g
		if k > 4 {
			g2.Small = true
		}
		for j := 0; j < k; j++ {
			ps = append(ps, g2.PropVal(d))
		}
	}
	// method belongs to data
	hasD, hasM := false, false
	for _, p := range ps {
		hasD = hasD || p.ID == 0x16
		hasM = hasM || p.ID == 0x15
	}
	if hasD && !hasM {
		ps = append(ps, Prop{ID: 0x15, S: "m"})
	}
	if r.Bool(1, 12) {
		ps = g.padProps(t, ps)
	}
	return ps
}

// plenty decides for a list of thousands.
func (g *Gen) plenty() bool { return !g.Small && !g.Mid && g.S.Choose(6) == 5 }

func (g *Gen) count() int {
	return []int{512, 1000, 1024, 2048, 4096}[g.S.Choose(5)] + g.S.Choose(5) - 2
}

func (g *Gen) manyProps(d *PropDef) (ps []Prop) {
	n, x := g.count(), uint64(g.S.Choose(1<<16))
	for i := 0; i < n; i++ {
		p := Prop{ID: d.ID}
		v := simrt.Mix(x, uint64(i))
		if d.Kind == KPair {
			p.K, p.S = fmt.Sprintf("k%d", v%64), fmt.Sprint(i)
		} else {
			p.N = 1 + uint32(v>>(36+v%20))
		}
		ps = append(ps, p)
	}
	return ps
}

func propLen(ps []Prop) int {
	e := w{}
	e.props(ps, nil)
	n := 0
	for _, f := range e.f {
		if f.Kind == "plen" {
			n = len(e.b) - f.Len
		}
	}
	return n
}

// padProps adds a user property that brings the property length to a boundary
// of its length field.
func (g *Gen) padProps(t int, ps []Prop) []Prop {
	if !PropByID[0x26].Allowed(t) {
		return ps
	}
	targets := []int{127, 128, 126, 129, 16383, 16384, 16382}
	k := len(targets)
	if g.Small {
		k = 4
	}
	want := targets[g.S.Choose(k)]
	need := want - propLen(ps) - 5
	if need < 0 || need > 65535 {
		return ps
	}
	return append(ps, Prop{ID: 0x26, K: "", S: g.Text(need)})
}

// RemLen of a packet in its first form.
func RemLen(p *Pkt) int {
	e := Encode(p, nil)
	for _, f := range e.Fields {
		if f.Kind == "rlen" {
			return len(e.B) - 1 - f.Len
		}
	}
	return 0
}

// Types lists the packet types of a version.
func Types(ver byte) []int {
	n := DISCONNECT
	if ver == 5 {
		n = AUTH
	}
	var r []int
	for i := CONNECT; i <= n; i++ {
		r = append(r, i)
	}
	return r
}

// Packet draws a packet of any type.
func (g *Gen) Packet(ver byte) *Pkt {
	// weights favour the types with most structure
	wt := []int{0, 4, 2, 8, 2, 1, 1, 1, 4, 3, 3, 2, 1, 1, 2, 2}
	ts := Types(ver)
	ws := make([]int, len(ts))
	for i, t := range ts {
		ws[i] = wt[t]
	}
	return g.Of(ts[g.S.Weighted(ws...)], ver)
}

func (g *Gen) id() uint16 {
	return uint16(g.num([]uint32{1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535}))
}

// Of draws a packet of the given type.
func (g *Gen) Of(t int, ver byte) *Pkt {
	r := g.S
	p := &Pkt{Type: t, Ver: ver}
	v5 := ver == 5
	if v5 && t != PINGREQ && t != PINGRESP {
		p.Props = g.PropSet(t)
	}
	switch t {
	case CONNECT:
		p.Clean = r.Choose(2) == 0
		p.KeepAlive = uint16(g.num([]uint32{0, 1, 60, 255, 256, 32768, 65535}))
		n := 1 + r.Choose(23)
		if r.Bool(1, 6) {
			n = 0
		}
		if n == 0 && ver < 5 {
			p.Clean = true
			if ver == 3 {
				n = 1
			}
		}
		if n > 0 && ver > 3 && r.Bool(1, 8) {
			n = g.Len(1)
		}
		p.ClientID = g.ClientID(n)
		if r.Bool(1, 2) {
			w := &Will{Topic: g.Topic(), QoS: byte(r.Choose(3)), Retain: r.Choose(2) == 1}
			lo := 0
			if g.ForLib {
				lo = 1
			}
			w.Payload = g.Bytes(g.Len(lo))
			if v5 {
				w.Props = g.PropSet(WILL)
			}
			p.Will = w
		}
		lo := 0
		if g.ForLib {
			lo = 1
		}
		if r.Bool(1, 2) {
			p.HasUser = true
			p.User = []byte(g.Text(g.Len(lo)))
		}
		if (p.HasUser || v5) && r.Bool(1, 2) {
			p.HasPass = true
			p.Pass = g.Bytes(g.Len(lo))
		}
	case CONNACK:
		if v5 {
			p.Reason = Codes5[CONNACK][r.Choose(len(Codes5[CONNACK]))]
		} else {
			p.Reason = byte(r.Choose(6))
		}
		if p.Reason == 0 && ver > 3 {
			p.SP = r.Choose(2) == 1
		}
	case PUBLISH:
		p.QoS = byte(r.Choose(3))
		p.Retain = r.Choose(2) == 1
		if p.QoS > 0 {
			p.Dup = r.Choose(2) == 1
			p.HasID, p.ID = true, g.id()
		}
		p.Topic = g.Topic()
		if v5 {
			for _, x := range p.Props {
				if x.ID == 0x23 && r.Choose(3) == 2 {
					p.Topic = ""
				}
			}
		}
		switch r.Weighted(20, 6, 3, 1) {
		case 0:
			p.Payload = g.Bytes(r.Choose(24))
		case 1:
			p.Payload = g.Bytes(g.Len(0))
		case 2, 3:
			g.fit(p)
		}
	case PUBACK, PUBREC, PUBREL, PUBCOMP:
		p.HasID, p.ID = true, g.id()
		if v5 {
			p.Reason = Codes5[t][r.Choose(len(Codes5[t]))]
		}
	case SUBSCRIBE, UNSUBSCRIBE:
		p.HasID, p.ID = true, g.id()
		n := 1 + r.Weighted(4, 3, 2, 2, 1, 1, 1)
		if n == 7 {
			n = []int{7, 7, 7, 7, 7, 100, 256}[r.Choose(7)] + r.Choose(40)
			if n > 256 && g.plenty() {
				x := uint64(r.Choose(1 << 16))
				for i, n := 0, g.count(); i < n; i++ {
					s := Sub{Filter: fmt.Sprintf("%d/+", i)}
					if t == SUBSCRIBE {
						s.Opts = byte(simrt.Mix(x, uint64(i)) % 3)
					}
					p.Subs = append(p.Subs, s)
				}
				break
			}
		}
		for i := 0; i < n; i++ {
			s := Sub{Filter: g.Filter(ver)}
			if n > 4 {
				g2 := *g
				g2.Small = true
				s.Filter = g2.Filter(ver)
			}
			if t == SUBSCRIBE {
				s.Opts = byte(r.Choose(3))
				if v5 {
					s.Opts |= byte(r.Choose(2))<<3 | byte(r.Choose(3))<<4
					if len(s.Filter) < 7 || s.Filter[:7] != "$share/" {
						s.Opts |= byte(r.Choose(2)) << 2
					}
				}
			}
			p.Subs = append(p.Subs, s)
		}
	case SUBACK, UNSUBACK:
		p.HasID, p.ID = true, g.id()
		n := 1 + r.Weighted(4, 2, 2, 1, 1)
		if n == 5 {
			n = []int{100, 100, 240}[r.Choose(3)] + r.Choose(60)
			if n >= 240 && (t == SUBACK || v5) && g.plenty() {
				n = g.count()
				if r.Choose(4) == 3 {
					n *= 16
				}
				x := uint64(r.Choose(1 << 16))
				codes := []byte{0, 1, 2, 0x80}
				if v5 {
					codes = Codes5[t]
				} else if ver == 3 {
					codes = codes[:3]
				}
				for i := 0; i < n; i++ {
					p.Codes = append(p.Codes, codes[simrt.Mix(x, uint64(i))%uint64(len(codes))])
				}
				break
			}
		}
		if t == UNSUBACK && !v5 {
			n = 0
		}
		for i := 0; i < n; i++ {
			if v5 {
				p.Codes = append(p.Codes, Codes5[t][r.Choose(len(Codes5[t]))])
			} else if ver == 3 {
				p.Codes = append(p.Codes, byte(r.Choose(3)))
			} else {
				p.Codes = append(p.Codes, []byte{0, 1, 2, 0x80}[r.Choose(4)])
			}
		}
	case DISCONNECT, AUTH:
		if v5 {
			p.Reason = Codes5[t][r.Choose(len(Codes5[t]))]
		}
	}
	return p
}

// fit sizes the payload so that the remaining length is at a boundary of its
// variable length encoding.
func (g *Gen) fit(p *Pkt) {
	ts := []int{127, 128, 126, 16383, 16384, 129, 16382, 40000, 65535, 65536, 70000, 140000, 2097151, 2097152}
	k := len(ts)
	if g.Small {
		k = 3
	} else if g.Mid || g.S.Choose(12) != 11 {
		k = 12
	}
	want := ts[g.S.Choose(k)]
	p.Payload = nil
	n := want - RemLen(p)
	if n < 0 {
		n = 0
	}
	if n > 1<<20 {
		p.Payload = make([]byte, n)
		p.Payload[0], p.Payload[n-1] = 1, 2
		return
	}
	p.Payload = g.Bytes(n)
}
