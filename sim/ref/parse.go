package ref

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// Verdict of the independent parser.
type Verdict int

// Verdicts. A packet is ambiguous where the standards leave room (SHOULD NOT
// rules, server policy) or differ in ways the library's documentation allows.
const (
	Legal Verdict = iota
	Ambiguous
	Illegal
)

func (v Verdict) String() string { return [...]string{"legal", "ambiguous", "illegal"}[v] }

// Parsed is the parser's result.
type Parsed struct {
	Verdict Verdict
	Why     string
	Pkt     *Pkt // nil when the structure is broken
}

type rd struct {
	b   []byte
	o   int
	ill string
	amb string
	err bool // structure broken
}

func (r *rd) bad(f string, a ...any) {
	if r.ill == "" {
		r.ill = fmt.Sprintf(f, a...)
	}
}
func (r *rd) may(f string, a ...any) {
	if r.amb == "" {
		r.amb = fmt.Sprintf(f, a...)
	}
}
func (r *rd) broken(f string, a ...any) {
	r.bad(f, a...)
	r.err = true
}
func (r *rd) left() int { return len(r.b) - r.o }
func (r *rd) byte(what string) byte {
	if r.err {
		return 0
	}
	if r.left() < 1 {
		r.broken("%s: no byte left", what)
		return 0
	}
	r.o++
	return r.b[r.o-1]
}
func (r *rd) short(what string) uint16 {
	if r.err {
		return 0
	}
	if r.left() < 2 {
		r.broken("%s: two bytes needed, %d left", what, r.left())
		return 0
	}
	r.o += 2
	return uint16(r.b[r.o-2])<<8 | uint16(r.b[r.o-1])
}
func (r *rd) int(what string) uint32 {
	h := r.short(what)
	l := r.short(what)
	return uint32(h)<<16 | uint32(l)
}
func (r *rd) varint(what string) uint32 {
	if r.err {
		return 0
	}
	var x uint32
	for i := 0; i < 4; i++ {
		if r.left() < 1 {
			r.broken("%s: variable byte integer cut short", what)
			return 0
		}
		c := r.b[r.o]
		r.o++
		x |= uint32(c&127) << (7 * i)
		if c&128 == 0 {
			if i > 0 && c == 0 {
				r.may("%s: variable byte integer is not minimal", what)
			}
			return x
		}
	}
	r.broken("%s: variable byte integer longer than four bytes", what)
	return 0
}
func (r *rd) lp(what string) []byte {
	n := int(r.short(what))
	if r.err {
		return nil
	}
	if r.left() < n {
		r.broken("%s: length %d, %d left", what, n, r.left())
		return nil
	}
	r.o += n
	return r.b[r.o-n : r.o]
}

func (r *rd) str(what string) string {
	b := r.lp(what)
	r.text(what, string(b))
	return string(b)
}

func (r *rd) text(what, s string) {
	if !utf8.ValidString(s) {
		r.bad("%s: not UTF-8", what)
		return
	}
	for _, c := range s {
		if c == 0 {
			r.bad("%s: null character", what)
		}
		if c < 0x20 || (c >= 0x7f && c <= 0x9f) {
			r.may("%s: control character", what)
		}
		if c&0xfffe == 0xfffe || (c >= 0xfdd0 && c <= 0xfdef) {
			r.may("%s: non-character", what)
		}
	}
}

func (r *rd) props(t int) []Prop {
	n := int(r.varint("property length"))
	if r.err {
		return nil
	}
	if n > r.left() {
		r.broken("property length %d exceeds the packet", n)
		return nil
	}
	in := &rd{b: r.b[r.o : r.o+n]}
	r.o += n
	var ps []Prop
	seen := map[byte]bool{}
	for in.left() > 0 && !in.err {
		id := in.varint("property id")
		if in.err {
			break
		}
		d := PropByID[byte(id)]
		if d == nil || id > 255 {
			in.broken("unknown property %#x", id)
			break
		}
		if !d.Allowed(t) {
			in.bad("property %#x not allowed in %s", id, TypeNames[t])
		}
		if seen[d.ID] && !d.Repeats(t) {
			in.bad("property %#x repeats", id)
		}
		seen[d.ID] = true
		p := Prop{ID: d.ID}
		what := fmt.Sprintf("property %#x", id)
		switch d.Kind {
		case KByte:
			p.N = uint32(in.byte(what))
			if p.N > 1 {
				in.may("%s value %d", what, p.N)
			}
		case KShort:
			p.N = uint32(in.short(what))
			if p.N == 0 && (d.ID == 0x21 || d.ID == 0x23) {
				in.may("%s value 0", what)
			}
		case KInt:
			p.N = in.int(what)
			if p.N == 0 && d.ID == 0x27 {
				in.may("%s value 0", what)
			}
		case KVar:
			p.N = in.varint(what)
			if p.N == 0 {
				in.may("%s value 0", what)
			}
		case KStr:
			p.S = in.str(what)
			if d.ID == 0x08 && (strings.ContainsAny(p.S, "+#") || p.S == "") {
				in.may("response topic with wildcards or empty")
			}
		case KBin:
			p.S = string(in.lp(what))
		case KPair:
			p.K = in.str(what)
			p.S = in.str(what)
		}
		ps = append(ps, p)
	}
	if in.ill != "" {
		r.bad("%s", in.ill)
	}
	if in.amb != "" {
		r.may("%s", in.amb)
	}
	r.err = r.err || in.err
	if seen[0x16] && !seen[0x15] {
		r.may("authentication data without method")
	}
	return ps
}

// topicName checks a topic name.
func (r *rd) topicName(what, s string) {
	r.text(what, s)
	if strings.ContainsAny(s, "+#") {
		r.bad("%s: wildcard in topic name", what)
	}
	if strings.IndexByte(s, 0) >= 0 {
		r.bad("%s: null character", what)
	}
}

// FilterOK tells whether wildcards in a filter are placed as the standard says.
func FilterOK(f string) bool {
	if f == "" {
		return false
	}
	lv := strings.Split(f, "/")
	for i, l := range lv {
		if strings.Contains(l, "#") && (l != "#" || i != len(lv)-1) {
			return false
		}
		if strings.Contains(l, "+") && l != "+" {
			return false
		}
	}
	return true
}

func (r *rd) filter(ver byte, s string) (shared bool) {
	r.text("topic filter", s)
	if s == "" {
		r.bad("empty topic filter")
		return
	}
	if strings.IndexByte(s, 0) >= 0 {
		r.bad("topic filter: null character")
	}
	if !FilterOK(s) {
		r.bad("topic filter: misplaced wildcard in %q", s)
	}
	if s == "$share" || strings.HasPrefix(s, "$share/") {
		parts := strings.SplitN(s, "/", 3)
		ok := len(parts) == 3 && parts[1] != "" && !strings.ContainsAny(parts[1], "+#") && FilterOK(parts[2])
		switch {
		case ver == 5 && !ok && s != "$share":
			r.bad("malformed shared subscription %q", s)
		case !ok:
			r.may("shared subscription form")
		}
		shared = true
	} else if s[0] == '$' && !strings.Contains(s, "/") {
		r.may("$-topic of a single level")
	}
	return
}

// Parse reads one whole packet received on a connection that speaks version
// ver (a CONNECT carries its own version).
func Parse(ver byte, b []byte) Parsed {
	r := &rd{b: b}
	p := &Pkt{Ver: ver}
	first := r.byte("fixed header")
	p.Type = int(first >> 4)
	fl := first & 15
	if r.err {
		return Parsed{Illegal, r.ill, nil}
	}
	if p.Type == 0 || (p.Type == AUTH && ver < 5) {
		return Parsed{Illegal, "reserved packet type", nil}
	}
	rl := int(r.varint("remaining length"))
	if r.err {
		return Parsed{Illegal, r.ill, nil}
	}
	if rl != r.left() {
		return Parsed{Illegal, fmt.Sprintf("remaining length %d, %d bytes follow", rl, r.left()), nil}
	}
	if p.Type == PUBLISH {
		p.Dup, p.QoS, p.Retain = fl&8 != 0, fl>>1&3, fl&1 != 0
		if p.QoS == 3 {
			r.bad("QoS 3")
		}
		if p.Dup && p.QoS == 0 {
			if ver == 3 {
				r.may("DUP with QoS 0")
			} else {
				r.bad("DUP with QoS 0")
			}
		}
	} else if want := p.Flags(); fl != want {
		if ver == 3 && fl == want|8 {
			r.may("DUP flag")
		} else {
			r.bad("fixed header flags %#x of %s", fl, TypeNames[p.Type])
		}
	}
	if p.Type != CONNECT {
		r.body(p)
	} else {
		r.connect(p)
	}
	if !r.err && r.left() > 0 {
		r.bad("%d bytes after the end of %s", r.left(), TypeNames[p.Type])
	}
	res := Parsed{Legal, "", p}
	switch {
	case r.ill != "":
		res.Verdict, res.Why = Illegal, r.ill
	case r.amb != "":
		res.Verdict, res.Why = Ambiguous, r.amb
	}
	if r.err {
		res.Pkt = nil
	}
	return res
}

func (r *rd) id(p *Pkt) {
	p.ID = r.short("packet identifier")
	p.HasID = !r.err
	if p.HasID && p.ID == 0 {
		// brokers built on the library persist queued messages with identifier 0
		r.may("packet identifier 0")
	}
}

func (r *rd) reason(p *Pkt) {
	p.Reason = r.byte("reason code")
	if !r.err && !CodeOK(p.Type, p.Reason) {
		if p.Type == DISCONNECT && p.Reason == 0x8C {
			r.may("reason code 0x8C in DISCONNECT")
			return
		}
		r.bad("reason code %#x in %s", p.Reason, TypeNames[p.Type])
	}
}

func (r *rd) body(p *Pkt) {
	v5 := p.V5()
	if p.NeedID() && p.Type != PUBLISH {
		r.id(p)
	}
	switch p.Type {
	case CONNACK:
		f := r.byte("acknowledge flags")
		if f&^1 != 0 {
			r.bad("reserved CONNACK flags %#x", f)
		}
		p.SP = f&1 != 0
		if v5 {
			// codes 1..5 are those of MQTT 3
			c := r.byte("reason code")
			p.Reason = c
			if !r.err && !CodeOK(CONNACK, c) {
				r.bad("reason code %#x in CONNACK", c)
			}
			p.Props = r.props(CONNACK)
		} else {
			c := r.byte("return code")
			p.Reason = c
			if c > 5 {
				r.bad("return code %#x in a version %d CONNACK", c, p.Ver)
			}
			if p.SP && p.Ver == 3 {
				r.may("session present in version 3.1")
			}
		}
		if p.SP && p.Reason != 0 {
			r.may("session present with an error code")
		}
	case PUBLISH:
		p.Topic = string(r.lp("topic name"))
		if r.err {
			return
		}
		r.topicName("topic name", p.Topic)
		if p.QoS > 0 {
			r.id(p)
		}
		if v5 {
			p.Props = r.props(PUBLISH)
		}
		if r.err {
			return
		}
		if p.Topic == "" {
			alias := false
			for _, x := range p.Props {
				if x.ID == 0x23 && x.N > 0 {
					alias = true
				}
			}
			if !alias {
				r.bad("empty topic name")
			}
		}
		p.Payload = append([]byte(nil), r.b[r.o:]...)
		r.o = len(r.b)
	case PUBACK, PUBREC, PUBREL, PUBCOMP:
		if v5 && r.left() > 0 && !r.err {
			r.reason(p)
			if r.left() > 0 {
				p.Props = r.props(p.Type)
			}
		}
	case SUBSCRIBE, UNSUBSCRIBE:
		if v5 {
			p.Props = r.props(p.Type)
		}
		for !r.err && r.left() > 0 {
			s := Sub{Filter: string(r.lp("topic filter"))}
			if r.err {
				return
			}
			shared := r.filter(p.Ver, s.Filter)
			if p.Type == SUBSCRIBE {
				s.Opts = r.byte("subscription options")
				if r.err {
					return
				}
				switch {
				case s.Opts&3 == 3:
					r.bad("subscription QoS 3")
				case !v5 && s.Opts > 2:
					r.bad("reserved bits in subscription options %#x", s.Opts)
				case v5 && s.Opts&0xC0 != 0:
					r.bad("reserved bits in subscription options %#x", s.Opts)
				case v5 && s.Opts&0x30 == 0x30:
					r.bad("retain handling 3")
				case v5 && shared && s.Opts&4 != 0:
					r.bad("no-local on a shared subscription")
				}
			}
			p.Subs = append(p.Subs, s)
		}
		if !r.err && len(p.Subs) == 0 {
			r.bad("no topic filter")
		}
	case SUBACK:
		if v5 {
			p.Props = r.props(p.Type)
		}
		if r.err {
			return
		}
		p.Codes = append([]byte(nil), r.b[r.o:]...)
		r.o = len(r.b)
		for _, c := range p.Codes {
			switch {
			case v5 && !CodeOK(SUBACK, c):
				r.bad("reason code %#x in SUBACK", c)
			case !v5 && c > 2 && c != 0x80:
				r.bad("return code %#x in SUBACK", c)
			case p.Ver == 3 && c == 0x80:
				r.may("failure code in version 3.1")
			}
		}
		if len(p.Codes) == 0 {
			r.may("SUBACK without codes")
		}
	case UNSUBACK:
		if v5 {
			if !r.err && r.left() == 0 {
				// the form that older versions of the protocol have
				r.may("UNSUBACK without properties and codes")
				return
			}
			p.Props = r.props(p.Type)
			if r.err {
				return
			}
			p.Codes = append([]byte(nil), r.b[r.o:]...)
			r.o = len(r.b)
			for _, c := range p.Codes {
				if !CodeOK(UNSUBACK, c) {
					r.bad("reason code %#x in UNSUBACK", c)
				}
			}
			if len(p.Codes) == 0 {
				r.may("UNSUBACK without codes")
			}
		}
	case DISCONNECT, AUTH:
		if v5 && r.left() > 0 {
			r.reason(p)
			if r.left() > 0 {
				p.Props = r.props(p.Type)
			} else if p.Type == AUTH {
				r.may("AUTH with a lone reason code")
			}
		}
	}
}

func (r *rd) connect(p *Pkt) {
	name := string(r.lp("protocol name"))
	p.Ver = r.byte("protocol level")
	if r.err {
		return
	}
	if !((p.Ver == 3 && name == "MQIsdp") || ((p.Ver == 4 || p.Ver == 5) && name == "MQTT")) {
		r.broken("protocol %q level %d", name, p.Ver)
		return
	}
	f := r.byte("connect flags")
	p.Clean = f&2 != 0
	p.HasUser, p.HasPass = f&128 != 0, f&64 != 0
	if f&1 != 0 {
		r.bad("reserved connect flag")
	}
	will := f&4 != 0
	wq, wr := f>>3&3, f&32 != 0
	if wq == 3 {
		r.bad("will QoS 3")
	}
	if !will && (wq != 0 || wr) {
		r.bad("will QoS or retain without will")
	}
	if p.HasPass && !p.HasUser && p.Ver < 5 {
		r.bad("password without user name")
	}
	p.KeepAlive = r.short("keep alive")
	if p.Ver == 5 {
		p.Props = r.props(CONNECT)
	}
	p.ClientID = r.lp("client identifier")
	if r.err {
		return
	}
	if !utf8.Valid(p.ClientID) {
		r.bad("client identifier: not UTF-8")
	}
	for _, c := range p.ClientID {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			r.may("client identifier beyond the mandatory characters")
		}
	}
	if len(p.ClientID) == 0 {
		switch {
		case p.Ver == 3:
			r.may("empty client identifier")
		case p.Ver == 4 && !p.Clean:
			r.bad("empty client identifier without clean session")
		}
		if p.Ver == 3 && !p.Clean {
			r.bad("empty client identifier without clean session")
		}
	} else if len(p.ClientID) > 23 {
		// servers may refuse longer ones, this one documents that it does not
		if p.Ver == 3 {
			r.may("client identifier longer than 23 bytes")
		}
	}
	if will {
		p.Will = &Will{QoS: wq, Retain: wr}
		if p.Ver == 5 {
			p.Will.Props = r.props(WILL)
		}
		p.Will.Topic = string(r.lp("will topic"))
		if r.err {
			return
		}
		r.topicName("will topic", p.Will.Topic)
		if p.Will.Topic == "" {
			r.bad("empty will topic")
		}
		p.Will.Payload = append([]byte(nil), r.lp("will payload")...)
		if r.err {
			return
		}
	}
	if p.HasUser {
		if p.Ver == 3 && r.left() == 0 {
			r.may("user name flag without user name")
			return
		}
		p.User = []byte(r.str("user name"))
	}
	if p.HasPass {
		if p.Ver == 3 && r.left() == 0 {
			r.may("password flag without password")
			return
		}
		p.Pass = append([]byte(nil), r.lp("password")...)
	}
}
