package ref

// Field is a part of an encoded packet, for structure-aware corruption.
type Field struct {
	Off, Len int
	Kind     string // first, rlen, plen, pid, pval, lp (2-byte length prefix), str, byte, short, payload
}

// Enc is the result of encoding.
type Enc struct {
	B      []byte
	Fields []Field
}

// Variant selects among the forms the standard permits. A nil Pick always
// takes the first one.
type Variant struct {
	Pick func(n int) int
	// Raw lets contents through that break rules
	Raw bool
	// RL, when set, is used as remaining length
	RL *uint32
	// DiscShort permits DISCONNECT/AUTH with a lone reason code
	DiscShort bool
}

func (v *Variant) pick(n int) int {
	if v == nil || v.Pick == nil {
		return 0
	}
	return v.Pick(n)
}

type w struct {
	b []byte
	f []Field
}

func (e *w) mark(off int, k string) { e.f = append(e.f, Field{off, len(e.b) - off, k}) }
func (e *w) byte(x byte, k string) {
	o := len(e.b)
	e.b = append(e.b, x)
	e.mark(o, k)
}
func (e *w) short(x uint16, k string) {
	o := len(e.b)
	e.b = append(e.b, byte(x>>8), byte(x))
	e.mark(o, k)
}
func (e *w) int(x uint32, k string) {
	o := len(e.b)
	e.b = append(e.b, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	e.mark(o, k)
}

// VarInt encodes a variable byte integer.
func VarInt(x uint32) []byte {
	var b []byte
	for {
		c := byte(x % 128)
		x /= 128
		if x > 0 {
			c |= 128
		}
		b = append(b, c)
		if x == 0 {
			return b
		}
	}
}

func (e *w) varint(x uint32, k string) {
	o := len(e.b)
	e.b = append(e.b, VarInt(x)...)
	e.mark(o, k)
}
func (e *w) lp(x []byte) {
	o := len(e.b)
	e.b = append(e.b, byte(len(x)>>8), byte(len(x)))
	e.mark(o, "lp")
	o = len(e.b)
	e.b = append(e.b, x...)
	e.mark(o, "str")
}

func (e *w) props(ps []Prop, v *Variant) {
	ord := append([]Prop(nil), ps...)
	if len(ord) > 1 {
		switch v.pick(4) {
		case 1: // sorted by id
			ord = SortProps(ord)
		case 2: // random shuffle that keeps the order of equal ids
			for i := len(ord) - 1; i > 0; i-- {
				j := v.pick(i + 1)
				if j == i {
					continue
				}
				ok := true
				for k := j; k <= i; k++ {
					if (k != i && ord[k].ID == ord[i].ID) || (k != j && ord[k].ID == ord[j].ID) {
						ok = false
					}
				}
				if ok {
					ord[i], ord[j] = ord[j], ord[i]
				}
			}
		case 3: // descending ids
			s := SortProps(ord)
			var r []Prop
			for i := len(s); i > 0; {
				j := i - 1
				for j > 0 && s[j-1].ID == s[i-1].ID {
					j--
				}
				r = append(r, s[j:i]...)
				i = j
			}
			ord = r
		}
	}
	var in w
	for _, p := range ord {
		in.varint(uint32(p.ID), "pid")
		d := PropByID[p.ID]
		kind := KByte
		if d != nil {
			kind = d.Kind
		}
		switch kind {
		case KByte:
			in.byte(byte(p.N), "pval")
		case KShort:
			in.short(uint16(p.N), "pval")
		case KInt:
			in.int(p.N, "pval")
		case KVar:
			in.varint(p.N, "pval")
		case KStr, KBin:
			in.lp([]byte(p.S))
		case KPair:
			in.lp([]byte(p.K))
			in.lp([]byte(p.S))
		}
	}
	e.varint(uint32(len(in.b)), "plen")
	o := len(e.b)
	e.b = append(e.b, in.b...)
	for _, f := range in.f {
		f.Off += o
		e.f = append(e.f, f)
	}
}

// Encode writes the packet in one of the permitted forms.
func Encode(p *Pkt, v *Variant) *Enc {
	var e w
	v5 := p.V5()
	if p.NeedID() && p.Type != PUBLISH && p.HasID {
		e.short(p.ID, "short")
	}
	switch p.Type {
	case CONNECT:
		name := "MQTT"
		if p.Ver == 3 {
			name = "MQIsdp"
		}
		e.lp([]byte(name))
		e.byte(p.Ver, "byte")
		var f byte
		if p.Clean {
			f |= 2
		}
		if p.Will != nil {
			f |= 4 | p.Will.QoS<<3
			if p.Will.Retain {
				f |= 32
			}
		}
		if p.HasPass {
			f |= 64
		}
		if p.HasUser {
			f |= 128
		}
		e.byte(f, "byte")
		e.short(p.KeepAlive, "short")
		if v5 {
			e.props(p.Props, v)
		}
		e.lp(p.ClientID)
		if p.Will != nil {
			if v5 {
				e.props(p.Will.Props, v)
			}
			e.lp([]byte(p.Will.Topic))
			e.lp(p.Will.Payload)
		}
		if p.HasUser {
			e.lp(p.User)
		}
		if p.HasPass {
			e.lp(p.Pass)
		}
	case CONNACK:
		var f byte
		if p.SP {
			f = 1
		}
		e.byte(f, "byte")
		e.byte(p.Reason, "byte")
		if v5 {
			e.props(p.Props, v)
		}
	case PUBLISH:
		e.lp([]byte(p.Topic))
		if p.QoS > 0 && p.HasID {
			e.short(p.ID, "short")
		}
		if v5 {
			e.props(p.Props, v)
		}
		o := len(e.b)
		e.b = append(e.b, p.Payload...)
		e.mark(o, "payload")
	case PUBACK, PUBREC, PUBREL, PUBCOMP:
		if v5 {
			full := len(p.Props) > 0
			if !full {
				switch {
				case p.Reason == 0:
					switch v.pick(3) {
					case 1:
						e.byte(0, "byte")
					case 2:
						full = true
					}
				default:
					if v.pick(2) == 1 {
						full = true
					} else {
						e.byte(p.Reason, "byte")
					}
				}
			}
			if full {
				e.byte(p.Reason, "byte")
				e.props(p.Props, v)
			}
		}
	case SUBSCRIBE, UNSUBSCRIBE:
		if v5 {
			e.props(p.Props, v)
		}
		for _, s := range p.Subs {
			e.lp([]byte(s.Filter))
			if p.Type == SUBSCRIBE {
				e.byte(s.Opts, "byte")
			}
		}
	case SUBACK, UNSUBACK:
		if v5 {
			e.props(p.Props, v)
		}
		if p.Type == SUBACK || v5 {
			for _, c := range p.Codes {
				e.byte(c, "byte")
			}
		}
	case DISCONNECT, AUTH:
		if v5 {
			full := len(p.Props) > 0
			if !full {
				n := 2
				if v != nil && v.DiscShort && p.Type == DISCONNECT {
					n = 3
				}
				switch k := v.pick(n); {
				case k == 2:
					e.byte(p.Reason, "byte")
				case k == 1 || p.Reason != 0:
					full = true
				}
			}
			if full {
				e.byte(p.Reason, "byte")
				e.props(p.Props, v)
			}
		}
	}
	var out w
	out.byte(byte(p.Type<<4)|p.Flags(), "first")
	rl := uint32(len(e.b))
	if v != nil && v.RL != nil {
		rl = *v.RL
	}
	out.varint(rl, "rlen")
	o := len(out.b)
	out.b = append(out.b, e.b...)
	for _, f := range e.f {
		f.Off += o
		out.f = append(out.f, f)
	}
	return &Enc{out.b, out.f}
}
