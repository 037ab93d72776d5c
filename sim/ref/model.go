// Package ref is an independent model, encoder and parser of the MQTT 3.1,
// 3.1.1 and 5.0 wire formats, written from the standards. It shares no code
// with the library under test.
package ref

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
)

// Packet types.
const (
	CONNECT = 1 + iota
	CONNACK
	PUBLISH
	PUBACK
	PUBREC
	PUBREL
	PUBCOMP
	SUBSCRIBE
	SUBACK
	UNSUBSCRIBE
	UNSUBACK
	PINGREQ
	PINGRESP
	DISCONNECT
	AUTH
	// WILL selects the property set of will messages in tables
	WILL
)

// TypeNames for messages.
var TypeNames = []string{"RESERVED", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBSCRIBE", "SUBACK", "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "AUTH", "WILL"}

// Property value kinds.
const (
	KByte = iota
	KShort
	KInt
	KVar
	KStr
	KBin
	KPair
)

// PropDef describes a property of MQTT 5 section 2.2.2.2.
type PropDef struct {
	ID    byte
	Kind  int
	Types []int // packet types it may appear in
	Rep   []int // packet types in which it may repeat
}

// Props is the table of properties.
var Props = []PropDef{
	{0x01, KByte, []int{PUBLISH, WILL}, nil},
	{0x02, KInt, []int{PUBLISH, WILL}, nil},
	{0x03, KStr, []int{PUBLISH, WILL}, nil},
	{0x08, KStr, []int{PUBLISH, WILL}, nil},
	{0x09, KBin, []int{PUBLISH, WILL}, nil},
	{0x0B, KVar, []int{PUBLISH, SUBSCRIBE}, []int{PUBLISH}},
	{0x11, KInt, []int{CONNECT, CONNACK, DISCONNECT}, nil},
	{0x12, KStr, []int{CONNACK}, nil},
	{0x13, KShort, []int{CONNACK}, nil},
	{0x15, KStr, []int{CONNECT, CONNACK, AUTH}, nil},
	{0x16, KBin, []int{CONNECT, CONNACK, AUTH}, nil},
	{0x17, KByte, []int{CONNECT}, nil},
	{0x18, KInt, []int{WILL}, nil},
	{0x19, KByte, []int{CONNECT}, nil},
	{0x1A, KStr, []int{CONNACK}, nil},
	{0x1C, KStr, []int{CONNACK, DISCONNECT}, nil},
	{0x1F, KStr, []int{CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT, AUTH}, nil},
	{0x21, KShort, []int{CONNECT, CONNACK}, nil},
	{0x22, KShort, []int{CONNECT, CONNACK}, nil},
	{0x23, KShort, []int{PUBLISH}, nil},
	{0x24, KByte, []int{CONNACK}, nil},
	{0x25, KByte, []int{CONNACK}, nil},
	{0x26, KPair, []int{CONNECT, CONNACK, PUBLISH, WILL, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, DISCONNECT, AUTH},
		[]int{CONNECT, CONNACK, PUBLISH, WILL, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, DISCONNECT, AUTH}},
	{0x27, KInt, []int{CONNECT, CONNACK}, nil},
	{0x28, KByte, []int{CONNACK}, nil},
	{0x29, KByte, []int{CONNACK}, nil},
	{0x2A, KByte, []int{CONNACK}, nil},
}

// PropByID indexes Props.
var PropByID = map[byte]*PropDef{}

func init() {
	for i := range Props {
		PropByID[Props[i].ID] = &Props[i]
	}
}

func has(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// Allowed tells whether the property may appear in the packet type.
func (d *PropDef) Allowed(t int) bool { return has(d.Types, t) }

// Repeats tells whether it may repeat there.
func (d *PropDef) Repeats(t int) bool { return has(d.Rep, t) }

// PropsFor lists the properties allowed in a packet type.
func PropsFor(t int) []*PropDef {
	var r []*PropDef
	for i := range Props {
		if Props[i].Allowed(t) {
			r = append(r, &Props[i])
		}
	}
	return r
}

// Codes5 lists the reason codes of MQTT 5 by packet type.
var Codes5 = map[int][]byte{
	CONNACK:    {0x00, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C, 0x90, 0x95, 0x97, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9F},
	PUBACK:     {0x00, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99},
	PUBREC:     {0x00, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99},
	PUBREL:     {0x00, 0x92},
	PUBCOMP:    {0x00, 0x92},
	SUBACK:     {0x00, 0x01, 0x02, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2},
	UNSUBACK:   {0x00, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91},
	DISCONNECT: {0x00, 0x04, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1, 0xA2},
	AUTH:       {0x00, 0x18, 0x19},
}

// CodeOK tells whether the code is defined for the packet type in MQTT 5.
func CodeOK(t int, c byte) bool { return bytes.IndexByte(Codes5[t], c) >= 0 }

// Prop is one property instance.
type Prop struct {
	ID byte
	N  uint32 // numeric value
	K  string // key of a pair
	S  string // string or binary value, value of a pair
}

// Sub is one topic filter with its options.
type Sub struct {
	Filter string
	Opts   byte
}

// Will message of a CONNECT.
type Will struct {
	Topic   string
	Payload []byte
	QoS     byte
	Retain  bool
	Props   []Prop
}

// Pkt is the logical content of a control packet.
type Pkt struct {
	Type   int
	Ver    byte
	Dup    bool
	Retain bool
	QoS    byte
	HasID  bool
	ID     uint16

	Topic   string
	Payload []byte
	Reason  byte
	Codes   []byte
	SP      bool
	Props   []Prop
	Subs    []Sub

	Clean     bool
	KeepAlive uint16
	ClientID  []byte
	Will      *Will
	HasUser   bool
	HasPass   bool
	User      []byte
	Pass      []byte
}

// V5 tells whether the packet is MQTT 5.
func (p *Pkt) V5() bool { return p.Ver == 5 }

// Clone copies deeply.
func (p *Pkt) Clone() *Pkt {
	q := *p
	q.Payload = append([]byte(nil), p.Payload...)
	q.Codes = append([]byte(nil), p.Codes...)
	q.Props = append([]Prop(nil), p.Props...)
	q.Subs = append([]Sub(nil), p.Subs...)
	q.ClientID = append([]byte(nil), p.ClientID...)
	q.User = append([]byte(nil), p.User...)
	q.Pass = append([]byte(nil), p.Pass...)
	if p.Will != nil {
		w := *p.Will
		w.Payload = append([]byte(nil), w.Payload...)
		w.Props = append([]Prop(nil), w.Props...)
		q.Will = &w
	}
	return &q
}

// NeedID tells whether the packet carries an identifier.
func (p *Pkt) NeedID() bool {
	switch p.Type {
	case PUBLISH:
		return p.QoS > 0
	case PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK:
		return true
	}
	return false
}

// Flags are the low bits of the first byte.
func (p *Pkt) Flags() byte {
	switch p.Type {
	case PUBLISH:
		f := p.QoS << 1
		if p.Dup {
			f |= 8
		}
		if p.Retain {
			f |= 1
		}
		return f
	case PUBREL, SUBSCRIBE, UNSUBSCRIBE:
		return 2
	}
	return 0
}

// SortProps orders properties by identifier, keeping the order of repeats.
func SortProps(ps []Prop) []Prop {
	r := append([]Prop(nil), ps...)
	sort.SliceStable(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

func short(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%q...(%d bytes)", s[:32], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func diffProps(what string, a, b []Prop) string {
	a, b = SortProps(a), SortProps(b)
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		switch {
		case i >= len(a):
			return fmt.Sprintf("%s: extra %s", what, b[i])
		case i >= len(b):
			return fmt.Sprintf("%s: missing %s", what, a[i])
		case a[i] != b[i]:
			return fmt.Sprintf("%s: want %s, got %s", what, a[i], b[i])
		}
	}
	return ""
}

func (p Prop) String() string {
	d := PropByID[p.ID]
	if d == nil {
		return fmt.Sprintf("property 0x%02x", p.ID)
	}
	switch d.Kind {
	case KStr, KBin:
		return fmt.Sprintf("property 0x%02x=%s", p.ID, short(p.S))
	case KPair:
		return fmt.Sprintf("property 0x%02x=%s:%s", p.ID, short(p.K), short(p.S))
	}
	return fmt.Sprintf("property 0x%02x=%d", p.ID, p.N)
}

// Diff describes the first difference between the wanted and the found
// contents, or returns "".
func Diff(a, b *Pkt) string {
	t := func(w string, x, y any) string { return fmt.Sprintf("%s: want %v, got %v", w, x, y) }
	switch {
	case a.Type != b.Type:
		return t("type", TypeNames[a.Type], TypeNames[b.Type])
	case a.Ver != b.Ver:
		return t("version", a.Ver, b.Ver)
	case a.Dup != b.Dup:
		return t("dup", a.Dup, b.Dup)
	case a.Retain != b.Retain:
		return t("retain", a.Retain, b.Retain)
	case a.QoS != b.QoS:
		return t("qos", a.QoS, b.QoS)
	case a.HasID != b.HasID:
		return t("packet id present", a.HasID, b.HasID)
	case a.HasID && a.ID != b.ID:
		return t("packet id", a.ID, b.ID)
	case a.Topic != b.Topic:
		return t("topic", short(a.Topic), short(b.Topic))
	case !bytes.Equal(a.Payload, b.Payload):
		return t("payload", short(string(a.Payload)), short(string(b.Payload)))
	case a.Reason != b.Reason:
		return t("reason code", a.Reason, b.Reason)
	case !bytes.Equal(a.Codes, b.Codes):
		return t("return codes", a.Codes, b.Codes)
	case a.SP != b.SP:
		return t("session present", a.SP, b.SP)
	case len(a.Subs) != len(b.Subs):
		return t("number of topics", len(a.Subs), len(b.Subs))
	case a.Clean != b.Clean:
		return t("clean", a.Clean, b.Clean)
	case a.KeepAlive != b.KeepAlive:
		return t("keep alive", a.KeepAlive, b.KeepAlive)
	case !bytes.Equal(a.ClientID, b.ClientID):
		return t("client id", short(string(a.ClientID)), short(string(b.ClientID)))
	case a.HasUser != b.HasUser || !bytes.Equal(a.User, b.User):
		return t("user name", short(string(a.User)), short(string(b.User)))
	case a.HasPass != b.HasPass || !bytes.Equal(a.Pass, b.Pass):
		return t("password", short(string(a.Pass)), short(string(b.Pass)))
	case (a.Will == nil) != (b.Will == nil):
		return t("will present", a.Will != nil, b.Will != nil)
	}
	for i := range a.Subs {
		if a.Subs[i] != b.Subs[i] {
			return t(fmt.Sprintf("topic %d", i), fmt.Sprintf("%s/%#x", short(a.Subs[i].Filter), a.Subs[i].Opts), fmt.Sprintf("%s/%#x", short(b.Subs[i].Filter), b.Subs[i].Opts))
		}
	}
	if a.Will != nil {
		x, y := a.Will, b.Will
		switch {
		case x.Topic != y.Topic:
			return t("will topic", short(x.Topic), short(y.Topic))
		case !bytes.Equal(x.Payload, y.Payload):
			return t("will payload", short(string(x.Payload)), short(string(y.Payload)))
		case x.QoS != y.QoS:
			return t("will qos", x.QoS, y.QoS)
		case x.Retain != y.Retain:
			return t("will retain", x.Retain, y.Retain)
		}
		if d := diffProps("will properties", x.Props, y.Props); d != "" {
			return d
		}
	}
	return diffProps("properties", a.Props, b.Props)
}

func (p *Pkt) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s v%d", TypeNames[p.Type], p.Ver)
	if p.HasID {
		fmt.Fprintf(&b, " id=%d", p.ID)
	}
	switch p.Type {
	case PUBLISH:
		fmt.Fprintf(&b, " qos=%d dup=%v retain=%v topic=%s payload=%s", p.QoS, p.Dup, p.Retain, short(p.Topic), short(string(p.Payload)))
	case CONNECT:
		fmt.Fprintf(&b, " clean=%v ka=%d client=%s user=%v/%s pass=%v/%s", p.Clean, p.KeepAlive, short(string(p.ClientID)), p.HasUser, short(string(p.User)), p.HasPass, short(string(p.Pass)))
		if w := p.Will; w != nil {
			fmt.Fprintf(&b, " will{qos=%d retain=%v topic=%s payload=%s %v}", w.QoS, w.Retain, short(w.Topic), short(string(w.Payload)), w.Props)
		}
	case CONNACK:
		fmt.Fprintf(&b, " sp=%v reason=%#x", p.SP, p.Reason)
	case SUBSCRIBE, UNSUBSCRIBE:
		for i, s := range p.Subs {
			if i > 4 {
				fmt.Fprintf(&b, " ...%d topics", len(p.Subs))
				break
			}
			fmt.Fprintf(&b, " %s/%#x", short(s.Filter), s.Opts)
		}
	case SUBACK, UNSUBACK:
		fmt.Fprintf(&b, " codes=%s", short(string(p.Codes)))
	default:
		fmt.Fprintf(&b, " reason=%#x", p.Reason)
	}
	for i, x := range p.Props {
		if i > 5 {
			fmt.Fprintf(&b, " ...%d properties", len(p.Props))
			break
		}
		fmt.Fprintf(&b, " [%s]", x)
	}
	return b.String()
}
