// Package lib connects the model (package ref) with the library under test
// through the library's exported API only.
package lib

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/VolantMQ/vlapi/mqttp"

	"verif/ref"
)

// Picker chooses among equivalent ways to do something; nil means the first.
type Picker func(n int) int

func (p Picker) pick(n int) int {
	if p == nil {
		return 0
	}
	return p(n)
}

type ider interface{ SetPacketID(mqttp.IDType) }

// Ints is how repeated numeric properties are read.
type Ints interface{ AsInts() ([]uint32, error) }

// New makes an empty packet of the right type.
func New(t int, ver byte, pk Picker) (mqttp.IFace, error) {
	v := mqttp.ProtocolVersion(ver)
	if pk.pick(2) == 1 {
		return mqttp.New(v, mqttp.Type(t))
	}
	switch t {
	case ref.CONNECT:
		return mqttp.NewConnect(v), nil
	case ref.CONNACK:
		return mqttp.NewConnAck(v), nil
	case ref.PUBLISH:
		return mqttp.NewPublish(v), nil
	case ref.PUBACK:
		return mqttp.NewPubAck(v), nil
	case ref.PUBREC:
		return mqttp.NewPubRec(v), nil
	case ref.PUBREL:
		return mqttp.NewPubRel(v), nil
	case ref.PUBCOMP:
		return mqttp.NewPubComp(v), nil
	case ref.SUBSCRIBE:
		return mqttp.NewSubscribe(v), nil
	case ref.SUBACK:
		return mqttp.NewSubAck(v), nil
	case ref.UNSUBSCRIBE:
		return mqttp.NewUnSubscribe(v), nil
	case ref.UNSUBACK:
		return mqttp.NewUnSubAck(v), nil
	case ref.PINGREQ:
		return mqttp.NewPingReq(v), nil
	case ref.PINGRESP:
		return mqttp.NewPingResp(v), nil
	case ref.DISCONNECT:
		return mqttp.NewDisconnect(v), nil
	case ref.AUTH:
		return mqttp.NewAuth(v), nil
	}
	return mqttp.New(v, mqttp.Type(t))
}

func val(d *ref.PropDef, p ref.Prop) interface{} {
	switch d.Kind {
	case ref.KByte:
		return byte(p.N)
	case ref.KShort:
		return uint16(p.N)
	case ref.KInt, ref.KVar:
		return p.N
	case ref.KStr:
		return p.S
	case ref.KBin:
		return []byte(p.S)
	}
	return mqttp.StringPair{K: p.K, V: p.S}
}

// PropValue makes the library's value for all instances of one property.
func PropValue(ps []ref.Prop, pk Picker) interface{} {
	d := ref.PropByID[ps[0].ID]
	switch {
	case d.Kind == ref.KPair && (len(ps) > 1 || pk.pick(3) != 2):
		var l []mqttp.StringPair
		for _, p := range ps {
			l = append(l, mqttp.StringPair{K: p.K, V: p.S})
		}
		return l
	case d.Kind == ref.KVar && len(ps) > 1:
		var l []uint32
		for _, p := range ps {
			l = append(l, p.N)
		}
		return l
	case len(ps) > 1:
		return list(d, ps)
	}
	return val(d, ps[0])
}

// list is several values of a property that may have one only.
func list(d *ref.PropDef, ps []ref.Prop) interface{} {
	var b []byte
	var h []uint16
	var n []uint32
	var s []string
	var bb [][]byte
	for _, p := range ps {
		b = append(b, byte(p.N))
		h = append(h, uint16(p.N))
		n = append(n, p.N)
		s = append(s, p.S)
		bb = append(bb, []byte(p.S))
	}
	switch d.Kind {
	case ref.KByte:
		return b
	case ref.KShort:
		return h
	case ref.KInt:
		return n
	case ref.KStr:
		return s
	}
	return bb
}

// Group splits properties by identifier, in order of first appearance.
func Group(ps []ref.Prop) [][]ref.Prop {
	var r [][]ref.Prop
	idx := map[byte]int{}
	for _, p := range ps {
		i, ok := idx[p.ID]
		if !ok {
			i = len(r)
			idx[p.ID] = i
			r = append(r, nil)
		}
		r[i] = append(r[i], p)
	}
	return r
}

// SetProps sets all properties.
func SetProps(m mqttp.IFace, ps []ref.Prop, pk Picker) error {
	for _, g := range Group(ps) {
		if err := m.PropertySet(mqttp.PropertyID(g[0].ID), PropValue(g, pk)); err != nil {
			return fmt.Errorf("PropertySet(%s): %w", g[0], err)
		}
	}
	return nil
}

// Build makes the packet through the construction API.
func Build(p *ref.Pkt, pk Picker) (mqttp.IFace, error) {
	m, err := New(p.Type, p.Ver, pk)
	if err != nil {
		return nil, err
	}
	return m, Fill(m, p, pk)
}

// SetPublish sets topic, payload and flags of an application message.
func SetPublish(m *mqttp.Publish, topic string, payload []byte, qos byte, retain, dup bool, pk Picker) error {
	if pk.pick(2) == 0 {
		return m.Set(topic, payload, mqttp.QosType(qos), retain, dup)
	}
	order := pk.pick(5)
	for i := 0; i < 5; i++ {
		switch (i + order) % 5 {
		case 0:
			if err := m.SetTopic(topic); err != nil {
				return fmt.Errorf("SetTopic: %w", err)
			}
		case 1:
			m.SetPayload(payload)
		case 2:
			if err := m.SetQoS(mqttp.QosType(qos)); err != nil {
				return fmt.Errorf("SetQoS: %w", err)
			}
		case 3:
			m.SetRetain(retain)
		case 4:
			m.SetDup(dup)
		}
	}
	return nil
}

// BuildWill makes a will message.
func BuildWill(w *ref.Will, ver byte, pk Picker) (*mqttp.Publish, error) {
	m := mqttp.NewPublish(mqttp.ProtocolVersion(ver))
	if err := SetPublish(m, w.Topic, w.Payload, w.QoS, w.Retain, false, pk); err != nil {
		return nil, err
	}
	return m, SetProps(m, w.Props, pk)
}

// Fill sets the contents of an empty packet.
func Fill(m mqttp.IFace, p *ref.Pkt, pk Picker) error {
	propsFirst := pk.pick(2) == 0
	if propsFirst {
		if err := SetProps(m, p.Props, pk); err != nil {
			return err
		}
	}
	if p.HasID {
		m.(ider).SetPacketID(mqttp.IDType(p.ID))
	}
	switch m := m.(type) {
	case *mqttp.Connect:
		m.SetClean(p.Clean)
		m.SetKeepAlive(p.KeepAlive)
		if err := m.SetClientID(p.ClientID); err != nil {
			return fmt.Errorf("SetClientID: %w", err)
		}
		if p.Will != nil {
			w, err := BuildWill(p.Will, p.Ver, pk)
			if err != nil {
				return fmt.Errorf("will: %w", err)
			}
			if err := m.SetWill(w); err != nil {
				return fmt.Errorf("SetWill: %w", err)
			}
		}
		if p.HasUser || p.HasPass {
			if err := m.SetCredentials(p.User, p.Pass); err != nil {
				return fmt.Errorf("SetCredentials: %w", err)
			}
		}
	case *mqttp.ConnAck:
		m.SetSessionPresent(p.SP)
		if err := m.SetReturnCode(mqttp.ReasonCode(p.Reason)); err != nil {
			return fmt.Errorf("SetReturnCode: %w", err)
		}
	case *mqttp.Publish:
		if err := SetPublish(m, p.Topic, p.Payload, p.QoS, p.Retain, p.Dup, pk); err != nil {
			return err
		}
	case *mqttp.Ack:
		m.SetReason(mqttp.ReasonCode(p.Reason))
	case *mqttp.Subscribe:
		for _, s := range p.Subs {
			t, err := mqttp.NewSubscribeTopic([]byte(s.Filter), mqttp.SubscriptionOptions(s.Opts))
			if err != nil {
				return fmt.Errorf("NewSubscribeTopic(%q): %w", s.Filter, err)
			}
			if err := m.AddTopic(t); err != nil {
				return fmt.Errorf("AddTopic: %w", err)
			}
		}
	case *mqttp.UnSubscribe:
		for _, s := range p.Subs {
			t, err := mqttp.NewTopic([]byte(s.Filter))
			if err != nil {
				return fmt.Errorf("NewTopic(%q): %w", s.Filter, err)
			}
			if err := m.AddTopic(t); err != nil {
				return fmt.Errorf("AddTopic: %w", err)
			}
		}
	case *mqttp.SubAck:
		if err := AddCodes(m, p.Codes, pk); err != nil {
			return err
		}
	case *mqttp.UnSubAck:
		if err := AddCodes(m, p.Codes, pk); err != nil {
			return err
		}
	case *mqttp.Disconnect:
		m.SetReasonCode(mqttp.ReasonCode(p.Reason))
	case *mqttp.Auth:
		if err := m.SetReasonCode(mqttp.ReasonCode(p.Reason)); err != nil {
			return fmt.Errorf("SetReasonCode: %w", err)
		}
	}
	if !propsFirst {
		return SetProps(m, p.Props, pk)
	}
	return nil
}

type coder interface {
	AddReturnCodes([]mqttp.ReasonCode) error
	AddReturnCode(mqttp.ReasonCode) error
}

// AddCodes adds return codes.
func AddCodes(m coder, cs []byte, pk Picker) error {
	if pk.pick(2) == 0 {
		var l []mqttp.ReasonCode
		for _, c := range cs {
			l = append(l, mqttp.ReasonCode(c))
		}
		if err := m.AddReturnCodes(l); err != nil {
			return fmt.Errorf("AddReturnCodes(%#x): %w", cs, err)
		}
		return nil
	}
	for _, c := range cs {
		if err := m.AddReturnCode(mqttp.ReasonCode(c)); err != nil {
			return fmt.Errorf("AddReturnCode(%#x): %w", c, err)
		}
	}
	return nil
}

// readProp reads one property in all its instances.
func readProp(id mqttp.PropertyID, v mqttp.PropertyToType) ([]ref.Prop, error) {
	d := ref.PropByID[byte(id)]
	if d == nil {
		return nil, fmt.Errorf("property %#x is not defined", uint32(id))
	}
	p := ref.Prop{ID: byte(id)}
	bad := func(err error) ([]ref.Prop, error) {
		return nil, fmt.Errorf("property %#x cannot be read as its type: %w", uint32(id), err)
	}
	switch d.Kind {
	case ref.KByte:
		x, err := v.AsByte()
		if err != nil {
			return bad(err)
		}
		p.N = uint32(x)
	case ref.KShort:
		x, err := v.AsShort()
		if err != nil {
			return bad(err)
		}
		p.N = uint32(x)
	case ref.KInt:
		x, err := v.AsInt()
		if err != nil {
			return bad(err)
		}
		p.N = x
	case ref.KVar:
		x, err := v.AsInt()
		if err != nil {
			if l, ok := v.(Ints); ok {
				xs, err := l.AsInts()
				if err != nil {
					return bad(err)
				}
				var r []ref.Prop
				for _, x := range xs {
					r = append(r, ref.Prop{ID: byte(id), N: x})
				}
				return r, nil
			}
			return bad(err)
		}
		p.N = x
	case ref.KStr:
		x, err := v.AsString()
		if err != nil {
			return bad(err)
		}
		p.S = x
	case ref.KBin:
		x, err := v.AsBinary()
		if err != nil {
			return bad(err)
		}
		p.S = string(x)
	case ref.KPair:
		if x, err := v.AsStringPairs(); err == nil {
			var r []ref.Prop
			for _, y := range x {
				r = append(r, ref.Prop{ID: byte(id), K: y.K, S: y.V})
			}
			return r, nil
		}
		x, err := v.AsStringPair()
		if err != nil {
			return bad(err)
		}
		p.K, p.S = x.K, x.V
	}
	return []ref.Prop{p}, nil
}

// Props reads all properties of a packet.
func Props(m mqttp.IFace) ([]ref.Prop, error) {
	if m.Version() != mqttp.ProtocolV50 {
		return nil, nil
	}
	var ps []ref.Prop
	var first error
	err := m.PropertyForEach(func(id mqttp.PropertyID, v mqttp.PropertyToType) {
		r, err := readProp(id, v)
		if err != nil {
			if first == nil {
				first = err
			}
			return
		}
		ps = append(ps, r...)
		g := m.PropertyGet(id)
		if g == nil {
			first = fmt.Errorf("property %#x is enumerated but PropertyGet does not find it", uint32(id))
			return
		}
		r2, err := readProp(id, g)
		if err != nil || len(r2) != len(r) {
			first = fmt.Errorf("property %#x: PropertyGet and PropertyForEach differ", uint32(id))
			return
		}
		for i := range r {
			if r[i] != r2[i] {
				first = fmt.Errorf("property %#x: PropertyGet and PropertyForEach differ", uint32(id))
			}
		}
	})
	if err == nil {
		err = first
	}
	return ref.SortProps(ps), err
}

// Norm brings a model packet to the form Observe can see: the presence of
// empty credentials is not visible through the getters.
func Norm(p *ref.Pkt) *ref.Pkt {
	q := *p
	q.HasUser, q.HasPass = len(p.User) > 0, len(p.Pass) > 0
	q.Props = ref.SortProps(p.Props)
	if !q.V5() {
		q.Props = nil
		if q.Type == ref.UNSUBACK {
			q.Codes = nil
		}
	}
	return &q
}

func checkTopic(t *mqttp.Topic) error {
	full := t.Full()
	share, filter, dollar := "", full, ""
	if strings.HasPrefix(full, "$") {
		if i := strings.IndexByte(full, '/'); i > 0 {
			dollar = full[:i]
			if dollar == "$share" {
				rest := full[i+1:]
				if j := strings.IndexByte(rest, '/'); j >= 0 {
					share, filter = rest[:j], rest[j+1:]
				}
			}
		}
	}
	switch {
	case t.Filter() != filter:
		return fmt.Errorf("topic %q: filter %q", full, t.Filter())
	case t.ShareName() != share:
		return fmt.Errorf("topic %q: share name %q", full, t.ShareName())
	case t.DollarPrefix() != dollar:
		return fmt.Errorf("topic %q: $-prefix %q", full, t.DollarPrefix())
	}
	o := t.Ops()
	r := o.Raw()
	f2, o2 := t.Topic()
	if byte(o.QoS()) != r&3 || o.NL() != (r&4 != 0) || o.RAP() != (r&8 != 0) || byte(o.RetainHandling()) != r>>4&3 || f2 != filter || o2 != o {
		return fmt.Errorf("topic %q: options %#x are taken apart wrongly", full, r)
	}
	return nil
}

// Observe reads the contents of a packet through its getters.
func Observe(m mqttp.IFace) (*ref.Pkt, error) {
	p := &ref.Pkt{Type: int(m.Type()), Ver: byte(m.Version())}
	var err error
	if id, e := m.ID(); e == nil {
		p.HasID, p.ID = true, uint16(id)
	}
	switch m := m.(type) {
	case *mqttp.Connect:
		p.Clean, p.KeepAlive = m.IsClean(), m.KeepAlive()
		p.ClientID = bytes.Clone(m.ClientID())
		u, w := m.Credentials()
		p.User, p.Pass = bytes.Clone(u), bytes.Clone(w)
		p.HasUser, p.HasPass = len(u) > 0, len(w) > 0
		if x := m.Will(); x != nil {
			p.Will = &ref.Will{Topic: x.Topic(), Payload: bytes.Clone(x.Payload()), QoS: byte(x.QoS()), Retain: x.Retain()}
			if p.Will.Props, err = Props(x); err != nil {
				return nil, fmt.Errorf("will: %w", err)
			}
			if x.Dup() {
				return nil, fmt.Errorf("will with DUP")
			}
		}
	case *mqttp.ConnAck:
		p.SP, p.Reason = m.SessionPresent(), byte(m.ReturnCode())
	case *mqttp.Publish:
		p.Dup, p.Retain, p.QoS = m.Dup(), m.Retain(), byte(m.QoS())
		p.Topic, p.Payload = m.Topic(), bytes.Clone(m.Payload())
	case *mqttp.Ack:
		p.Reason = byte(m.Reason())
	case *mqttp.Subscribe:
		err = m.ForEachTopic(func(t *mqttp.Topic) error {
			p.Subs = append(p.Subs, ref.Sub{Filter: t.Full(), Opts: t.Ops().Raw()})
			return checkTopic(t)
		})
	case *mqttp.UnSubscribe:
		err = m.ForEachTopic(func(t *mqttp.Topic) error {
			p.Subs = append(p.Subs, ref.Sub{Filter: t.Full(), Opts: t.Ops().Raw()})
			return checkTopic(t)
		})
	case *mqttp.SubAck:
		for _, c := range m.ReturnCodes() {
			p.Codes = append(p.Codes, byte(c))
		}
	case *mqttp.UnSubAck:
		for _, c := range m.ReturnCodes() {
			p.Codes = append(p.Codes, byte(c))
		}
	case *mqttp.Disconnect:
		p.Reason = byte(m.ReasonCode())
	case *mqttp.Auth:
		p.Reason = byte(m.ReasonCode())
	}
	if err != nil {
		return nil, err
	}
	p.Props, err = Props(m)
	return p, err
}

// Match compares a decoded packet with the wanted contents; "" when equal.
func Match(want *ref.Pkt, m mqttp.IFace) string {
	got, err := Observe(m)
	if err != nil {
		return err.Error()
	}
	w := Norm(want)
	if w.Type == ref.PUBLISH && w.QoS == 0 {
		// such a packet has none, whatever it was built from
		w.HasID, w.ID = false, 0
	}
	return ref.Diff(w, got)
}

// Encode encodes through one of the API's ways.
func Encode(m mqttp.IFace, pk Picker) ([]byte, error) {
	switch pk.pick(3) {
	case 0:
		return mqttp.Encode(m)
	case 1:
		// into a buffer at hand, without asking for the size first
		buf := make([]byte, 300)
		for i := range buf {
			buf[i] = 0x5A
		}
		k, err := m.Encode(buf)
		if err == nil && k >= 0 && k <= len(buf) {
			return buf[:k], nil
		}
		if err != mqttp.ErrInsufficientBufferSize {
			return nil, fmt.Errorf("encoding into a buffer at hand: %d bytes, %w", k, err)
		}
	}
	n, err := m.Size()
	if err != nil {
		return nil, err
	}
	buf := make([]byte, n+pk.pick(3)*7)
	for i := range buf {
		buf[i] = 0xA5
	}
	k, err := m.Encode(buf)
	if err != nil {
		return nil, err
	}
	if k < 0 || k > len(buf) {
		return nil, fmt.Errorf("Encode returned %d for a buffer of %d bytes", k, len(buf))
	}
	return buf[:k], nil
}

// Decode decodes a buffer.
func Decode(ver byte, b []byte) (mqttp.IFace, int, error) {
	return mqttp.Decode(mqttp.ProtocolVersion(ver), b)
}

var kindType = map[int]mqttp.PropertyType{
	int(ref.KByte): mqttp.PropertyTypeByte, int(ref.KShort): mqttp.PropertyTypeShort, int(ref.KInt): mqttp.PropertyTypeInt, int(ref.KVar): mqttp.PropertyTypeVarInt,
	int(ref.KStr): mqttp.PropertyTypeString, int(ref.KBin): mqttp.PropertyTypeBinary, int(ref.KPair): mqttp.PropertyTypeStringPair,
}

// Accessors checks the getters that are about one thing: properties that are
// absent are not found, those present are read as their own type only, and an
// enumeration of filters stops when its visitor says so.
func Accessors(m mqttp.IFace, want *ref.Pkt, stop int) string {
	have := map[byte]bool{}
	if want.V5() {
		for _, p := range want.Props {
			have[p.ID] = true
		}
	}
	for id := 0; id < 128; id++ {
		v := m.PropertyGet(mqttp.PropertyID(id))
		if (v != nil) != have[byte(id)] {
			return fmt.Sprintf("property %#x is there: %t, PropertyGet finds it: %t", id, have[byte(id)], v != nil)
		}
		if v == nil {
			continue
		}
		k := ref.PropByID[byte(id)].Kind
		if v.Type() != kindType[int(k)] {
			return fmt.Sprintf("property %#x has type %d, Type says %d", id, kindType[int(k)], v.Type())
		}
		_, e1 := v.AsByte()
		_, e2 := v.AsShort()
		_, e3 := v.AsInt()
		_, e4 := v.AsString()
		_, e5 := v.AsBinary()
		_, e6 := v.AsStringPair()
		_, e7 := v.AsStringPairs()
		for _, g := range []struct {
			name string
			err  error
			ok   bool
		}{
			{"AsByte", e1, k == ref.KByte}, {"AsShort", e2, k == ref.KShort}, {"AsInt", e3, k == ref.KInt || k == ref.KVar},
			{"AsString", e4, k == ref.KStr}, {"AsBinary", e5, k == ref.KBin}, {"AsStringPair", e6, k == ref.KPair}, {"AsStringPairs", e7, k == ref.KPair},
		} {
			if g.err == nil && !g.ok {
				return fmt.Sprintf("property %#x is read as another type by %s", id, g.name)
			}
		}
	}
	visit := func(each func(func(*mqttp.Topic) error) error) string {
		if len(want.Subs) == 0 {
			return ""
		}
		stop %= len(want.Subs)
		var seen []string
		mine := fmt.Errorf("stop")
		err := each(func(t *mqttp.Topic) error {
			seen = append(seen, t.Full())
			if len(seen) == stop+1 {
				return mine
			}
			return nil
		})
		switch {
		case err != mine:
			return fmt.Sprintf("the visitor of filter %d of %d fails, ForEachTopic reports %v", stop+1, len(want.Subs), err)
		case len(seen) != stop+1:
			return fmt.Sprintf("the visitor of filter %d fails, %d filters are visited", stop+1, len(seen))
		}
		return ""
	}
	switch m := m.(type) {
	case *mqttp.Subscribe:
		return visit(m.ForEachTopic)
	case *mqttp.UnSubscribe:
		return visit(m.ForEachTopic)
	}
	return ""
}
