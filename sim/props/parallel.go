package props

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/VolantMQ/vlapi/mqttp"

	"verif/lib"
	"verif/ref"
	"verif/simrt"
)

func init() {
	register(&Check{
		ID: "C09", Quick: 180000, Thorough: 5400000, Races: true,
		Variants: []Variant{
			{"connections", 1, connections},
		},
		StepLimit: 1 << 26,
		Rule:      "each run: 2-5 simulated connections, each with its own script of 2-14 operations on its own packets (building, updating with right and wrong values, discarding, switching versions, encoding, decoding legal and damaged bytes, iterating with callbacks that yield, stop or die, cloning, topic and code helpers); every script runs alone first (in half of the runs not until afterwards), then all together under a random schedule with aborts, then alone again; each result must equal the one of the run alone, and legal packets are also judged by the model; non-trivial when at least two connections were interleaved inside the library; distinct by hash of schedule and results",
		Real:      []string{libReal}, Stub: []string{schedStub, refStub},
	})
}

// result of one operation, comparable without regard to the order of
// properties.
type result struct {
	text string
	pkt  *ref.Pkt
}

func (a result) diff(b result) string {
	if a.text != b.text {
		return fmt.Sprintf("%s / %s", a.text, b.text)
	}
	if (a.pkt == nil) != (b.pkt == nil) {
		return "a packet / none"
	}
	if a.pkt != nil {
		return ref.Diff(a.pkt, b.pkt)
	}
	return ""
}

// conn is one connection's state.
type conn struct {
	c   *Ctx
	m   mqttp.IFace
	ver byte
}

type job struct {
	name string
	run  func(k *conn) result
}

// fixed makes a picker that answers the same in every run of the script.
func fixed(seed uint64) lib.Picker {
	n := uint64(0)
	return func(k int) int {
		n++
		return int(simrt.Mix(seed, n) % uint64(k))
	}
}

var errStop = errors.New("stop")

func (c *Ctx) job(ver byte, shared [][]byte) job {
	seed := c.U64()
	g := &ref.Gen{S: c.Source, ForLib: true, Small: c.Bool(15, 16), Mid: true}
	switch c.Weighted(5, 5, 3, 3, 3, 2, 2, 1, 2, 3, 1) {
	case 0:
		p := g.Packet(ver)
		extra := c.Choose(20)
		return job{"build and encode", func(k *conn) result {
			c.try("building", func() {
				m, err := lib.Build(p, fixed(seed))
				if err != nil {
					c.Fail("build-refused", "legal contents refused: %v: %s", err, p)
				}
				k.m = m
			})
			var n int
			var err error
			var buf []byte
			c.try("encoding", func() {
				n, err = k.m.Size()
				if err != nil {
					return
				}
				buf = make([]byte, n+extra)
				for i := range buf {
					buf[i] = 0x5A
				}
				n, err = k.m.Encode(buf)
			})
			if err != nil {
				c.Fail("encode-refused", "legal contents cannot be encoded: %v: %s", err, p)
			}
			r := ref.Parse(p.Ver, buf[:n])
			if r.Pkt == nil {
				c.Fail("interference", "the encoding is not a packet (%s): %s: %s", r.Why, p, hexs(buf[:n]))
			}
			if d := ref.Diff(wire(p), wire(r.Pkt)); d != "" {
				c.Fail("interference", "the encoding is another packet: %s: %s", d, p)
			}
			for _, b := range buf[n:] {
				if b != 0x5A {
					c.Fail("interference", "bytes after the packet were written: %s", p)
				}
			}
			return result{fmt.Sprint(n), wire(r.Pkt)}
		}}
	case 1:
		p, e := c.legalBytes(g, ver)
		b := e.B
		return job{"decode", func(k *conn) result {
			in := clone(b)
			m, n, err := c.decode(ver, in)
			if err != nil || m == nil {
				c.Fail("interference", "a legal packet is rejected: %v: %s", err, p)
			}
			k.m = m
			c.match("interference", p, m)
			if string(in) != string(b) {
				c.Fail("interference", "the input was modified: %s", p)
			}
			return result{fmt.Sprint(n), nil}
		}}
	case 2:
		_, e := c.legalBytes(g, ver)
		b := clone(e.B)
		switch c.Choose(3) {
		case 0:
			b = b[:c.Choose(len(b))]
		case 1:
			b[c.Choose(len(b))] ^= 1 << c.Choose(8)
		case 2:
			b = append(b, byte(c.Choose(256)))
		}
		return job{"decode of damaged bytes", func(k *conn) result {
			m, n, err := c.decode(ver, clone(b))
			if err != nil || m == nil {
				return result{fmt.Sprintf("%d %v", n, err), nil}
			}
			return result{fmt.Sprint(n), k.look(m)}
		}}
	case 3:
		id := byte(c.Choose(0x2C))
		d := ref.PropByID[id]
		var v interface{} = 1.5
		if d != nil && c.Choose(4) > 0 {
			n := 1
			if d.Kind == ref.KPair {
				n = 1 + c.Choose(4)
			}
			var ps []ref.Prop
			for i := 0; i < n; i++ {
				ps = append(ps, g.PropVal(d))
			}
			v = lib.PropValue(ps, c.pk())
		}
		return job{"property update", func(k *conn) result {
			if k.m == nil {
				return result{}
			}
			var err error
			c.try("PropertySet", func() { err = k.m.PropertySet(mqttp.PropertyID(id), v) })
			return result{fmt.Sprint(err), k.look(k.m)}
		}}
	case 4:
		return job{"encode again", func(k *conn) result {
			if k.m == nil {
				return result{}
			}
			var b []byte
			var err error
			c.try("encoding", func() { b, err = mqttp.Encode(k.m) })
			if err != nil {
				return result{fmt.Sprint(err), nil}
			}
			r := ref.Parse(byte(k.m.Version()), b)
			if r.Pkt == nil {
				return result{fmt.Sprintf("%d bytes, %s", len(b), r.Why), nil}
			}
			return result{fmt.Sprint(len(b)), wire(r.Pkt)}
		}}
	case 5:
		stop := 1 + c.Choose(5)
		how := c.Choose(3)
		return job{"iteration", func(k *conn) result {
			if k.m == nil {
				return result{}
			}
			var seen []string
			visit := func(s string) error {
				seen = append(seen, s)
				c.Yield() // the connection may die here
				if len(seen) == stop {
					switch how {
					case 1:
						return errStop
					case 2:
						panic(errStop)
					}
				}
				return nil
			}
			var err error
			func() {
				defer func() {
					if r := recover(); r != nil {
						if r != any(errStop) {
							panic(r)
						}
						c.Fault("callback-panic")
					}
				}()
				switch m := k.m.(type) {
				case *mqttp.Subscribe:
					err = m.ForEachTopic(func(t *mqttp.Topic) error { return visit(t.Full() + fmt.Sprint(t.Ops())) })
				case *mqttp.UnSubscribe:
					err = m.ForEachTopic(func(t *mqttp.Topic) error { return visit(t.Full()) })
				default:
					err = k.m.PropertyForEach(func(id mqttp.PropertyID, v mqttp.PropertyToType) {
						visit(fmt.Sprintf("%x %v", id, v.Type()))
					})
				}
			}()
			switch k.m.Type() {
			case mqttp.SUBSCRIBE, mqttp.UNSUBSCRIBE:
			default:
				// properties come in any order
				if len(seen) >= stop && how > 0 {
					seen = []string{fmt.Sprint(stop)}
				}
				sort.Strings(seen)
			}
			return result{strings.Join(seen, ",") + fmt.Sprint(err), nil}
		}}
	case 6:
		f := g.Filter(ver)
		if c.Choose(3) == 0 {
			f = []string{"$share", "$share//a", "a/#/b", "a+", "", "$share/g/", "\xff", "$SYS"}[c.Choose(8)]
		}
		ops := mqttp.SubscriptionOptions(c.Choose(64))
		code := mqttp.ReasonCode(c.Choose(256))
		t := mqttp.Type(c.Choose(18))
		return job{"helpers", func(k *conn) result {
			var s string
			c.try("helpers", func() {
				x, err := mqttp.NewSubscribeTopic([]byte(f), ops)
				s = fmt.Sprint(err, mqttp.ValidTopic([]byte(f)), mqttp.IsValidUTF([]byte(f)))
				if err == nil {
					s += x.Full() + "|" + x.Filter() + "|" + x.ShareName() + "|" + x.DollarPrefix() + fmt.Sprint(x.Ops())
				}
				s += code.Error() + fmt.Sprint(code.IsValid(), code.IsValidForType(t)) + t.Name() + t.Desc()
				m, err := mqttp.New(mqttp.ProtocolVersion(ver), t)
				s += fmt.Sprint(err)
				if err == nil {
					s += m.Type().Name()
					if ps, _ := lib.Props(m); len(ps) > 0 {
						c.Fail("interference", "a new %s has properties: %v", m.Type().Name(), ps)
					}
				}
			})
			return result{s, nil}
		}}
	case 7:
		// bytes that several connections read at the same time
		b := shared[c.Choose(len(shared))]
		return job{"decode of shared bytes", func(k *conn) result {
			m, n, err := c.decode(ver, b)
			if err != nil || m == nil {
				return result{fmt.Sprintf("%d %v", n, err), nil}
			}
			return result{fmt.Sprint(n), k.look(m)}
		}}
	case 9:
		topic, filter, text := g.Topic(), g.Filter(ver), g.Text(1+c.Choose(8))
		return job{"updates", func(k *conn) result {
			if k.m == nil {
				return result{}
			}
			return k.update(fixed(seed), topic, filter, text)
		}}
	case 10:
		at := []time.Time{{}, c.Clock().Add(-time.Hour), c.Clock().Add(40 * time.Hour), c.Clock().Add(48*time.Hour + 1)}[c.Choose(4)]
		set := c.Choose(3) > 0
		return job{"expiry", func(k *conn) result {
			m, ok := k.m.(*mqttp.Publish)
			if !ok {
				return result{}
			}
			var t time.Time
			var ex bool
			c.try("expiry", func() {
				if set {
					m.SetExpireAt(at)
				}
				t, _, ex = m.Expired()
			})
			if set && (!t.Equal(at) || ex != (!at.IsZero() && !at.After(c.Clock()))) {
				c.Fail("interference", "a message that expires at %v is reported to expire at %v: expired %v", at, t, ex)
			}
			return result{fmt.Sprint(t.UnixNano(), ex), nil}
		}}
	}
	v := c.ver()
	return job{"clone", func(k *conn) result {
		m, ok := k.m.(*mqttp.Publish)
		if !ok {
			return result{}
		}
		var x *mqttp.Publish
		var err error
		c.try("Clone", func() { x, err = m.Clone(mqttp.ProtocolVersion(v)) })
		if err != nil {
			return result{fmt.Sprint(err), nil}
		}
		k.m = x
		return result{"", k.look(x)}
	}}
}

// update calls one to three setters of the connection's packet.
func (k *conn) update(pick lib.Picker, topic, filter, text string) result {
	var did []string
	for i := 1 + pick(3); i > 0; i-- {
		k.c.try("updating", func() {
			s := ""
			switch pick(6) {
			case 0:
				k.m.PropertiesDiscard()
				s = "discard"
			case 1:
				v := []mqttp.ProtocolVersion{3, 4, 5}[pick(3)]
				k.m.SetVersion(v)
				s = fmt.Sprint("version", v)
			default:
				s = k.setter(pick, topic, filter, text)
			}
			did = append(did, s)
		})
	}
	return result{strings.Join(did, ","), k.look(k.m)}
}

func (k *conn) setter(pick lib.Picker, topic, filter, text string) string {
	code := mqttp.ReasonCode(pick(256))
	if pick(2) == 0 {
		code = mqttp.ReasonCode(pick(3))
	}
	id := mqttp.IDType(1 + pick(65535))
	yes := pick(2) == 0
	switch m := k.m.(type) {
	case *mqttp.Publish:
		switch pick(7) {
		case 0:
			return fmt.Sprint("topic", m.SetTopic(topic))
		case 1:
			m.SetPayload([]byte(text))
		case 2:
			return fmt.Sprint("qos", m.SetQoS(mqttp.QosType(pick(4))))
		case 3:
			m.SetRetain(yes)
		case 4:
			m.SetDup(yes)
		case 5:
			return fmt.Sprint("set", m.Set(topic, []byte(text), mqttp.QosType(pick(3)), yes, false))
		case 6:
			m.SetPacketID(id)
		}
	case *mqttp.Connect:
		switch pick(6) {
		case 0:
			m.SetClean(yes)
		case 1:
			m.SetKeepAlive(uint16(id))
		case 2:
			return fmt.Sprint("client", m.SetClientID([]byte(text)))
		case 3:
			return fmt.Sprint("credentials", m.SetCredentials([]byte(text), []byte(topic)))
		case 4:
			m.ResetWill()
		case 5:
			w := mqttp.NewPublish(m.Version())
			a := w.Set(topic, []byte(text), mqttp.QosType(pick(3)), yes, false)
			return fmt.Sprint("will", a, m.SetWill(w))
		}
	case *mqttp.ConnAck:
		if yes {
			return fmt.Sprint("code", m.SetReturnCode(code))
		}
		m.SetSessionPresent(pick(2) == 0)
	case *mqttp.Ack:
		if yes {
			m.SetReason(code)
		} else {
			m.SetPacketID(id)
		}
	case *mqttp.Disconnect:
		m.SetReasonCode(code)
	case *mqttp.Auth:
		return fmt.Sprint("code", m.SetReasonCode(code))
	case *mqttp.SubAck:
		if yes {
			return fmt.Sprint("code", m.AddReturnCode(code))
		}
		m.SetPacketID(id)
	case *mqttp.UnSubAck:
		if yes {
			return fmt.Sprint("code", m.AddReturnCode(code))
		}
		m.SetPacketID(id)
	case *mqttp.Subscribe:
		if yes {
			t, err := mqttp.NewSubscribeTopic([]byte(filter), mqttp.SubscriptionOptions(pick(64)))
			if err == nil {
				err = m.AddTopic(t)
			}
			return fmt.Sprint("topic", err)
		}
		m.SetPacketID(id)
	case *mqttp.UnSubscribe:
		if yes {
			t, err := mqttp.NewTopic([]byte(filter))
			if err == nil {
				err = m.AddTopic(t)
			}
			return fmt.Sprint("topic", err)
		}
		m.SetPacketID(id)
	}
	return "set"
}

func (k *conn) look(m mqttp.IFace) *ref.Pkt {
	var p *ref.Pkt
	var err error
	k.c.try("reading", func() { p, err = lib.Observe(m) })
	if err != nil {
		k.c.Fail("unreadable", "%v", err)
	}
	return lib.Norm(p)
}

func connections(c *Ctx) {
	n := 2 + c.Weighted(4, 2, 1, 1)
	var shared [][]byte
	for i := 0; i < 2; i++ {
		_, e := c.legalBytes(&ref.Gen{S: c.Source, Small: true}, c.ver())
		shared = append(shared, e.B)
	}
	vers := make([]byte, n)
	scripts := make([][]job, n)
	for i := range scripts {
		vers[i] = c.ver()
		if i > 0 && c.Choose(4) == 0 {
			// connections that do the same things
			vers[i], scripts[i] = vers[i-1], scripts[i-1]
			continue
		}
		for j := 2 + c.Choose(6+6*c.Choose(2)); j > 0; j-- {
			scripts[i] = append(scripts[i], c.job(vers[i], shared))
		}
	}
	play := func(i int, yield bool, out *[]result) {
		k := &conn{c: c, ver: vers[i]}
		for j, x := range scripts[i] {
			if yield {
				c.Yield()
			}
			r := x.run(k)
			*out = append(*out, r)
			if yield {
				c.Logf("connection %d #%d %s", i, j, x.name)
			}
		}
	}
	// What the library remembers from the runs alone changes what it does among
	// others, so they come first in only half of the runs.
	cold := c.Choose(2) == 0
	alone := make([][]result, n)
	solo := func() {
		for i := range scripts {
			c.Solo(func() { play(i, false, &alone[i]) })
		}
	}
	if !cold {
		solo()
	}
	judge := func(i int, got []result, when string) {
		for j, r := range got {
			if d := alone[i][j].diff(r); d != "" {
				c.Fail("interference", "connection %d, operation %d (%s) %s differs from when it ran alone: %s", i, j, scripts[i][j].name, when, d)
			}
		}
	}
	c.ChooseSchedule()
	together := make([][]result, n)
	var ts []*simrt.Thread
	for i := range scripts {
		ts = append(ts, c.Go(fmt.Sprintf("conn%d", i), func() {
			play(i, true, &together[i])
			if !cold {
				judge(i, together[i], "among other connections")
			}
		}))
	}
	if c.Choose(3) == 0 {
		for k := 1 + c.Choose(n-1); k > 0; k-- {
			for w := c.Choose(12); w > 0; w-- {
				c.Yield()
			}
			ts[c.Choose(n)].Abort()
		}
	}
	c.Join(ts...)
	if c.Switches > int64(2*n) {
		c.Nontrivial = true
	}
	if cold {
		solo()
	}
	for i := range scripts {
		judge(i, together[i], "among other connections")
		var after []result
		c.Solo(func() { play(i, false, &after) })
		judge(i, after, "after the others")
	}
}
