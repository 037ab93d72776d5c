// Package props holds the simulated worlds and the oracles of every property.
package props

import (
	"bytes"
	"errors"
	"fmt"
	"time"

	"github.com/VolantMQ/vlapi/mqttp"

	"verif/lib"
	"verif/ref"
	"verif/simrt"
)

// Ctx is one run of one scenario.
type Ctx struct {
	*simrt.Sim
	Thorough   bool
	Nontrivial bool
	// KnownHit names a listed finding that this run showed.
	KnownHit string
	prevOdd  byte
	mine     *ref.Pkt // contents under test
	other    int8     // other connections in the same process: 1 silent, 2 active
}

// Variant is one kind of simulated world of a property.
type Variant struct {
	Name   string
	Weight int
	Run    func(*Ctx)
}

// Check decides one property.
type Check struct {
	ID        string
	Variants  []Variant
	Quick     int64 // number of runs
	Thorough  int64
	StepLimit int64
	Rule      string
	Real      []string
	Stub      []string
	// Foreign lists the classes of failures that break another property: they
	// end a run without a violation of this one.
	Foreign []string
	// Races looks for data races in a quarter of the runs.
	Races bool
}

// Checks by property.
var Checks = map[string]*Check{}

func register(c *Check) { Checks[c.ID] = c }

// Run executes one run.
func (k *Check) Run(src *simrt.Source, index int64, forced bool, log, thorough bool, known func(class, detail string) string) (simrt.Result, *Ctx) {
	c := &Ctx{Thorough: thorough}
	var table []int
	for i, v := range k.Variants {
		for j := 0; j < v.Weight; j++ {
			table = append(table, i)
		}
	}
	if forced {
		src.Forced = []uint32{uint32(index/8 + index%8)}
	}
	if index&1 == 1 || simrt.Left() {
		// half of the runs find the library as in a process that has just
		// started, the others with what earlier runs left in it
		simrt.Cold()
	}
	cfg := simrt.Config{Log: log, StepLimit: k.StepLimit}
	res := simrt.Run(src, cfg, func(s *simrt.Sim) {
		c.Sim = s
		if k.Races && index/8%4 == 3 {
			// what threads share must be ordered by synchronisation
			s.Races()
		}
		v := k.Variants[table[s.Choose(len(table))]]
		s.Probe("variant:" + v.Name)
		v.Run(c)
	})
	if f := res.Failure; f != nil && !f.Harness {
		for _, x := range k.Foreign {
			if f.Class == x {
				res.Probes["foreign:"+x]++
				c.Nontrivial, res.Failure = false, nil
				break
			}
		}
	}
	if f := res.Failure; f != nil && !f.Harness && known != nil {
		if id := known(f.Class, f.Detail); id != "" {
			c.KnownHit = id
			res.Failure = nil
		}
	}
	return res, c
}

// pk is the picker that varies equivalent ways of using the API.
func (c *Ctx) pk() lib.Picker { return c.Choose }

// ver draws a protocol version.
func (c *Ctx) ver() byte { return []byte{5, 4, 3}[c.Weighted(5, 3, 1)] }

// try runs an operation of the library that must not panic.
func (c *Ctx) try(what string, fn func()) {
	if p := c.Try(fn); p != "" {
		c.Fail("panic", "%s: %s", what, p)
	}
}

func hexs(b []byte) string {
	if len(b) > 96 {
		return fmt.Sprintf("%x...%x (%d bytes)", b[:64], b[len(b)-16:], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func incomplete(err error) bool {
	return errors.Is(err, mqttp.ErrInsufficientDataSize) || errors.Is(err, mqttp.ErrInsufficientBufferSize)
}

// refEncode encodes with the independent encoder in a random permitted form.
func (c *Ctx) refEncode(p *ref.Pkt) *ref.Enc {
	return ref.Encode(p, &ref.Variant{Pick: c.Choose})
}

// build makes the packet through the library's API; legal contents must be
// accepted.
func (c *Ctx) build(p *ref.Pkt) mqttp.IFace {
	var m mqttp.IFace
	var err error
	if len(p.Payload) < 1000 {
		c.mine = p.Clone()
	}
	c.others()
	c.try("building "+ref.TypeNames[p.Type], func() { m, err = lib.Build(p, c.pk()) })
	if err != nil {
		c.Fail("build-refused", "legal contents refused: %v: %s", err, p)
	}
	return m
}

// encode encodes a legal packet.
func (c *Ctx) encode(m mqttp.IFace, p *ref.Pkt) []byte {
	var b []byte
	var err error
	c.try("encoding "+ref.TypeNames[p.Type], func() { b, err = lib.Encode(m, c.pk()) })
	if err != nil {
		c.Fail("encode-refused", "legal contents cannot be encoded: %v: %s", err, p)
	}
	return b
}

func (c *Ctx) decode(ver byte, b []byte) (m mqttp.IFace, n int, err error) {
	c.try("decoding", func() { m, n, err = lib.Decode(ver, b) })
	return
}

// others() is traffic of other connections in the same process, some of it
// hostile, whose packets nobody here looks at.
func (c *Ctx) others() {
	if c.other == 0 {
		c.other = 1 + int8(c.Weighted(5, 1))
	}
	if c.other == 1 {
		return
	}
	for i := c.Choose(4); i > 1; i-- {
		ver := c.ver()
		var p *ref.Pkt
		if c.mine != nil && c.Choose(3) == 2 {
			// contents like those under test
			p, ver = c.mine, c.mine.Ver
		} else {
			p = (&ref.Gen{S: c.Source, Small: true}).Packet(ver)
		}
		e := c.refEncode(p)
		b := e.B
		what := "legal"
		if c.Choose(3) != 2 {
			what = "damaged"
			b = c.mutate(e, ver)
		}
		c.Fault("other-traffic-" + what)
		if c.Logging() {
			c.Logf("another connection's %s bytes: %s", what, hexs(b))
		}
		m, _, err := c.decode(ver, b)
		if m == nil || err != nil {
			continue
		}
		c.try("another connection's work", func() {
			switch c.Choose(4) {
			case 0:
				m.PropertiesDiscard()
			case 1:
				mqttp.Encode(m)
			case 2:
				m.Encode(make([]byte, c.Choose(8)))
			}
		})
	}
}

// match compares a received packet with the contents sent.
func (c *Ctx) match(class string, want *ref.Pkt, m mqttp.IFace) {
	var d string
	c.try("reading "+ref.TypeNames[want.Type], func() { d = lib.Match(want, m) })
	if d != "" {
		c.Fail(class, "%s of %s", d, want)
	}
}

// Pipe is one direction of a simulated reliable byte stream.
type Pipe struct {
	c      *Ctx
	q      []byte // sent, not yet delivered
	sched  int    // bytes of q with a delivery event
	in     []byte // delivered, not yet read
	last   time.Duration
	style  int
	closed bool
	reset  bool
	stalls bool
	Sent   int64
}

// newPipe makes a pipe with a random delivery style.
func (c *Ctx) newPipe() *Pipe {
	return &Pipe{c: c, style: c.Weighted(2, 3, 3, 2, 2), stalls: c.Bool(1, 4)}
}

func (p *Pipe) chunk(n int) int {
	c := p.c
	lim := n
	switch p.style {
	case 0:
		return n
	case 1:
		lim = 1
	case 2:
		lim = 1 + c.Choose(6)
	case 3:
		lim = 1 + c.Choose(64)
	case 4:
		lim = 1 + c.Choose(2000)
	}
	if lim < n/24 {
		// big packets are not cut into more than a few dozen pieces, apart
		// from their first bytes
		if p.Sent-int64(len(p.q)) >= 0 && c.Choose(8) != 0 {
			lim = n/24 + c.Choose(n/12+1)
		}
	}
	if lim > n {
		lim = n
	}
	return lim
}

// Send puts bytes into the stream.
func (p *Pipe) Send(b []byte) {
	if p.closed {
		return
	}
	c := p.c
	p.q = append(p.q, b...)
	p.Sent += int64(len(b))
	first := true
	for p.sched < len(p.q) {
		n := p.chunk(len(p.q) - p.sched)
		if n < len(p.q)-p.sched {
			c.Fault("fragment")
		} else if !first || p.sched > 0 {
			c.Fault("coalesce")
		}
		first = false
		p.sched += n
		d := time.Duration(c.Choose(3)) * time.Millisecond
		if p.stalls && c.Bool(1, 10) {
			d += time.Duration(1+c.Choose(20)) * time.Second
			c.Fault("stall")
		} else if d > 0 {
			c.Fault("delay")
		}
		at := c.Elapsed() + d
		if at < p.last {
			at = p.last
		}
		p.last = at
		c.At(at-c.Elapsed(), func() {
			if p.reset {
				return
			}
			p.in = append(p.in, p.q[:n]...)
			p.q = p.q[n:]
			p.sched -= n
		})
	}
}

// Close ends the stream after what was sent.
func (p *Pipe) Close() {
	d := p.last - p.c.Elapsed()
	if d < 0 {
		d = 0
	}
	p.c.At(d, func() { p.closed = true })
}

// Reset loses what is still in flight.
func (p *Pipe) Reset() {
	p.c.Fault("reset")
	p.reset, p.closed = true, true
}

// Recv waits for bytes; false at the end of the stream.
func (p *Pipe) Recv() ([]byte, bool) {
	c := p.c
	if len(p.in) == 0 {
		c.Wait(func() bool { return len(p.in) > 0 || p.closed })
	}
	if len(p.in) == 0 {
		return nil, false
	}
	if c.Bool(1, 6) {
		// a slow reader finds more bytes at once
		c.Fault("slow-reader")
		c.Sleep(time.Duration(1+c.Choose(30)) * time.Millisecond)
	}
	b := p.in
	p.in = nil
	return b, true
}

// step is what the library says about a receive buffer.
type step struct {
	m    mqttp.IFace
	n    int // bytes consumed by m
	need int // total announced while incomplete
	more bool
	err  error
}

// next extracts one packet from the receive buffer, guided only by the answers
// of Decode.
func (c *Ctx) next(ver byte, buf []byte) step {
	m, n, err := c.decode(ver, buf)
	if m != nil && err != nil {
		c.Fail("both", "Decode returned a packet and an error: %v", err)
	}
	if m != nil {
		return step{m: m, n: n}
	}
	if err == nil {
		c.Fail("neither", "Decode returned neither a packet nor an error on %s", hexs(buf))
	}
	if incomplete(err) {
		return step{more: true, need: n}
	}
	if n > 0 && n < len(buf) {
		m, k, err2 := c.decode(ver, buf[:n])
		if m != nil {
			return step{m: m, n: k}
		}
		return step{err: err2, n: n}
	}
	return step{err: err, n: n}
}

// frame is the length of the first packet by the fixed header alone; 0 when
// the length field is not complete, -1 when it is too long.
func frame(b []byte) int {
	x := 0
	for i := 1; i < len(b); i++ {
		if i > 4 {
			return -1
		}
		x |= int(b[i]&127) << (7 * (i - 1))
		if b[i] < 128 {
			return 1 + i + x
		}
	}
	return 0
}

func hdrLen(b []byte) int {
	for i := 1; i < len(b) && i < 5; i++ {
		if b[i] < 128 {
			return 1 + i
		}
	}
	return 0
}

func clone(b []byte) []byte { return bytes.Clone(b) }
