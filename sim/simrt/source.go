// Package simrt is the deterministic simulation runtime: one seeded source of
// choices decides every interleaving, delay, clock movement and fault of a run.
package simrt

// Source hands out choices. In search mode they come from a seeded generator
// and are recorded; in replay mode they come from a recorded sequence and are 0
// once it is used up. 0 is always the simplest choice.
type Source struct {
	s      [2]uint64
	Rec    []uint32
	replay []uint32
	pos    int
	isRep  bool
	// Forced answers the first choices (stratification: the run index decides
	// the focus of the run, the seed everything else).
	Forced []uint32
}

func splitmix(x *uint64) uint64 {
	*x += 0x9E3779B97F4A7C15
	z := *x
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Mix hashes several numbers into one seed.
func Mix(xs ...uint64) uint64 {
	var h uint64 = 0x1234567
	for _, x := range xs {
		h ^= x
		h = splitmix(&h)
	}
	return h
}

// NewSource makes a search-mode source.
func NewSource(seed uint64) *Source {
	r := &Source{}
	x := seed
	r.s[0] = splitmix(&x)
	r.s[1] = splitmix(&x) | 1
	return r
}

// NewReplay makes a replay-mode source.
func NewReplay(seq []uint32) *Source {
	return &Source{replay: seq, isRep: true}
}

func (r *Source) next() uint64 {
	s1, s0 := r.s[0], r.s[1]
	res := s0 + s1
	r.s[0] = s0
	s1 ^= s1 << 23
	r.s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5)
	return res
}

// Choose returns a value in [0,n).
func (r *Source) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	switch {
	case r.isRep:
		if r.pos < len(r.replay) {
			v = r.replay[r.pos]
		}
	case r.pos < len(r.Forced):
		v = r.Forced[r.pos]
	default:
		v = uint32(r.next() >> 33)
	}
	r.pos++
	v %= uint32(n)
	r.Rec = append(r.Rec, v)
	return int(v)
}

// Bool is true with probability num/den.
func (r *Source) Bool(num, den int) bool {
	if num <= 0 {
		r.Choose(1)
		return false
	}
	// the simplest choice (0) is false
	return r.Choose(den) >= den-num
}

// Range returns a value in [lo,hi].
func (r *Source) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + r.Choose(hi-lo+1)
}

// Weighted picks an index with the given weights; index 0 should be simplest.
func (r *Source) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	v := r.Choose(t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// U64 returns any 64-bit value, biased to boundaries.
func (r *Source) U64() uint64 {
	switch r.Weighted(4, 3, 2, 2) {
	case 0:
		return uint64(r.Choose(8))
	case 1:
		return uint64(r.Choose(1 << 16))
	case 2:
		return ^uint64(0) - uint64(r.Choose(8))
	}
	hi := uint64(r.Choose(1 << 31))
	lo := uint64(r.Choose(1 << 31))
	return hi<<33 ^ lo
}
