package vsim

// Stream is one recorded choice tape.  While generating, values come from a
// PRNG and are recorded; while replaying they come from a given tape, and are
// zero (the simplest choice) past its end.
type Stream struct {
	Name   string
	Tape   []uint32
	state  uint64
	replay bool
	src    []uint32
	pos    int
}

func NewStream(name string, seed uint64) *Stream {
	h := seed
	for _, c := range []byte(name) {
		h = (h ^ uint64(c)) * 0x100000001b3
	}
	s := &Stream{Name: name, state: h}
	s.rnd()
	s.rnd()
	return s
}

func ReplayStream(name string, tape []uint32) *Stream {
	return &Stream{Name: name, replay: true, src: tape}
}

// splitmix64
func (s *Stream) rnd() uint64 {
	s.state += 0x9e3779b97f4a7c15
	z := s.state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (s *Stream) take() (uint32, bool) {
	if !s.replay {
		return 0, false
	}
	var v uint32
	if s.pos < len(s.src) {
		v = s.src[s.pos]
	}
	s.pos++
	s.Tape = append(s.Tape, v)
	return v, true
}

// N draws from 0..n-1; 0 is the simplest value.
func (s *Stream) N(n int) int {
	if n <= 1 {
		return 0
	}
	if v, ok := s.take(); ok {
		return int(v % uint32(n))
	}
	v := uint32(s.rnd() % uint64(n))
	s.Tape = append(s.Tape, v)
	return int(v)
}

// Range draws from lo..hi inclusive; lo is the simplest value.
func (s *Stream) Range(lo, hi int) int { return lo + s.N(hi-lo+1) }

// P is true with probability num/den; false is the simplest value.
func (s *Stream) P(num, den int) bool {
	if num <= 0 {
		return false
	}
	if v, ok := s.take(); ok {
		return v != 0
	}
	var v uint32
	if int(s.rnd()%uint64(den)) < num {
		v = 1
	}
	s.Tape = append(s.Tape, v)
	return v != 0
}

// Weighted draws an index with the given weights; index 0 is the simplest.
func (s *Stream) Weighted(w ...int) int {
	if v, ok := s.take(); ok {
		return int(v % uint32(len(w)))
	}
	t := 0
	for _, x := range w {
		t += x
	}
	r := int(s.rnd() % uint64(t))
	k := 0
	for i, x := range w {
		if r < x {
			k = i
			break
		}
		r -= x
	}
	s.Tape = append(s.Tape, uint32(k))
	return k
}

// Gap draws a geometric-like distance >= 1 with the given mean; 0 (only when
// replaying an edited tape) means "never".
func (s *Stream) Gap(mean int) int {
	if v, ok := s.take(); ok {
		return int(v)
	}
	v := 1
	if mean > 1 {
		v = 1 + int(s.rnd()%uint64(2*mean-1))
	}
	s.Tape = append(s.Tape, uint32(v))
	return v
}
