// Package engine is a small choice-sequence property-testing engine: every
// random decision of a generator is one draw from a recorded sequence of
// integers, so that a run is a pure function of the seed, and a failing case is
// shrunk by shrinking its sequence of choices (deleting and lowering them) and
// generating again.
package engine

// T is the source of choices given to a generator.
type T struct {
	state   uint64
	replay  []uint64
	pos     int
	fixed   bool // only replay: past the end, every choice is 0
	Choices []uint64
}

// NewT returns a source of fresh choices for the given seed and case index.
func NewT(seed, index uint64) *T {
	t := &T{state: seed*0x9E3779B97F4A7C15 ^ (index+1)*0xD1B54A32D192ED03}
	t.next()
	t.next()
	return t
}

// ReplayT returns a source which replays the given choices.
func ReplayT(choices []uint64) *T { return &T{replay: choices, fixed: true} }

func (t *T) next() uint64 { // splitmix64
	t.state += 0x9E3779B97F4A7C15
	z := t.state
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Intn draws a number in [0,n).
func (t *T) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint64
	if t.fixed {
		if t.pos < len(t.replay) {
			v = t.replay[t.pos]
		}
		t.pos++
		if v >= uint64(n) {
			v = uint64(n - 1)
		}
	} else {
		v = t.next() % uint64(n)
	}
	t.Choices = append(t.Choices, v)
	return int(v)
}

// Range draws a number in [lo,hi]; it shrinks towards lo.
func (t *T) Range(lo, hi int) int { return lo + t.Intn(hi-lo+1) }

// Chance is true in about n out of d draws; it shrinks towards false.
func (t *T) Chance(n, d int) bool { return t.Intn(d) >= d-n }

// Pick draws one of the given strings; it shrinks towards the first.
func (t *T) Pick(s ...string) string { return s[t.Intn(len(s))] }

// Weighted draws an index with the given weights; it shrinks towards the first.
func (t *T) Weighted(w ...int) int {
	total := 0
	for _, x := range w {
		total += x
	}
	v := t.Intn(total)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return len(w) - 1
}

// Perm draws a permutation of [0,n).
func (t *T) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + t.Intn(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Num draws one of the given numbers; it shrinks towards the first.
func (t *T) Num(n ...int) int { return n[t.Intn(len(n))] }
