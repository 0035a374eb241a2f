package main

// Rng is the only source of randomness of plan generation.
type Rng struct{ s uint64 }

func newRng(seed uint64) *Rng { return &Rng{seed*0x9e3779b97f4a7c15 + 0x1234567} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0,n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [a,b].
func (r *Rng) Range(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability p.
func (r *Rng) P(p float64) bool { return float64(r.U64()>>11)/(1<<53) < p }

// Pick returns one of the choices.
func (r *Rng) Pick(c ...string) string { return c[r.N(len(c))] }

// Weighted picks an index by weight.
func (r *Rng) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.N(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

func mix(a, b uint64) uint64 {
	r := Rng{a ^ b*0x9e3779b97f4a7c15}
	r.U64()
	return r.U64()
}

func hashString(s string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}
