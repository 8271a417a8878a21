package main

// Rng is a small deterministic generator (splitmix64). Every choice of the
// simulator and every byte of randomness handed to the library comes from one.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{s: seed} }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// sub derives an independent seed.
func sub(seed uint64, label ...uint64) uint64 {
	z := mix(seed + 0x9e3779b97f4a7c15)
	for _, l := range label {
		z = mix(z ^ (l+0x632be59bd9b4e019)*0x9e3779b97f4a7c15)
	}
	return z
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Between returns a value of [lo, hi].
func (r *Rng) Between(lo, hi int) int { return lo + r.N(hi-lo+1) }

func (r *Rng) P(p float64) bool { return float64(r.U64()>>11)/(1<<53) < p }

func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	r.Fill(b)
	return b
}

func (r *Rng) Fill(b []byte) {
	for i := 0; i < len(b); i += 8 {
		v := r.U64()
		for j := i; j < i+8 && j < len(b); j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
}

func (r *Rng) Pick(xs ...int) int { return xs[r.N(len(xs))] }

// Weighted picks an index according to the weights; -1 if all are zero.
func (r *Rng) Weighted(w []int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	if t == 0 {
		return -1
	}
	k := r.N(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return -1
}

// Perm returns a random permutation of 0..n-1.
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
