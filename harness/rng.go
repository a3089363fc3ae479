package main

import "math/bits"

// Rng is a splitmix64 generator: every random choice of a case comes from the
// (seed, property, case number) triple, so a case can be replayed alone.
type Rng struct{ s uint64 }

func newRng(seed uint64, prop string, i int) *Rng {
	h := uint64(14695981039346656037)
	for _, c := range []byte(prop) {
		h = (h ^ uint64(c)) * 1099511628211
	}

	r := &Rng{s: seed*0x9E3779B97F4A7C15 ^ h ^ uint64(i)*0xD1B54A32D192ED03}
	r.Next()
	r.Next()

	return r
}

func (r *Rng) Next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB

	return z ^ (z >> 31)
}

// Intn returns a number in [0,n).
func (r *Rng) Intn(n int) int {
	hi, _ := bits.Mul64(r.Next(), uint64(n))
	return int(hi)
}

// Range returns a number in [a,b].
func (r *Rng) Range(a, b int) int { return a + r.Intn(b-a+1) }

// P is true with probability p.
func (r *Rng) P(p float64) bool { return r.Float() < p }

// Float returns a number in [0,1).
func (r *Rng) Float() float64 { return float64(r.Next()>>11) / (1 << 53) }

func (r *Rng) Str(xs ...string) string { return xs[r.Intn(len(xs))] }

func (r *Rng) Pick(xs ...int) int { return xs[r.Intn(len(xs))] }

func (r *Rng) F(xs ...float64) float64 { return xs[r.Intn(len(xs))] }

func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}

	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}

	return p
}

func (r *Rng) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}
