// Package rng is the only source of randomness of the simulator: a splitmix64
// generator whose output depends on nothing but its seed (no library
// generator, whose algorithm could change between Go releases).
package rng

type R struct{ s uint64 }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// New derives a generator from any number of integers.
func New(parts ...uint64) *R {
	s := uint64(0x243f6a8885a308d3)
	for _, p := range parts {
		s = mix(s+0x9e3779b97f4a7c15) ^ mix(p+0x13198a2e03707344)
	}
	return &R{s}
}

// Str hashes a string to a seed part.
func Str(x string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(x); i++ {
		h = (h ^ uint64(x[i])) * 1099511628211
	}
	return h
}

func (r *R) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// N returns a number in [0,n).
func (r *R) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a number in [lo,hi].
func (r *R) In(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with probability num/den.
func (r *R) P(num, den int) bool { return r.N(den) < num }

// Pick returns an index chosen with the given weights.
func (r *R) Pick(w []int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.N(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return len(w) - 1
}
