package main

// Rand is the only source of random choices: a splitmix64 generator.
type Rand struct {
	s     uint64
	small int    // percentage of small texts, 0 for the usual
	theme uint64 // if not 0, all texts use the same few kinds of statements and expressions
}

func NewRand(parts ...uint64) *Rand {
	r := &Rand{s: 0x1234567890abcdef}
	for _, p := range parts {
		r.s ^= p * 0x9e3779b97f4a7c15
		r.Next()
	}
	return r
}

func (r *Rand) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a number in [0,n).
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

// Range returns a number in [lo,hi].
func (r *Rand) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

// P is true with the given percentage.
func (r *Rand) P(percent int) bool { return r.Intn(100) < percent }

func (r *Rand) Pick(l ...string) string { return l[r.Intn(len(l))] }

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}
