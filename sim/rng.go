package main

// rng is a splitmix64 generator; every random choice outside the scheduler comes from one.
type rng struct{ s uint64 }

func mix64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func newRng(parts ...uint64) *rng {
	s := uint64(0x243f6a8885a308d3)
	for _, p := range parts {
		s = mix64(s ^ mix64(p+0x9e3779b97f4a7c15))
	}
	return &rng{s}
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix64(r.s)
}
func (r *rng) intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.next() % uint64(n))
}
func (r *rng) rangei(lo, hi int) int { return lo + r.intn(hi-lo+1) }
func (r *rng) oneIn(n int) bool      { return r.intn(n) == 0 }
func (r *rng) pct(p int) bool        { return r.intn(100) < p }
func (r *rng) pick(v ...int) int     { return v[r.intn(len(v))] }
func (r *rng) fork(tag string) *rng  { return newRng(r.next(), hashStr(tag)) }

// logRange is roughly log-uniform in [lo, hi].
func (r *rng) logRange(lo, hi int) int {
	if lo < 1 {
		lo = 1
	}
	bits := 0
	for v := hi / lo; v > 1; v >>= 1 {
		bits++
	}
	v := lo << uint(r.intn(bits+1))
	v += r.intn(v)
	if v > hi {
		v = hi
	}
	return v
}
