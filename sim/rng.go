package main

// rng is the one source of choice: SplitMix64.
type rng struct{ s uint64 }

func mix(vs ...uint64) uint64 {
	h := uint64(0x9E3779B97F4A7C15)
	for _, v := range vs {
		h ^= v + 0x9E3779B97F4A7C15 + (h << 6) + (h >> 2)
		h = (h ^ (h >> 30)) * 0xBF58476D1CE4E5B9
		h = (h ^ (h >> 27)) * 0x94D049BB133111EB
		h ^= h >> 31
	}
	return h
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func newRng(vs ...uint64) *rng { return &rng{mix(vs...)} }

func (r *rng) u64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

func (r *rng) between(a, b int) int { return a + r.n(b-a+1) }
func (r *rng) p(percent int) bool   { return r.n(100) < percent }

func pick[T any](r *rng, xs []T) T { return xs[r.n(len(xs))] }

func shuffle[T any](r *rng, xs []T) {
	for i := len(xs) - 1; i > 0; i-- {
		j := r.n(i + 1)
		xs[i], xs[j] = xs[j], xs[i]
	}
}

// arg0 is a name by which the command may be called.
func (r *rng) arg0(exe string) string {
	return pick(r, []string{"", "", exe, "./tsh", "bin/tsh", "/usr/local/bin/tsh", "typeshell", "-tsh", "/src/app/tsh"})
}
