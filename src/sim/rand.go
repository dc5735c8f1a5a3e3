package sim

import "math"

// Rand is a small self-contained generator (splitmix64): identical everywhere.
type Rand struct{ s uint64 }

func (r *Rand) Seed(x uint64) { r.s = x*0x9E3779B97F4A7C15 + 0x1234567 }

func (r *Rand) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

func (r *Rand) Float() float64 { return float64(r.U64()>>11) / (1 << 53) }

func (r *Rand) Bool(p float64) bool { return r.Float() < p }

// Geom draws the number of failures before a success of probability p.
func (r *Rand) Geom(p float64) int64 {
	if p >= 1 {
		return 0
	}
	u := r.Float()
	if u <= 0 {
		u = 1e-18
	}
	v := math.Log(u) / math.Log(1-p)
	if v > 1e9 {
		v = 1e9
	}
	return int64(v)
}

// Pick returns one of the weights' indices.
func (r *Rand) Pick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.Intn(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}
