// Package simrand draws random numbers from the simulator.
package simrand

import "dst/sim"

func Int() int         { return sim.Choose(1 << 30) }
func Intn(n int) int   { return sim.Choose(n) }
func IntN(n int) int   { return sim.Choose(n) }
func Int63() int64     { return int64(sim.Choose(1 << 30)) }
func Float64() float64 { return float64(sim.Choose(1<<20)) / (1 << 20) }
func Seed(int64)       {}
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := i - sim.Choose(i+1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
