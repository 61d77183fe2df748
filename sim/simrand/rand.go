// Package rand stands in for math/rand: the default source is the simulator's.
package rand

import "helena/verifsim/rt"

func Intn(n int) int       { return rt.Cur().C.N(rt.Fault, n) }
func Int() int             { return rt.Cur().C.N(rt.Fault, 1<<30) }
func Float64() float64     { return float64(Int()) / (1 << 30) }
func Seed(int64)           {}
func Int63() int64         { return int64(Int()) }
func Int31n(n int32) int32 { return int32(Intn(int(n))) }
func Int63n(n int64) int64 { return int64(Intn(int(n))) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, i-Intn(i+1))
	}
}
