// Package zzvrand replaces math/rand in instrumented builds, so that the
// explorer decides every draw.
package zzvrand

import "math/rand"

type (
	Rand   = rand.Rand
	Source = rand.Source
)

// Pick chooses a number in [0, n). If it is nil, math/rand decides.
var Pick func(n int64) int64

func NewSource(seed int64) Source { return rand.NewSource(seed) }
func New(s Source) *Rand          { return rand.New(s) }
func Seed(int64)                  {}
func Float64() float64            { return float64(Int63n(1<<53)) / (1 << 53) }
func Float32() float32            { return float32(Int63n(1<<24)) / (1 << 24) }
func Int63() int64                { return Int63n(1<<63 - 1) }
func Int() int                    { return int(Int63()) }
func Int31() int32                { return int32(Int63n(1<<31 - 1)) }
func Uint32() uint32              { return uint32(Int63n(1 << 32)) }
func Uint64() uint64              { return uint64(Int63())<<1 | uint64(Int63n(2)) }
func Intn(n int) int              { return int(Int63n(int64(n))) }
func Int31n(n int32) int32        { return int32(Int63n(int64(n))) }
func Shuffle(n int, f func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		f(i, Intn(i+1))
	}
}

func Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	Shuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}

func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	if Pick == nil {
		return rand.Int63n(n)
	}
	return Pick(n)
}
