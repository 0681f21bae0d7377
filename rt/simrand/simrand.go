// Package rand stands in for math/rand with simulator choices.
package rand

import (
	"math/rand"

	"SIMROOT/simrt"
)

// Generators with a source of their own are as deterministic as their seed.
type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

var (
	New       = rand.New
	NewSource = rand.NewSource
	NewZipf   = rand.NewZipf
)

func ExpFloat64() float64  { return New(NewSource(int64(simrt.Uint64()))).ExpFloat64() }
func NormFloat64() float64 { return New(NewSource(int64(simrt.Uint64()))).NormFloat64() }
func Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(simrt.Uint64() >> 17)
	}
	return len(b), nil
}
func Uint64() uint64       { return simrt.Uint64() }
func Uint32() uint32       { return uint32(simrt.Uint64() >> 32) }
func Int() int             { return int(simrt.Uint64() >> 1) }
func Int63() int64         { return int64(simrt.Uint64() >> 1) }
func Int31() int32         { return int32(simrt.Uint64() >> 33) }
func Intn(n int) int       { return int(simrt.Uint64()>>1) % n }
func Int63n(n int64) int64 { return int64(simrt.Uint64()>>1) % n }
func Int31n(n int32) int32 { return int32(simrt.Uint64()>>33) % n }
func Float64() float64     { return float64(simrt.Uint64()>>11) / (1 << 53) }
func Float32() float32     { return float32(Float64()) }
func Seed(int64)           {}
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}
