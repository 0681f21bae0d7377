// Package rand stands in for math/rand/v2 with simulator choices.
package rand

import (
	"math/rand/v2"

	"SIMROOT/simrt"
)

// Generators with a source of their own are as deterministic as their seed.
type (
	Rand    = rand.Rand
	Source  = rand.Source
	PCG     = rand.PCG
	ChaCha8 = rand.ChaCha8
	Zipf    = rand.Zipf
)

var (
	New        = rand.New
	NewPCG     = rand.NewPCG
	NewChaCha8 = rand.NewChaCha8
	NewZipf    = rand.NewZipf
)

func ExpFloat64() float64  { return New(NewPCG(simrt.Uint64(), 1)).ExpFloat64() }
func NormFloat64() float64 { return New(NewPCG(simrt.Uint64(), 1)).NormFloat64() }
func Uint() uint           { return uint(simrt.Uint64()) }

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func N[T integer](n T) T { return T(simrt.Uint64() % uint64(n)) }

func Uint64() uint64          { return simrt.Uint64() }
func Uint32() uint32          { return uint32(simrt.Uint64() >> 32) }
func Int() int                { return int(simrt.Uint64() >> 1) }
func Int64() int64            { return int64(simrt.Uint64() >> 1) }
func Int32() int32            { return int32(simrt.Uint64() >> 33) }
func intn(n int) int          { return int(simrt.Uint64()>>1) % n }
func IntN(n int) int          { return intn(n) }
func int63n(n int64) int64    { return int64(simrt.Uint64()>>1) % n }
func Int64N(n int64) int64    { return int63n(n) }
func int31n(n int32) int32    { return int32(simrt.Uint64()>>33) % n }
func Int32N(n int32) int32    { return int31n(n) }
func Uint64N(n uint64) uint64 { return simrt.Uint64() % n }
func Uint32N(n uint32) uint32 { return Uint32() % n }
func UintN(n uint) uint       { return uint(simrt.Uint64()) % n }
func Float64() float64        { return float64(simrt.Uint64()>>11) / (1 << 53) }
func Float32() float32        { return float32(Float64()) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, intn(i+1))
	}
}
