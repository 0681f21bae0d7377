// Package maphash stands in for hash/maphash: hashes are a function of the seed and
// the data alone, and seeds are simulator choices.
package maphash

import (
	"fmt"

	"SIMROOT/simrt"
)

// Seed selects a hash function.
type Seed struct{ s uint64 }

// MakeSeed returns a new seed.
func MakeSeed() Seed { return Seed{simrt.Uint64() | 1} }

const offset = 14695981039346656037

func mix(h uint64) uint64 {
	h ^= h >> 31
	h *= 0x9e3779b97f4a7c15
	return h ^ h>>29
}

func add(h uint64, b byte) uint64 { return (h ^ uint64(b)) * 1099511628211 }

func start(s Seed) uint64 {
	if s.s == 0 {
		panic("maphash: use of uninitialized Seed")
	}
	return mix(offset ^ s.s)
}

// String hashes s.
func String(seed Seed, s string) uint64 {
	h := start(seed)
	for i := 0; i < len(s); i++ {
		h = add(h, s[i])
	}
	return mix(h)
}

// Bytes hashes b.
func Bytes(seed Seed, b []byte) uint64 { return String(seed, string(b)) }

// Comparable hashes v.
func Comparable[T comparable](seed Seed, v T) uint64 { return String(seed, fmt.Sprintf("%#v", v)) }

// Hash computes a hash of what is written to it.
type Hash struct {
	seed Seed
	h    uint64
}

func (h *Hash) init() {
	if h.seed.s == 0 {
		h.SetSeed(MakeSeed())
	}
}

// Seed returns the seed.
func (h *Hash) Seed() Seed { h.init(); return h.seed }

// SetSeed sets the seed and forgets what was written.
func (h *Hash) SetSeed(s Seed) { h.seed, h.h = s, start(s) }

// Reset forgets what was written.
func (h *Hash) Reset() { h.init(); h.h = start(h.seed) }

// Write adds b.
func (h *Hash) Write(b []byte) (int, error) {
	h.init()
	for _, c := range b {
		h.h = add(h.h, c)
	}
	return len(b), nil
}

// WriteString adds s.
func (h *Hash) WriteString(s string) (int, error) { return h.Write([]byte(s)) }

// WriteByte adds c.
func (h *Hash) WriteByte(c byte) error { _, err := h.Write([]byte{c}); return err }

// WriteComparable adds v.
func WriteComparable[T comparable](h *Hash, v T) { _, _ = h.WriteString(fmt.Sprintf("%#v", v)) }

// Sum64 returns the hash.
func (h *Hash) Sum64() uint64 { h.init(); return mix(h.h) }

// Sum appends the hash to b.
func (h *Hash) Sum(b []byte) []byte {
	x := h.Sum64()
	for s := 56; s >= 0; s -= 8 {
		b = append(b, byte(x>>s))
	}
	return b
}

// Size is the size of a hash.
func (h *Hash) Size() int { return 8 }

// BlockSize is the block size.
func (h *Hash) BlockSize() int { return 128 }
