// Package rand stands in for crypto/rand with simulator choices.
package rand

import (
	"io"
	"math/big"

	"SIMROOT/simrt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(simrt.Uint64() >> 17)
	}
	return len(b), nil
}

// Reader is the source of random bytes.
var Reader io.Reader = reader{}

// Read fills b.
func Read(b []byte) (int, error) { return reader{}.Read(b) }

// Int returns a number below max.
func Int(_ io.Reader, max *big.Int) (*big.Int, error) {
	b := make([]byte, len(max.Bytes())+8)
	_, _ = Read(b)
	return new(big.Int).Mod(new(big.Int).SetBytes(b), max), nil
}

// Text returns a random text.
func Text() string {
	b := make([]byte, 26)
	_, _ = Read(b)
	for i := range b {
		b[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"[b[i]%32]
	}
	return string(b)
}
