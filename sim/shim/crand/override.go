// Package rand draws random numbers from the simulator.
package rand

import (
	orig "crypto/rand"
	"io"
	"math/big"

	"verifsim.local/hook"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(hook.Rand() >> 32)
	}
	return len(p), nil
}

var Reader io.Reader = reader{}

func Read(p []byte) (int, error)                      { return io.ReadFull(Reader, p) }
func Int(_ io.Reader, max *big.Int) (*big.Int, error) { return orig.Int(Reader, max) }
