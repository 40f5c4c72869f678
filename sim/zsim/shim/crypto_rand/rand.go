// Package rand is the simulated crypto/rand.
package rand

import (
	crand "crypto/rand"
	"io"
	"math/big"
	"zsim/core"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) { return core.ReadRandom(b) }

// Reader is the simulated system randomness.
var Reader io.Reader = reader{}

func init() { core.OnProcStart(func(*core.Proc) { Reader = reader{} }) }

func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

const base32 = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"

func Text() string {
	b := make([]byte, 26)
	core.ReadRandom(b)
	for i := range b {
		b[i] = base32[b[i]%32]
	}
	return string(b)
}

func Int(r io.Reader, max *big.Int) (*big.Int, error) { return crand.Int(r, max) }
func Prime(r io.Reader, bits int) (*big.Int, error)   { return crand.Prime(r, bits) }
