// Package rand is math/rand/v2 with its global generator driven by the simulator.
package rand

import (
	"math/rand/v2"
	"zsim/core"
)

type src struct{}

func (src) Uint64() uint64 {
	if core.W == nil {
		return 42
	}
	return core.W.Ambient.Uint64()
}

var g = rand.New(src{})

func Int() int                        { return g.Int() }
func IntN(n int) int                  { return g.IntN(n) }
func Int32() int32                    { return g.Int32() }
func Int32N(n int32) int32            { return g.Int32N(n) }
func Int64() int64                    { return g.Int64() }
func Int64N(n int64) int64            { return g.Int64N(n) }
func Uint() uint                      { return uint(g.Uint64()) }
func UintN(n uint) uint               { return uint(g.Uint64N(uint64(n))) }
func Uint32() uint32                  { return g.Uint32() }
func Uint32N(n uint32) uint32         { return g.Uint32N(n) }
func Uint64() uint64                  { return g.Uint64() }
func Uint64N(n uint64) uint64         { return g.Uint64N(n) }
func Float32() float32                { return g.Float32() }
func Float64() float64                { return g.Float64() }
func ExpFloat64() float64             { return g.ExpFloat64() }
func NormFloat64() float64            { return g.NormFloat64() }
func Perm(n int) []int                { return g.Perm(n) }
func Shuffle(n int, f func(i, j int)) { g.Shuffle(n, f) }

func N[I ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](n I) I {
	return I(g.Uint64N(uint64(n)))
}
