// Package rand is math/rand with its global generator driven by the simulator.
package rand

import (
	"math/rand"
	"zsim/core"
)

type src struct{}

func (src) Int63() int64 {
	if core.W == nil {
		return 42
	}
	return core.W.Ambient.Int63()
}
func (src) Uint64() uint64 {
	if core.W == nil {
		return 42
	}
	return core.W.Ambient.Uint64()
}
func (src) Seed(int64) {}

var g = rand.New(src{})

func Int() int                        { return g.Int() }
func Intn(n int) int                  { return g.Intn(n) }
func Int31() int32                    { return g.Int31() }
func Int31n(n int32) int32            { return g.Int31n(n) }
func Int63() int64                    { return g.Int63() }
func Int63n(n int64) int64            { return g.Int63n(n) }
func Uint32() uint32                  { return g.Uint32() }
func Uint64() uint64                  { return g.Uint64() }
func Float32() float32                { return g.Float32() }
func Float64() float64                { return g.Float64() }
func ExpFloat64() float64             { return g.ExpFloat64() }
func NormFloat64() float64            { return g.NormFloat64() }
func Perm(n int) []int                { return g.Perm(n) }
func Shuffle(n int, f func(i, j int)) { g.Shuffle(n, f) }
func Read(p []byte) (int, error)      { return g.Read(p) }
func Seed(seed int64)                 { g = rand.New(rand.NewSource(seed)) }

func init() { core.OnProcStart(func(*core.Proc) { g = rand.New(src{}) }) }
