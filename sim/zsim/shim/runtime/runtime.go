// Package runtime is runtime with its machine-dependent answers simulated.
package runtime

import (
	"zsim/core"
)

func ncpu() int {
	if p := core.Cur(); p != nil {
		return p.NCPU
	}
	return 8
}
func NumCPU() int          { return ncpu() }
func GOMAXPROCS(n int) int { return ncpu() }
func Gosched()             { core.Yield() }
func NumGoroutine() int    { return 1 }
func GC()                  {}
