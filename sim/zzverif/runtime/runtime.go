// Package runtime is runtime with scheduler facts from the simulation.
package runtime

import (
	std "runtime"

	"github.com/carlisia/bio-adapt/zzverif/rt"
)

func Gosched() { rt.Gosched() }
func NumCPU() int {
	if !rt.Active() {
		return std.NumCPU()
	}
	return rt.Cfg().CPUs
}
func GOMAXPROCS(int) int { return NumCPU() }
func NumGoroutine() int {
	if !rt.Active() {
		return std.NumGoroutine()
	}
	return rt.NumTasks()
}
func GC()                                                         {}
func Goexit()                                                     { std.Goexit() }
func SetFinalizer(_, _ any)                                       {}
func AddCleanup[T, S any](ptr *T, cleanup func(S), arg S) Cleanup { return Cleanup{} }
