// Package rand is math/rand/v2 with its global source fed from the run's seed.
package rand

import (
	std "math/rand/v2"

	"github.com/carlisia/bio-adapt/zzverif/rt"
)

type src struct{}

func (src) Uint64() uint64 {
	if !rt.Active() {
		return std.Uint64()
	}
	rt.Point("rand")
	return rt.Data().U64()
}

var g = std.New(src{})

func ExpFloat64() float64                { return g.ExpFloat64() }
func Float32() float32                   { return g.Float32() }
func Float64() float64                   { return g.Float64() }
func Int() int                           { return g.Int() }
func Int32() int32                       { return g.Int32() }
func Int32N(n int32) int32               { return g.Int32N(n) }
func Int64() int64                       { return g.Int64() }
func Int64N(n int64) int64               { return g.Int64N(n) }
func IntN(n int) int                     { return g.IntN(n) }
func NormFloat64() float64               { return g.NormFloat64() }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
func Uint() uint                         { return uint(g.Uint64()) }
func Uint32() uint32                     { return g.Uint32() }
func Uint32N(n uint32) uint32            { return g.Uint32N(n) }
func Uint64() uint64                     { return g.Uint64() }
func Uint64N(n uint64) uint64            { return g.Uint64N(n) }
func UintN(n uint) uint                  { return g.UintN(n) }

type intType interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func N[Int intType](n Int) Int {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return Int(g.Uint64N(uint64(n)))
}
