// Package simrandv2 stands in for package math/rand/v2 in the code under test.
package simrandv2

import (
	real "math/rand/v2"

	"verif.local/simrt"
)

type src struct{}

func (src) Uint64() uint64 { return simrt.Rand64() }

var g = real.New(src{})

func Float64() float64                   { simrt.Y(0); return g.Float64() }
func Float32() float32                   { simrt.Y(0); return g.Float32() }
func ExpFloat64() float64                { return g.ExpFloat64() }
func NormFloat64() float64               { return g.NormFloat64() }
func Int() int                           { return g.Int() }
func Int32() int32                       { return g.Int32() }
func Int32N(n int32) int32               { return g.Int32N(n) }
func Int64() int64                       { return g.Int64() }
func Int64N(n int64) int64               { return g.Int64N(n) }
func IntN(n int) int                     { return g.IntN(n) }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
func Uint() uint                         { return g.Uint() }
func Uint32() uint32                     { return g.Uint32() }
func Uint32N(n uint32) uint32            { return g.Uint32N(n) }
func Uint64() uint64                     { return g.Uint64() }
func Uint64N(n uint64) uint64            { return g.Uint64N(n) }
func UintN(n uint) uint                  { return g.UintN(n) }
func N[I interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n I) I {
	return I(g.Uint64N(uint64(n)))
}
