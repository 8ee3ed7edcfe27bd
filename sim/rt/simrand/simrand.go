// Package simrand stands in for package math/rand in the code under test; all
// draws from the global source come from the run.
package simrand

import (
	real "math/rand"

	"verif.local/simrt"
)

type src struct{}

func (src) Int63() int64   { return int64(simrt.Rand64() >> 1) }
func (src) Uint64() uint64 { return simrt.Rand64() }
func (src) Seed(int64)     {}

var g = real.New(src{})

func Seed(int64)                         {}
func Float64() float64                   { simrt.Y(0); return g.Float64() }
func Float32() float32                   { simrt.Y(0); return g.Float32() }
func ExpFloat64() float64                { return g.ExpFloat64() }
func NormFloat64() float64               { return g.NormFloat64() }
func Int() int                           { return g.Int() }
func Int31() int32                       { return g.Int31() }
func Int31n(n int32) int32               { return g.Int31n(n) }
func Int63() int64                       { return g.Int63() }
func Int63n(n int64) int64               { return g.Int63n(n) }
func Intn(n int) int                     { return g.Intn(n) }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
func Uint32() uint32                     { return g.Uint32() }
func Uint64() uint64                     { return g.Uint64() }
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(simrt.Rand64() >> 32)
	}
	return len(p), nil
}
