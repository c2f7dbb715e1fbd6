//go:build go1.22

// Package vrand stands in for package math/rand in instrumented code: every goroutine draws from its own
// stream, which the seed of the exploration determines, unless the harness supplies the draws.
package vrand

import (
	"math/rand"

	"github.com/ynqa/wego/verifrt/vs"
)

type (
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

// Float64Hook, if set, supplies the next Float64 (ok) or declines.
var Float64Hook func() (float64, bool)

// IntnHook, if set, supplies the next Intn.
var IntnHook func(n int) (int, bool)

// Rand is a generator of the code's own; the harness supplies its draws just like those of the package.
type Rand struct{ *rand.Rand }

func (r *Rand) Float64() float64 {
	if Float64Hook != nil {
		if v, ok := Float64Hook(); ok {
			return v
		}
	}
	return r.Rand.Float64()
}

func (r *Rand) Intn(n int) int {
	if n > 0 && IntnHook != nil {
		if v, ok := IntnHook(n); ok {
			return v
		}
	}
	return r.Rand.Intn(n)
}

func (r *Rand) Int63n(n int64) int64 { return int64(r.Intn(int(n))) }
func (r *Rand) Int31n(n int32) int32 { return int32(r.Intn(int(n))) }

type src struct{}

func (src) Int63() int64    { return int64(vs.Rand64() >> 1) }
func (src) Uint64() uint64  { return vs.Rand64() }
func (src) Seed(seed int64) { vs.SeedThread(uint64(seed)) }

var std = rand.New(src{})

func New(s Source) *Rand          { return &Rand{rand.New(s)} }
func NewSource(seed int64) Source { return rand.NewSource(seed) }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf {
	return rand.NewZipf(r.Rand, s, v, imax)
}
func Seed(seed int64) { vs.SeedThread(uint64(seed)) }

func Float64() float64 {
	if Float64Hook != nil {
		if v, ok := Float64Hook(); ok {
			return v
		}
	}
	return vs.Float()
}

func Float32() float32 { return float32(int32(vs.Rand64()>>40)) / (1 << 24) }

func Intn(n int) int {
	if n > 0 && IntnHook != nil {
		if v, ok := IntnHook(n); ok {
			return v
		}
	}
	return std.Intn(n)
}

func Int63() int64               { return std.Int63() }
func Uint32() uint32             { return std.Uint32() }
func Uint64() uint64             { return std.Uint64() }
func Int31() int32               { return std.Int31() }
func Int() int                   { return std.Int() }
func Int63n(n int64) int64       { return int64(Intn(int(n))) }
func Int31n(n int32) int32       { return int32(Intn(int(n))) }
func NormFloat64() float64       { return std.NormFloat64() }
func ExpFloat64() float64        { return std.ExpFloat64() }
func Read(p []byte) (int, error) { return std.Read(p) }

// order is the stream of Perm and Shuffle: with supplied draws the order depends on n only.
func order(n int) *rand.Rand {
	if IntnHook != nil || Float64Hook != nil {
		return rand.New(rand.NewSource(int64(n)))
	}
	return std
}

func Perm(n int) []int                { return order(n).Perm(n) }
func Shuffle(n int, f func(i, j int)) { order(n).Shuffle(n, f) }
