//go:build go1.22

// Package vrand2 stands in for package math/rand/v2, see vrand.
package vrand2

import (
	"math/rand/v2"

	"github.com/ynqa/wego/verifrt/vrand"
	"github.com/ynqa/wego/verifrt/vs"
)

type (
	Source  = rand.Source
	PCG     = rand.PCG
	ChaCha8 = rand.ChaCha8
	Zipf    = rand.Zipf
)

// Rand is a generator of the code's own.
type Rand struct{ *rand.Rand }

type src struct{}

func (src) Uint64() uint64 { return vs.Rand64() }

var std = &Rand{rand.New(src{})}

func New(s Source) *Rand                            { return &Rand{rand.New(s)} }
func NewPCG(a, b uint64) *PCG                       { return rand.NewPCG(a, b) }
func NewChaCha8(seed [32]byte) *ChaCha8             { return rand.NewChaCha8(seed) }
func NewZipf(r *Rand, s, v float64, m uint64) *Zipf { return rand.NewZipf(r.Rand, s, v, m) }

func (r *Rand) Float64() float64 {
	if vrand.Float64Hook != nil {
		if v, ok := vrand.Float64Hook(); ok {
			return v
		}
	}
	return r.Rand.Float64()
}

func (r *Rand) IntN(n int) int {
	if n > 0 && vrand.IntnHook != nil {
		if v, ok := vrand.IntnHook(n); ok {
			return v
		}
	}
	return r.Rand.IntN(n)
}

func (r *Rand) Int64N(n int64) int64    { return int64(r.IntN(int(n))) }
func (r *Rand) Int32N(n int32) int32    { return int32(r.IntN(int(n))) }
func (r *Rand) Uint64N(n uint64) uint64 { return uint64(r.IntN(int(n))) }
func (r *Rand) Uint32N(n uint32) uint32 { return uint32(r.IntN(int(n))) }
func (r *Rand) UintN(n uint) uint       { return uint(r.IntN(int(n))) }

func Float64() float64        { return std.Float64() }
func Float32() float32        { return std.Float32() }
func IntN(n int) int          { return std.IntN(n) }
func Int64N(n int64) int64    { return std.Int64N(n) }
func Int32N(n int32) int32    { return std.Int32N(n) }
func Uint64N(n uint64) uint64 { return std.Uint64N(n) }
func Uint32N(n uint32) uint32 { return std.Uint32N(n) }
func UintN(n uint) uint       { return std.UintN(n) }
func Int() int                { return std.Int() }
func Int64() int64            { return std.Int64() }
func Int32() int32            { return std.Int32() }
func Uint64() uint64          { return std.Uint64() }
func Uint32() uint32          { return std.Uint32() }
func Uint() uint              { return uint(std.Uint64()) }
func NormFloat64() float64    { return std.NormFloat64() }
func ExpFloat64() float64     { return std.ExpFloat64() }

// N is a bounded draw of any integer type.
func N[T interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n T) T {
	return T(std.IntN(int(n)))
}

// order is the stream of Perm and Shuffle: with supplied draws the order depends on n only.
func order(n int) *rand.Rand {
	if vrand.IntnHook != nil || vrand.Float64Hook != nil {
		return rand.New(rand.NewPCG(uint64(n), 1))
	}
	return std.Rand
}

func Perm(n int) []int                { return order(n).Perm(n) }
func Shuffle(n int, f func(i, j int)) { order(n).Shuffle(n, f) }
