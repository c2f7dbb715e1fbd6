//go:build go1.22

package word2vec

import (
	"fmt"
	"math"
	"os"
	"testing"

	"github.com/ynqa/wego/verifrt/h"
)

// C15: sigmoid look-ups are total, monotone and accurate.
func TestMain(m *testing.M) {
	h.Main(func(c *h.C) {
		t := newSigmoidTable()
		f := func(k *h.K, x float64) float64 {
			v := t.sigmoid(x)
			if !(v > 0 && v < 1) {
				k.Fail("range", "sigmoid(%v) = %v is not strictly between 0 and 1", x, v)
			}
			if want := 1 / (1 + math.Exp(-x)); !(math.Abs(v-want) <= 0.004) {
				k.Fail("accuracy", "sigmoid(%v) = %v, the logistic function is %v", x, v, want)
			}
			return v
		}
		// order-preserving numbering of the floats.
		key := func(x float64) int64 {
			b := int64(math.Float64bits(x))
			if b < 0 {
				b = math.MinInt64 - b
			}
			return b
		}
		val := func(i int64) float64 {
			if i < 0 {
				return math.Float64frombits(uint64(math.MinInt64 - i))
			}
			return math.Float64frombits(uint64(i))
		}
		first, last := math.Nextafter(-6, 0), math.Nextafter(6, 0)
		// walk checks an increasing run of arguments.
		walk := func(k *h.K, n int, at func(i int) float64) {
			prev, px := -1.0, 0.0
			for i := 0; i < n && !k.Failed(); i++ {
				x := at(i)
				v := f(k, x)
				if v < prev {
					k.Fail("monotone", "sigmoid(%v) = %v but sigmoid(%v) = %v", px, prev, x, v)
				}
				prev, px = v, x
			}
			k.Transitions(n)
		}
		blocks, per := 1200, 2000
		margin := int64(300)
		if c.Thorough {
			per, margin = 100000, 20000
		}
		for b := 0; b < blocks; b++ {
			c.Case(func() string { return fmt.Sprintf("block %d of %d", b, blocks) }, func(k *h.K) {
				lo, hi := first, last
				w := 12 / float64(blocks)
				if b > 0 {
					lo = -6 + w*float64(b)
				}
				if b < blocks-1 {
					hi = -6 + w*float64(b+1)
				}
				grid := func(i int) float64 {
					if i == 0 {
						return lo
					}
					if i == per {
						return hi
					}
					return lo + (hi-lo)*float64(i)/float64(per)
				}
				walk(k, per+1, grid)
				pieces := 1
				for i := 0; i < per && !k.Failed(); i++ {
					a, z := key(grid(i)), key(grid(i+1))
					va, vz := t.sigmoid(val(a)), t.sigmoid(val(z))
					if va == vz {
						continue
					}
					// exact switching points between neighbours that differ.
					for va != vz && !k.Failed() {
						l, r := a, z
						for r-l > 1 {
							m := l + (r-l)/2
							if t.sigmoid(val(m)) == va {
								l = m
							} else {
								r = m
							}
						}
						pieces++
						s, e := l-margin, l+margin
						if s < key(first) {
							s = key(first)
						}
						if e > key(last) {
							e = key(last)
						}
						walk(k, int(e-s+1), func(j int) float64 { return val(s + int64(j)) })
						a, va = r, t.sigmoid(val(r))
					}
				}
				k.States(pieces)
				k.Traces(pieces)
			})
		}
		n := 200000
		if c.Thorough {
			n = 20000000
		}
		for _, e := range []struct {
			name string
			at   int64
		}{{"the lowest floats above -6", key(first)}, {"the highest floats below 6", key(last) - int64(n)}, {"the floats around 0", -int64(n) / 2}} {
			c.Case(func() string { return e.name }, func(k *h.K) {
				walk(k, n+1, func(i int) float64 { return val(e.at + int64(i)) })
				k.Traces(1)
			})
		}
		// every power of two, down to the smallest denormals.
		c.Case(func() string { return "powers of two" }, func(k *h.K) {
			for s := -1.0; s <= 1; s += 2 {
				for e := -1074; e <= 2; e++ {
					x := s * math.Ldexp(1, e)
					for d := int64(-2); d <= 2; d++ {
						f(k, val(key(x)+d))
					}
				}
			}
			k.Transitions(2 * 1077 * 5)
		})
	})
	os.Exit(0)
}
