//go:build go1.22

// C18: work is divided among workers completely, disjointly and evenly.
package main

import (
	"fmt"
	"math"

	"github.com/ynqa/wego/pkg/model/modelutil"
	"github.com/ynqa/wego/verifrt/h"
)

func main() {
	h.Main(func(c *h.C) {
		check := func(k *h.K, t, d int) bool {
			ix := modelutil.IndexPerThread(t, d)
			if len(ix) != t+1 || ix[0] != 0 || ix[t] != d {
				k.Fail("ends", "%d workers, %d items: %v", t, d, ix)
				return false
			}
			min, max := math.MaxInt, -1
			for i := 0; i < t; i++ {
				n := ix[i+1] - ix[i]
				if n < 0 {
					k.Fail("overlap", "%d workers, %d items: range %d is [%d,%d)", t, d, i, ix[i], ix[i+1])
					return false
				}
				if n < min {
					min = n
				}
				if n > max {
					max = n
				}
			}
			if max-min > 1 {
				k.Fail("uneven", "%d workers, %d items: sizes from %d to %d", t, d, min, max)
				return false
			}
			k.Transitions(t)
			return true
		}
		T, D := 130, 600
		if c.Thorough {
			T, D = 600, 3000
		}
		for t := 1; t <= T; t++ {
			c.Case(func() string { return fmt.Sprintf("%d workers, 0..%d items", t, D) }, func(k *h.K) {
				for d := 0; d <= D; d++ {
					if !check(k, t, d) {
						return
					}
				}
				k.States(D + 1)
				k.Traces(D + 1)
			})
		}
		var big []int
		for b := uint(8); b <= 62; b++ {
			for d := -3; d <= 3; d++ {
				big = append(big, 1<<b+d)
			}
		}
		for p := 10; p <= 1000000000000000000 && p > 0; p *= 10 {
			big = append(big, p-1, p, p+1)
		}
		for _, t := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 10007} {
			c.Case(func() string { return fmt.Sprintf("%d workers, large sizes", t) }, func(k *h.K) {
				for _, d := range big {
					if !check(k, t, d) {
						return
					}
				}
				k.States(len(big))
				k.Traces(len(big))
			})
		}
	})
}
