//go:build go1.22

// C17: bounded random draws are in range and reach every value.
package main

import (
	"fmt"
	"sync"

	"github.com/ynqa/wego/pkg/model/modelutil"
	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/vs"
)

var _ sync.Mutex

// window is a number of draws within which every one of n values has to turn up: for independent uniform
// draws the probability of missing one is below n*exp(-45).
func window(n int) int { return 45*n + 50 }

func main() {
	h.Main(func(c *h.C) {
		max := 700
		rounds := 3
		if c.Thorough {
			max, rounds = 4000, 10
		}
		var bounds []int
		for n := 1; n <= max; n++ {
			bounds = append(bounds, n)
		}
		for _, b := range []int{1 << 10, 1 << 12, 1 << 13, 1 << 14, 1 << 15, 1 << 16} {
			bounds = append(bounds, b-1, b, b+1)
		}
		for i, n := range bounds {
			c.Case(func() string { return fmt.Sprintf("bound %d", n) }, func(k *h.K) {
				// start from different reachable states.
				for j := 0; j < i%7; j++ {
					modelutil.NextRandom(1 + i%13)
				}
				seen := make([]int, n)
				for r := 1; r <= rounds; r++ {
					left := n
					for d := 0; d < window(n) && left > 0; d++ {
						v := modelutil.NextRandom(n)
						k.Transitions(1)
						if v < 0 || v >= n {
							k.Fail("range", "NextRandom(%d) = %d", n, v)
							return
						}
						if seen[v] < r {
							seen[v] = r
							left--
						}
					}
					if left > 0 {
						k.Fail("reach", "NextRandom(%d): %d values never turn up in %d draws", n, left, window(n))
						return
					}
				}
				k.States(n)
				k.Traces(rounds)
			})
		}
		// large bounds: range only.
		for b := uint(17); b < 64; b++ {
			c.Case(func() string { return fmt.Sprintf("bounds around 2^%d", b) }, func(k *h.K) {
				for d := -2; d <= 2; d++ {
					n := int(uint64(1)<<b-1) + d
					if n < 1 {
						continue
					}
					half := 0
					for i := 0; i < 3000; i++ {
						v := modelutil.NextRandom(n)
						if v < 0 || v >= n {
							k.Fail("range", "NextRandom(%d) = %d", n, v)
							return
						}
						if v >= n/2 {
							half++
						}
					}
					if half == 0 || half == 3000 {
						k.Fail("reach", "NextRandom(%d) never draws from one half of its range", n)
						return
					}
					k.Transitions(3000)
				}
				k.Traces(5)
				k.States(5)
			})
		}
		// concurrent draws, every interleaving of the individual accesses.
		for _, n := range []int{1, 2, 3, 5, 8, 10} {
			for _, th := range [][]int{{1, 1}, {2, 1}, {2, 2}, {1, 1, 1}, {2, 1, 1}} {
				if len(th) == 3 && !c.Thorough && th[0] > 1 {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("bound %d, goroutines drawing %v times", n, th) }, func(k *h.K) {
					k.Explore(vs.Opts{MaxPreempt: -1, Cache: true, NumPoints: true}, func() any {
						done := make(chan int, len(th))
						var all []int
						out := make([][]int, len(th))
						for i, cnt := range th {
							i, cnt := i, cnt
							vs.Go(func() {
								for j := 0; j < cnt; j++ {
									out[i] = append(out[i], modelutil.NextRandom(n))
								}
								vs.C(done).Send(i)
							}, fmt.Sprintf("drawer %d", i))
						}
						for range th {
							vs.Recv(done)
						}
						for i := range th {
							all = append(all, out[i]...)
						}
						seen := map[int]bool{}
						for d := 0; d < window(n) && len(seen) < n; d++ {
							v := modelutil.NextRandom(n)
							seen[v] = true
							all = append(all, v)
						}
						return [2]any{all, len(seen)}
					}, func(r vs.Report) (string, string) {
						res := r.Result.([2]any)
						for _, v := range res[0].([]int) {
							if v < 0 || v >= n {
								return "range", fmt.Sprintf("NextRandom(%d) = %d", n, v)
							}
						}
						if res[1].(int) < n {
							return "reach", fmt.Sprintf("after concurrent draws NextRandom(%d) reaches only %d values", n, res[1])
						}
						return "", ""
					})
				})
			}
		}
	})
}
