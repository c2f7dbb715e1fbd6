//go:build go1.22

// C12: GloVe training applies its weighted least-squares update to every pair.
package main

import (
	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
	"github.com/ynqa/wego/verifrt/tr"
)

func main() {
	h.Main(func(c *h.C) {
		limit := 720
		n := 4
		if c.Thorough {
			limit, n = 40320, 5
		}
		run := func(cfg tr.Cfg, text string) {
			c.Case(func() string { return cfg.String() + " text=" + text }, func(k *h.K) {
				if !tr.CheckGlove(k, cfg, text, limit) {
					k.Note("configurations with more orders than the bound (left out)", 1)
				}
			})
		}
		base := tr.Base("glove")
		solvers, counts := []string{"sgd", "adagrad"}, []string{"inc", "prox"}
		// long texts, at a rate so small that the order does not matter.
		for _, long := range tr.LongTexts(c.Thorough) {
			for _, solver := range solvers {
				for _, count := range counts {
					for _, window := range []int{1, 2, 5, 15, 60} {
						for _, alpha := range []float64{0, 0.75, 2} {
							for _, xmax := range []int{1, 4, 100, 2000} {
								if xmax == 2000 && alpha != 0.75 {
									continue
								}
								cfg := base
								cfg.Solver, cfg.Count, cfg.Window, cfg.Alpha, cfg.Xmax, cfg.LR = solver, count, window, alpha, xmax, 1e-8
								cfg.Mem, cfg.Iter, cfg.Dim = xmax != 4, 1+(window+xmax)%3, []int{5, 10, 50}[(window+xmax)%3]
								if xmax == 1 {
									cfg.Workers = 3
								}
								c.Case(func() string { return cfg.String() + ", " + long.Name }, func(k *h.K) { tr.CheckGloveLong(k, cfg, long.Text) })
							}
						}
					}
				}
			}
		}
		// sizes.
		for i, solver := range solvers {
			for j, count := range counts {
				tr.Sizes(c.Thorough, func(size func(*tr.Cfg), long tr.LongText) {
					cfg := base
					cfg.Solver, cfg.Count, cfg.LR, cfg.Window, cfg.Mem, cfg.Xmax = solver, count, 1e-8, 2, (i+j)%2 == 0, 3
					size(&cfg)
					cfg.LR = 1e-8 / float64(cfg.Iter)
					if cfg.Neg > 0 {
						return
					}
					c.Case(func() string { return cfg.String() + ", " + long.Name }, func(k *h.K) { tr.CheckGloveLong(k, cfg, long.Text) })
				})
			}
		}
		tr.Words(c.Thorough, func(n int, long tr.LongText) {
			for i := 0; i < 4; i++ {
				if n > 5000 && i > 0 && i < 3 && !c.Thorough {
					continue
				}
				cfg := base
				cfg.Solver, cfg.Count, cfg.LR, cfg.Window, cfg.Mem, cfg.Xmax, cfg.Workers = solvers[i%2], counts[i/2], 1e-8, 2, i%2 == 0, 3, 1+i
				c.Case(func() string { return cfg.String() + ", " + long.Name }, func(k *h.K) { tr.CheckGloveLong(k, cfg, long.Text) })
			}
		})
		for l := 0; l <= n; l++ {
			ref.Canonical(l, 4, func(q []int) {
				text := ref.Text(q)
				for window := 1; window <= 3; window++ {
					if window > l+1 && window > 1 {
						continue
					}
					for _, solver := range solvers {
						for _, count := range counts {
							for iter := 1; iter <= 2; iter++ {
								for _, xmax := range []int{1, 2, 100} {
									cfg := base
									cfg.Window, cfg.Solver, cfg.Count, cfg.Iter, cfg.Xmax = window, solver, count, iter, xmax
									run(cfg, text)
								}
							}
						}
					}
				}
			})
		}
		for _, q := range [][]int{{0, 1}, {0, 0}, {0, 1, 2}, {0, 0, 1}, {0, 1, 0, 2}, {0, 1, 1, 2, 0}, {0, 0, 0, 0, 1}, {0, 1, 0, 1, 0, 1, 1}} {
			text := ref.Text(q)
			for window := 1; window <= 2; window++ {
				for _, solver := range solvers {
					for _, count := range counts {
						cfg := base
						cfg.Window, cfg.Solver, cfg.Count = window, solver, count
						for _, dim := range []int{1, 3, 10} {
							v := cfg
							v.Dim = dim
							run(v, text)
						}
						for _, lr := range []float64{0, 0.025, 0.5, 1} {
							for _, alpha := range []float64{0, 0.5, 0.75, 1, 2} {
								for _, xmax := range []int{0, 1, 2, 3, 4, 100} {
									v := cfg
									v.LR, v.Alpha, v.Xmax = lr, alpha, xmax
									run(v, text)
								}
							}
						}
						// steps far beyond the minimum.
						for _, lr := range []float64{5, 60, 900} {
							for _, alpha := range []float64{0, 0.75} {
								v := cfg
								v.LR, v.Alpha, v.Xmax = lr, alpha, 3
								run(v, text)
							}
						}
						for _, lim := range [][2]int{{-1, -1}, {2, -1}, {-1, 1}, {1, 2}, {3, 3}} {
							for _, mem := range []bool{true, false} {
								v := cfg
								v.Min, v.Max, v.Mem = lim[0], lim[1], mem
								run(v, text)
								v.Iter = 3
								run(v, text)
							}
						}
					}
				}
			}
		}
	})
}
