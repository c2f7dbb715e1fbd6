//go:build go1.22

// C11: word2vec training applies the documented CBOW / skip-gram updates.
package main

import (
	"fmt"

	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
	"github.com/ynqa/wego/verifrt/tr"
)

func main() {
	h.Main(func(c *h.C) {
		limit := 1500
		n := 4
		if c.Thorough {
			limit, n = 60000, 5
		}
		run := func(cfg tr.Cfg, text string) {
			c.Case(func() string { return cfg.String() + " text=" + text }, func(k *h.K) {
				if !tr.CheckDraws(k, cfg, text, limit) {
					k.Note("configurations with more draw sequences than the bound (left out)", 1)
				}
			})
		}
		base := tr.Base("w2v")
		// long texts, with draws from either end and the middle of their range.
		for _, long := range tr.LongTexts(c.Thorough) {
			for _, arch := range []string{"skipgram", "cbow"} {
				for _, window := range []int{1, 2, 3, 5, 10} {
					for d, draw := range append(tr.Even, tr.Uneven) {
						for _, opt := range [][2]int{{1, 0}, {1, 1}, {1, 5}, {0, 0}, {0, 1}, {0, 5}, {0, 10}, {0, 13}} {
							for _, dim := range []int{2, 7} {
								if (dim == 7) != (window == 3) || window == 1 && d > 0 && opt[0] == 0 {
									continue
								}
								cfg := base
								cfg.Arch, cfg.Window, cfg.Dim, cfg.Iter, cfg.LR, cfg.MinLR = arch, window, dim, 1+d, 0.05, 0.05
								if opt[0] == 1 {
									cfg.Opt, cfg.Neg = "ns", opt[1]
								} else {
									cfg.Opt, cfg.Neg, cfg.Depth = "hs", 0, opt[1]
								}
								cfg.Mem = d != 1
								cfg.Batch = 1 << 20
								c.Case(func() string { return fmt.Sprintf("%v draws %d, %s", cfg, d, long.Name) }, func(k *h.K) { tr.CheckFixed(k, cfg, long.Text, draw) })
							}
						}
					}
				}
			}
		}
		// sizes.
		for i, v := range []func(c *tr.Cfg){
			func(c *tr.Cfg) { c.Neg = 2 },
			func(c *tr.Cfg) { c.Opt = "hs" },
			func(c *tr.Cfg) { c.Neg, c.Arch = 1, "cbow" },
			func(c *tr.Cfg) { c.Opt, c.Arch, c.Depth = "hs", "cbow", 4 },
		} {
			tr.Sizes(c.Thorough, func(size func(*tr.Cfg), long tr.LongText) {
				cfg := base
				cfg.LR, cfg.MinLR, cfg.Window, cfg.Mem, cfg.Batch = 0.05, 0.05, 2, i%2 == 0, 1<<20
				v(&cfg)
				neg := cfg.Neg
				size(&cfg)
				if cfg.Opt == "hs" && cfg.Neg != neg {
					return // no samples
				}
				for d, draw := range append([]func(n, i int) int{tr.Uneven}, tr.Even...) {
					if d > 0 && !c.Thorough && (cfg.Dim > 2 || cfg.Iter > 100 || cfg.Window > 100 && d == 1) {
						continue
					}
					c.Case(func() string { return fmt.Sprintf("%v draws %d, %s", cfg, d, long.Name) }, func(k *h.K) { tr.CheckFixed(k, cfg, long.Text, draw) })
				}
			})
		}
		tr.Words(c.Thorough, func(n int, long tr.LongText) {
			for i := 0; i < 4; i++ {
				cfg := base
				cfg.Arch, cfg.Opt, cfg.Window, cfg.LR, cfg.MinLR, cfg.Mem, cfg.Batch = []string{"skipgram", "cbow"}[i%2], []string{"ns", "hs"}[i/2], 2, 0.05, 0.05, i%2 == 0, 1<<20
				cfg.Neg = 2 - 2*(i/2)
				if i/2 == 1 && n > 5000 {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("%v uneven draws, %s", cfg, long.Name) }, func(k *h.K) { tr.CheckFixed(k, cfg, long.Text, tr.Uneven) })
			}
		})
		for l := 0; l <= n; l++ {
			ref.Canonical(l, 4, func(q []int) {
				text := ref.Text(q)
				for _, arch := range []string{"skipgram", "cbow"} {
					for window := 1; window <= 3; window++ {
						if window > l+1 && window > 1 {
							continue
						}
						cfg := base
						cfg.Arch, cfg.Window = arch, window
						for _, iter := range []int{1, 2} {
							cfg.Iter = iter
							if l == n && iter > 1 && !c.Thorough {
								continue
							}
							cfg.Opt = "ns"
							for neg := 0; neg <= 2; neg++ {
								cfg.Neg = neg
								run(cfg, text)
							}
							cfg.Opt = "hs"
							cfg.Neg = 0
							for _, depth := range []int{0, 1, 2, 3, 9} {
								cfg.Depth = depth
								run(cfg, text)
							}
							cfg.Depth = 0
						}
					}
				}
			})
		}
		// more negative samples than words.
		for _, q := range [][]int{{0, 0}, {0, 1}, {0, 1, 0, 0}, {0, 1, 2, 0}, {0, 1, 2, 3}} {
			for _, arch := range []string{"skipgram", "cbow"} {
				for _, neg := range []int{3, 4, 5, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 129, 257, 1025} {
					cfg := base
					cfg.Arch, cfg.Opt, cfg.Neg, cfg.Window = arch, "ns", neg, 5
					for d, draw := range append([]func(n, i int) int{tr.Uneven}, tr.Even...) {
						c.Case(func() string { return fmt.Sprintf("%v text=%s draws %d", cfg, ref.Text(q), d) }, func(k *h.K) { tr.CheckFixed(k, cfg, ref.Text(q), draw) })
					}
				}
			}
		}
		// other dimensions, rates, storage, filters.
		for _, q := range [][]int{{0, 1}, {0, 1, 2}, {0, 0, 1}, {0, 1, 0, 2}, {0, 1, 1, 2, 0}, {0, 1, 2, 3, 0, 1}} {
			text := ref.Text(q)
			for _, arch := range []string{"skipgram", "cbow"} {
				for _, opt := range []string{"ns", "hs"} {
					cfg := base
					cfg.Arch, cfg.Opt = arch, opt
					for window := 1; window <= 2; window++ {
						cfg.Window = window
						for neg := 0; neg <= 1; neg++ {
							cfg.Neg = neg
							if opt == "hs" && neg > 0 {
								continue
							}
							for _, dim := range []int{1, 3, 10} {
								v := cfg
								v.Dim = dim
								run(v, text)
							}
							for _, lr := range []float64{0.025, 1, 3, 40, 300} {
								if opt == "hs" && lr > 1 {
									continue // the rule for saturated inner nodes is not specified
								}
								v := cfg
								v.LR, v.MinLR = lr, lr
								run(v, text)
								v.Iter = 2
								run(v, text)
							}
							for _, batch := range []int{1, 2, 3, 100} {
								v := cfg
								v.Mem, v.Batch = false, batch
								run(v, text)
							}
							for _, lim := range [][2]int{{2, -1}, {-1, 1}, {1, 2}} {
								v := cfg
								v.Min, v.Max = lim[0], lim[1]
								run(v, text)
								v.Mem = false
								run(v, text)
							}
						}
					}
				}
			}
		}
	})
}
