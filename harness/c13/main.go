//go:build go1.22

// C13: LexVec training factorises the chosen association matrix.
package main

import (
	"fmt"

	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
	"github.com/ynqa/wego/verifrt/tr"
)

func main() {
	h.Main(func(c *h.C) {
		limit := 1500
		n := 4
		if c.Thorough {
			limit, n = 60000, 5
		}
		run := func(cfg tr.Cfg, text string) {
			c.Case(func() string { return cfg.String() + " text=" + text }, func(k *h.K) {
				if !tr.CheckDraws(k, cfg, text, limit) {
					k.Note("configurations with more draw sequences than the bound (left out)", 1)
				}
			})
		}
		base := tr.Base("lexvec")
		rels := []string{"ppmi", "pmi", "co", "logco"}
		// long texts, with draws from either end and the middle of their range.
		for _, long := range tr.LongTexts(c.Thorough) {
			for _, window := range []int{1, 2, 3, 5, 10} {
				for d, draw := range append(tr.Even, tr.Uneven) {
					for _, rel := range rels {
						for _, neg := range []int{0, 1, 5} {
							cfg := base
							cfg.Rel, cfg.Window, cfg.Neg, cfg.Iter, cfg.LR, cfg.MinLR = rel, window, neg, 1+d, 0.02, 0.02
							cfg.Dim = []int{1, 3, 10}[(window+neg)%3]
							cfg.Mem = d != 1
							cfg.Batch = 1 << 20
							c.Case(func() string { return fmt.Sprintf("%v draws %d, %s", cfg, d, long.Name) }, func(k *h.K) { tr.CheckFixed(k, cfg, long.Text, draw) })
						}
					}
				}
			}
		}
		// sizes.
		for i, rel := range rels {
			tr.Sizes(c.Thorough, func(size func(*tr.Cfg), long tr.LongText) {
				cfg := base
				cfg.Rel, cfg.LR, cfg.MinLR, cfg.Window, cfg.Neg, cfg.Mem, cfg.Batch = rel, 0.02, 0.02, 2, 1, i%2 == 0, 1<<20
				size(&cfg)
				for d, draw := range append([]func(n, i int) int{tr.Uneven}, tr.Even...) {
					if d > 0 && !c.Thorough && (cfg.Dim > 2 || cfg.Iter > 100 || cfg.Window > 100 && d == 1) {
						continue
					}
					c.Case(func() string { return fmt.Sprintf("%v draws %d, %s", cfg, d, long.Name) }, func(k *h.K) { tr.CheckFixed(k, cfg, long.Text, draw) })
				}
			})
		}
		tr.Words(c.Thorough, func(n int, long tr.LongText) {
			for i, rel := range rels {
				if n > 5000 && i > 1 && !c.Thorough {
					continue
				}
				cfg := base
				cfg.Rel, cfg.LR, cfg.MinLR, cfg.Window, cfg.Neg, cfg.Mem, cfg.Batch = rel, 0.02, 0.02, 3, 2, i%2 == 0, 1<<20
				c.Case(func() string { return fmt.Sprintf("%v uneven draws, %s", cfg, long.Name) }, func(k *h.K) { tr.CheckFixed(k, cfg, long.Text, tr.Uneven) })
			}
		})
		for l := 0; l <= n; l++ {
			ref.Canonical(l, 4, func(q []int) {
				text := ref.Text(q)
				for window := 1; window <= 3; window++ {
					if window > l+1 && window > 1 {
						continue
					}
					for _, rel := range rels {
						for _, smooth := range []float64{0.75, 1, 0} {
							if smooth != 0.75 && rel != "ppmi" && rel != "pmi" {
								continue
							}
							for neg := 0; neg <= 2; neg++ {
								for iter := 1; iter <= 2; iter++ {
									if (l == n || smooth != 0.75) && iter > 1 && !c.Thorough {
										continue
									}
									cfg := base
									cfg.Window, cfg.Rel, cfg.Smooth, cfg.Neg, cfg.Iter = window, rel, smooth, neg, iter
									run(cfg, text)
								}
							}
						}
					}
				}
			})
		}
		// more negative samples than words.
		for _, q := range [][]int{{0, 0}, {0, 1}, {0, 1, 0, 0}, {0, 1, 2, 0}, {0, 1, 2, 3}} {
			for i, neg := range []int{3, 4, 5, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 129, 257, 1025} {
				cfg := base
				cfg.Rel, cfg.Neg, cfg.Window, cfg.LR, cfg.MinLR = rels[i%len(rels)], neg, 5, 0.02, 0.02
				for d, draw := range append([]func(n, i int) int{tr.Uneven}, tr.Even...) {
					c.Case(func() string { return fmt.Sprintf("%v text=%s draws %d", cfg, ref.Text(q), d) }, func(k *h.K) { tr.CheckFixed(k, cfg, ref.Text(q), draw) })
				}
			}
		}
		for _, q := range [][]int{{0, 1}, {0, 0}, {0, 1, 2}, {0, 0, 1}, {0, 1, 0, 2}, {0, 1, 1, 2, 0}, {0, 1, 2, 3, 0, 1}, {0, 0, 0, 0, 1}, {0, 1, 2, 0, 0, 2, 1}} {
			text := ref.Text(q)
			for _, rel := range rels {
				cfg := base
				cfg.Rel = rel
				for window := 1; window <= 2; window++ {
					cfg.Window = window
					for neg := 0; neg <= 1; neg++ {
						cfg.Neg = neg
						for _, dim := range []int{1, 3, 10} {
							v := cfg
							v.Dim = dim
							run(v, text)
						}
						for _, lr := range []float64{0.025, 0.5, 1, 7, 80} {
							v := cfg
							v.LR, v.MinLR = lr, lr
							run(v, text)
						}
						for _, s := range []float64{0, 0.3, 0.5, 1, 2} {
							v := cfg
							v.Smooth = s
							run(v, text)
						}
						for _, batch := range []int{1, 2, 3, 100} {
							v := cfg
							v.Mem, v.Batch = false, batch
							run(v, text)
						}
						for _, lim := range [][2]int{{2, -1}, {-1, 1}, {1, 2}} {
							v := cfg
							v.Min, v.Max = lim[0], lim[1]
							run(v, text)
							v.Mem = false
							run(v, text)
						}
					}
				}
			}
		}
		// an unknown relation is an error, for every corpus.
		for _, q := range [][]int{nil, {0}, {0, 1}, {0, 1, 0, 1}} {
			for _, rel := range []string{"", "PPMI", "pmi ", "x", "cooc"} {
				for _, mem := range []bool{true, false} {
					cfg := base
					cfg.Rel, cfg.Mem = rel, mem
					text := ref.Text(q)
					c.Case(func() string { return cfg.String() + " relation=" + rel + " text=" + text }, func(k *h.K) {
						if o := cfg.TrainText(text); o.Err == nil {
							k.Fail("relation", "the unknown relation %q is accepted", rel)
						}
						k.One(1, rel+text)
					})
				}
			}
		}
	})
}
