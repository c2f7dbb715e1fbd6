//go:build go1.22

// C16: subsampling drops tokens with the documented probability.
package main

import (
	"fmt"
	"math"

	"github.com/ynqa/wego/pkg/corpus/dictionary"
	"github.com/ynqa/wego/pkg/model/modelutil/subsample"
	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
	"github.com/ynqa/wego/verifrt/tr"
	"github.com/ynqa/wego/verifrt/vrand"
	"github.com/ynqa/wego/verifrt/vs"
)

const almost1 = 1 - 1.0/(1<<53)

// orientation of the decision: drop if u < p (1) or if u >= 1-p (2); 0: not known yet.
var orientation = 0

func try(s *subsample.Subsampler, id int, u float64) (keep bool, drawn int) {
	vrand.Float64Hook = func() (float64, bool) { drawn++; return u, true }
	f := vs.DrawHook
	hook := func(n int) (int, bool) { drawn++; return int(u * float64(n)), true }
	vs.DrawHook, vrand.IntnHook = hook, hook
	defer func() { vrand.Float64Hook, vs.DrawHook, vrand.IntnHook = nil, f, nil }()
	return s.Trial(id), drawn
}

func check(k *h.K, freq []int, t float64) bool {
	d := dictionary.New()
	total := 0
	for i, f := range freq {
		w := fmt.Sprint("w", i)
		for j := 0; j < f; j++ {
			d.Add(w)
		}
		total += f
	}
	s := subsample.New(d, t)
	what := func(i int) string {
		return fmt.Sprintf("frequencies %.60v, threshold %g, word %d", fmt.Sprint(freq), t, i)
	}
	for i, f := range freq {
		p := ref.DropProb(f, total, t)
		us := []float64{0, almost1, 0.5}
		for _, e := range []float64{1e-9, 1e-6, 1e-3, 0.05, 0.2} {
			us = append(us, p-e, p+e, 1-p-e, 1-p+e)
		}
		us = append(us, p/2, 1-p/2, (1+p)/2, (1-p)/2)
		seam := true
		for round := 0; round < 2 && seam; round++ {
			for _, u := range us {
				if u < 0 || u > almost1 {
					continue
				}
				keep, drawn := try(s, i, u)
				k.Transitions(1)
				if p == 0 {
					if !keep {
						k.Fail("kept", "%s: a draw of %v drops the token, which must never be dropped", what(i), u)
						return false
					}
					continue
				}
				if drawn == 0 {
					seam = false
					break
				}
				low, high := u < p, u > 1-p
				if math.Abs(u-p) < 5e-10 || math.Abs(u-1+p) < 5e-10 {
					continue
				}
				if low == high {
					if keep == low {
						k.Fail("decision", "%s: dropped with probability %.12g, but a draw of %v keeps=%v", what(i), p, u, keep)
						return false
					}
					continue
				}
				o := 2
				if low != keep {
					o = 1
				}
				if orientation == 0 {
					orientation = o
				}
				if o != orientation {
					k.Fail("decision", "%s: dropped with probability %.12g, but a draw of %v keeps=%v", what(i), p, u, keep)
					return false
				}
			}
		}
		if p > 0 && !seam {
			k.Note("words whose draws do not pass the seam", 1)
			k.NotExhaustive()
			kept := 0
			for n := 0; n < 4000; n++ {
				if s.Trial(i) {
					kept++
				}
			}
			if got := 1 - float64(kept)/4000; math.Abs(got-p) > 0.08 {
				k.Fail("probability", "%s: dropped in %.3f of 4000 trials, want %.3f", what(i), got, p)
				return false
			}
		}
	}
	k.One(0, fmt.Sprint(freq, t))
	return true
}

func main() {
	h.Main(func(c *h.C) {
		ts := []float64{0, 1e-9, 1e-5, 1e-4, 1e-3, 0.01, 0.05, 0.1, 0.15, 0.2, 0.25, 0.3, 1.0 / 3, 0.4, 0.5, 0.6, 0.75, 0.9, 0.999, 1, 1.5, 2, 100, 1e9}
		maxf, words := 6, 4
		if c.Thorough {
			maxf, words = 9, 5
		}
		for _, t := range ts {
			for n := 1; n <= words; n++ {
				c.Case(func() string { return fmt.Sprintf("threshold %g, %d words", t, n) }, func(k *h.K) {
					ref.Seqs(maxf, n, func(q []int) {
						if k.Failed() {
							return
						}
						if len(q) < n {
							return
						}
						freq := make([]int, n)
						for i, x := range q {
							freq[i] = x + 1
						}
						check(k, freq, t)
					})
				})
			}
			// frequent against rare words, many words.
			for _, big := range []int{10, 99, 100, 999, 1000, 9999, 65535, 65536, 200000} {
				c.Case(func() string { return fmt.Sprintf("threshold %g, one word %d times", t, big) }, func(k *h.K) {
					check(k, []int{big, 1, 2, 10}, t)
				})
			}
			for _, n := range []int{50, 999, 1000, 1001, 20000, 65535, 65537, 140000} {
				c.Case(func() string { return fmt.Sprintf("threshold %g, %d words", t, n) }, func(k *h.K) {
					freq := make([]int, n)
					for i := range freq {
						freq[i] = 1 + n/(10*i+1)
					}
					check(k, freq, t)
				})
			}
		}
		// thresholds just below and above a word's frequency: tokens that are dropped very rarely.
		for _, freq := range [][]int{{1}, {2, 1}, {3, 3, 1}, {5, 1, 1, 2}, {100, 7}, {65536, 1000, 1}} {
			c.Case(func() string { return fmt.Sprintf("thresholds around the frequencies %v", freq) }, func(k *h.K) {
				total := 0
				for _, f := range freq {
					total += f
				}
				for _, f := range freq {
					for _, m := range []float64{1, 2, 3, 5, 7} {
						for e := 0.1; e > 1e-9; e /= 10 {
							for _, sign := range []float64{-1, 1} {
								if !check(k, freq, float64(f)/float64(total)*(1+sign*m*e)) {
									return
								}
							}
						}
					}
				}
			})
		}
		// texts of millions of tokens.
		for _, t := range []float64{0, 1e-7, 1e-5, 1e-3, 0.1, 0.5} {
			for _, freq := range [][]int{{1 << 20, 1 << 20, 1}, {3000000, 1, 2, 100}, {100, 5000000, 1000, 33333}} {
				c.Case(func() string { return fmt.Sprintf("threshold %g, frequencies %v", t, freq) }, func(k *h.K) { check(k, freq, t) })
			}
		}
		// training: every pattern of kept tokens.
		limit := 4000
		if c.Thorough {
			limit = 40000
		}
		run := func(cfg tr.Cfg, text string) {
			c.Case(func() string { return cfg.String() + " text=" + text }, func(k *h.K) {
				if !tr.CheckDraws(k, cfg, text, limit) {
					k.Note("configurations with more draw sequences than the bound (left out)", 1)
				}
			})
		}
		n := 5
		if c.Thorough {
			n = 6
		}
		for l := 0; l <= n; l++ {
			ref.Canonical(l, 3, func(q []int) {
				text := ref.Text(q)
				for _, m := range []string{"w2v", "lexvec"} {
					for _, t := range []float64{0, 1e-3, 0.25, 0.3, 0.5, 0.55, 0.7, 1} {
						for window := 1; window <= 2; window++ {
							for _, lim := range [][2]int{{-1, -1}, {2, -1}, {-1, 1}} {
								cfg := tr.Base(m)
								cfg.Thr, cfg.Window, cfg.Min, cfg.Max = t, window, lim[0], lim[1]
								if lim[0] > 0 || lim[1] > 0 {
									if window > 1 {
										continue
									}
								}
								run(cfg, text)
								if l < n {
									v := cfg
									if v.Iter = 2; window == 1 || l < n-1 {
										run(v, text)
									}
									v = cfg
									v.Mem, v.Batch = false, 3
									run(v, text)
									if m == "w2v" {
										v = cfg
										v.Arch = "cbow"
										run(v, text)
										v.Opt = "hs"
										run(v, text)
										v.Opt, v.Neg = "ns", 1
										run(v, text)
									}
								}
							}
						}
					}
				}
			})
		}
	})
}
