//go:build go1.22

// C04: frequency limits decide exactly which words take part in training.
package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/ynqa/wego/verifrt/cp"
	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
	"github.com/ynqa/wego/verifrt/tr"
	"github.com/ynqa/wego/verifrt/vs"
)

func main() {
	h.Main(func(c *h.C) {
		names := []string{"a", "B", "b", "c"}
		n := 7
		if c.Thorough {
			n = 9
		}
		var lims [][2]int
		for min := -2; min <= 4; min++ {
			for max := -2; max <= 4; max++ {
				lims = append(lims, [2]int{min, max})
			}
		}
		lims = append(lims, [2]int{-1 << 62, 1 << 62}, [2]int{1 << 62, -1}, [2]int{-1, 1 << 33})
		corpora := func(k *h.K, s string, lims [][2]int) {
			for _, lower := range []bool{false, true} {
				for _, lim := range lims {
					r := ref.NewCorpus(s, lower, lim[1], lim[0])
					want, pairs := r.Tokens(), r.Cooc(2, false)
					for _, mem := range []bool{true, false} {
						cc, err := cp.Load(mem, strings.NewReader(s), lower, lim[1], lim[0], 2, "inc")
						if err != nil {
							k.Fail("error", "%q: %v", cp.Clip(s), err)
							return
						}
						got, err := cp.Tokens(cc, mem, 2, len(r.IDs))
						if err != nil || !slices.Equal(got, want) {
							k.Fail("tokens", "%q (%s, lower=%v, min=%d, max=%d): training tokens %s, want %s (%v)", cp.Clip(s), cp.Store(mem), lower, lim[0], lim[1], cp.Clip(fmt.Sprint(got)), cp.Clip(fmt.Sprint(want)), err)
							return
						}
						// the sequence is the same each time that it is asked for, whatever the batches.
						for _, batch := range []int{1, len(s) + 1} {
							if got, err = cp.Tokens(cc, mem, batch, len(r.IDs)); err != nil || !slices.Equal(got, want) {
								k.Fail("tokens", "%q (%s, lower=%v, min=%d, max=%d): training tokens %s when they are asked for again, want %s (%v)", cp.Clip(s), cp.Store(mem), lower, lim[0], lim[1], cp.Clip(fmt.Sprint(got)), cp.Clip(fmt.Sprint(want)), err)
								return
							}
							if len(r.IDs) > 1000 {
								break
							}
						}
						co, err := cp.Cooc(cc)
						if err != nil {
							k.Fail("keys", "%v", err)
							return
						}
						if m := cp.SameCooc(co, pairs); m != "" {
							k.Fail("pairs", "%q (%s, lower=%v, min=%d, max=%d): %s", cp.Clip(s), cp.Store(mem), lower, lim[0], lim[1], m)
							return
						}
					}
					out := ""
					if len(want) < 20 {
						out = fmt.Sprint(want, ref.ShowPairs(pairs))
					}
					k.One(len(r.IDs), out)
				}
			}
		}
		for l := 0; l <= n; l++ {
			ref.Canonical(l, 4, func(q []int) {
				var ws []string
				for _, i := range q {
					ws = append(ws, names[i])
				}
				s := strings.Join(ws, " ")
				c.Case(func() string { return "text " + s }, func(k *h.K) { corpora(k, s, lims) })
			})
		}
		// texts of moderate length, all limits around the frequencies.
		lengths, words := []int{12, 20, 33, 64, 65, 100, 129, 200, 257}, []int{5, 8, 13, 20, 40}
		if c.Thorough {
			lengths = append(lengths, 15, 16, 17, 50, 127, 128, 150, 255, 256, 300, 500, 513)
			words = append(words, 6, 9, 16, 17, 33, 100)
		}
		for _, l := range lengths {
			for _, m := range words {
				for shape := 0; shape < 3; shape++ {
					c.Case(func() string { return fmt.Sprintf("%d tokens of %d words, shape %d", l, m, shape) }, func(k *h.K) {
						var ws []string
						x := 1
						for i := 0; i < l; i++ {
							x = x * 48271 % 2147483647
							w := i % m
							switch shape {
							case 1: // few frequent words, many rare ones.
								w = x % m * (x / 64 % m) / m
							case 2: // runs.
								w = i * i / l * m / l % m
							}
							ws = append(ws, fmt.Sprintf("%c%d", "wW"[w%2], w/2))
						}
						var ls [][2]int
						for min := -1; min <= 12; min++ {
							for max := -1; max <= 12; max++ {
								if c.Thorough || l < 200 || (min+max)%3 == 0 {
									ls = append(ls, [2]int{min, max})
								}
							}
						}
						corpora(k, strings.Join(ws, " "), ls)
					})
				}
			}
		}
		for _, f := range []int{5, 100, 255, 256, 1000, 65535, 65536} {
			c.Case(func() string { return fmt.Sprintf("frequencies around %d", f) }, func(k *h.K) {
				s := strings.Repeat("a b c ", f-1) + "b c c"
				corpora(k, s, [][2]int{{f - 1, -1}, {f, -1}, {f + 1, -1}, {f + 2, -1}, {-1, f - 1}, {-1, f}, {-1, f + 1}, {f, f}, {f, 0}})
			})
		}
		for _, f := range []int{370000} {
			c.Case(func() string { return fmt.Sprintf("frequencies around %d", f) }, func(k *h.K) {
				corpora(k, strings.Repeat("a b c ", f-1)+"b c c", [][2]int{{f, f}})
			})
		}
		// training leaves filtered words as they were.
		texts := [][]int{{0, 1, 0}, {0, 1, 0, 2, 1, 0}, {0, 0, 1, 1, 2, 0, 3, 1}, {0, 1, 2}}
		for _, q := range texts {
			for _, m := range []string{"w2v", "lexvec", "glove"} {
				archs := []string{""}
				if m == "w2v" {
					archs = []string{"cbow ns", "cbow hs", "skipgram ns", "skipgram hs"}
				}
				for _, arch := range archs {
					for _, mem := range []bool{true, false} {
						for min := 0; min <= 3; min++ {
							for max := 0; max <= 3; max++ {
								for _, workers := range []int{1, 2} {
									cfg := tr.Base(m)
									cfg.Min, cfg.Max, cfg.Mem, cfg.Workers, cfg.Window = min, max, mem, workers, 2
									if arch != "" {
										cfg.Arch, cfg.Opt, _ = strings.Cut(arch, " ")
									}
									// no negative samples: those are drawn from the whole vocabulary.
									s := ref.Text(q)
									c.Case(func() string { return cfg.String() + " text=" + s }, func(k *h.K) {
										run := func(iter int) tr.Out {
											cf := cfg
											cf.Iter = iter
											r := k.Once(vs.Opts{}, func() any { return cf.TrainText(s) })
											if b := h.Bad(r); b != "" {
												k.Fail("training", "%s", b)
												return tr.Out{}
											}
											o := r.Result.(tr.Out)
											if o.Err != nil {
												k.Fail("training", "fails: %v", o.Err)
											}
											return o
										}
										a := run(0)
										b := run(2)
										if k.Failed() {
											return
										}
										rc := ref.NewCorpus(s, false, max, min)
										for id := range rc.Dic {
											if !rc.Kept(id) && (!ref.NearAll(a.Single[id], b.Single[id]) || !ref.NearAll(a.Agg[id], b.Agg[id])) {
												k.Fail("trained", "%q occurs %d times and is filtered, but its vectors change from %v / %v to %v / %v", rc.Dic[id], rc.Freq[id], a.Single[id], a.Agg[id], b.Single[id], b.Agg[id])
												return
											}
										}
										k.One(2*len(q), cfg.String()+tr.Show(b.Single))
									})
								}
							}
						}
					}
				}
			}
		}
	})
}
