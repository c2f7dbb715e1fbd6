//go:build go1.22

// C09: workers interfere only through HogWild updates of shared vectors.
package main

import (
	"fmt"

	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
	"github.com/ynqa/wego/verifrt/tr"
	"github.com/ynqa/wego/verifrt/vs"
)

func noDraw(n int) int { return 0 }

func initial(i int) float64 { return float64((i*37+11)%101) / 101 }

// races looks for conflicting accesses to anything but plain numbers.
func races(r vs.Report) (string, string) {
	for x := range r.X.Races {
		if !x.Numeric {
			return "race", fmt.Sprintf("unsynchronised concurrent accesses to something else than a vector component, learning rate or random state: %s / %s", x.A, x.B)
		}
	}
	return "", ""
}

func bound(o vs.Opts) string {
	s := fmt.Sprintf("preemptions<=%d", o.MaxPreempt)
	if o.Deviate {
		s = fmt.Sprintf("departures<=%d", o.MaxPreempt)
	}
	if o.Rotate != 0 {
		s = fmt.Sprintf("turns of %d", o.Rotate)
	}
	if o.NumPoints {
		s += " at every racy access"
	}
	return s
}

func main() {
	h.Main(func(c *h.C) {
		// workers on disjoint words.
		apart := func(cfg tr.Cfg, text string, o vs.Opts) {
			c.Case(func() string { return fmt.Sprintf("%v text=%s %s", cfg, text, bound(o)) }, func(k *h.K) {
				o.Cache = true
				rc := cfg.Corpus(text)
				vocab := len(rc.Dic)
				var want [][]float64
				draw := initial
				if cfg.Model == "glove" {
					dr, init, ok := cfg.GloveInit(k, text, vocab)
					if !ok {
						if !k.Failed() {
							k.NotExhaustive()
						}
						return
					}
					draw = dr
					for i := 0; i < 2*vocab; i++ {
						row := make([]float64, cfg.Dim+1)
						for j := range row {
							row[j] = 1
						}
						init = append(init, row)
					}
					g := &ref.GloVe{Vocab: vocab, Dim: cfg.Dim, LR: cfg.LR, AdaGrad: cfg.Solver == "adagrad", Xmax: cfg.Xmax, Alpha: cfg.Alpha}
					for _, first := range []bool{false, true} {
						p := init.Clone()
						for it := 0; it < cfg.Iter; it++ {
							for x, v := range rc.Cooc(cfg.Window, cfg.Count == "prox") {
								g.Pair(p, x.A, x.B, v, first)
							}
						}
						want = append(want, cfg.Final(p, vocab))
					}
				} else {
					zero := cfg
					zero.Iter = 0
					r := k.Once(vs.Opts{}, func() any {
						defer tr.FixedInit(draw)()
						return zero.TrainText(text)
					})
					if b := h.Bad(r); b != "" || r.Result.(tr.Out).Err != nil {
						k.Fail("training", "fails: %s", b)
						return
					}
					p := cfg.Init(r.Result.(tr.Out), rc)
					rule := cfg.Rules(rc)[0]
					t := rc.Tokens()
					for it := 0; it < cfg.Iter; it++ {
						for w := 0; w < cfg.Workers; w++ {
							doc := t[w*len(t)/cfg.Workers : (w+1)*len(t)/cfg.Workers]
							for pos := range doc {
								rule.Token(p, doc, pos, noDraw, func() float64 { return cfg.LR })
							}
						}
					}
					want = append(want, cfg.Final(p, vocab))
				}
				st := k.Explore(o, func() any {
					defer tr.FixedInit(draw)()
					return cfg.TrainText(text)
				}, func(r vs.Report) (string, string) {
					out := r.Result.(tr.Out)
					if out.Err != nil {
						return "training", "fails: " + out.Err.Error()
					}
					if k, m := races(r); m != "" {
						return k, m
					}
					got := out.Flat()
					for _, w := range want {
						if ref.NearAll(w, got) {
							return "", ""
						}
					}
					return "apart", fmt.Sprintf("workers on disjoint words learn %.9g, one after the other they learn %.9g", got, want[0])
				})
				k.Note("racy numeric access sites that became scheduling points (sum over cases)", len(st.RacySites))
			})
		}
		// what is accessed concurrently.
		classify := func(cfg tr.Cfg, text string, o vs.Opts) {
			c.Case(func() string { return fmt.Sprintf("races: %v text=%s %s", cfg, text, bound(o)) }, func(k *h.K) {
				o.Cache = true
				k.Explore(o, func() any { return cfg.TrainText(text) }, func(r vs.Report) (string, string) {
					if out := r.Result.(tr.Out); out.Err != nil {
						return "training", "fails: " + out.Err.Error()
					}
					k.Note("executions with concurrent accesses", min(1, len(r.X.Races)))
					return races(r)
				})
			})
		}
		num := func(n int) vs.Opts { return vs.Opts{MaxPreempt: n, NumPoints: true} }
		dep := func(n int) vs.Opts { return vs.Opts{MaxPreempt: n, Deviate: true} }
		depn := func(n int) vs.Opts { return vs.Opts{MaxPreempt: n, Deviate: true, NumPoints: true} }
		pre, d1, d2 := 1, 2, 2
		if c.Thorough {
			pre, d1, d2 = 2, 3, 4
		}
		type plan struct {
			text    string
			workers int
			iter    int
			o       vs.Opts
		}
		for _, p := range []plan{
			{"a b c d", 2, 1, num(pre)},
			{"a b c d", 2, 1, depn(d1)},
			{"a b a c d c", 2, 1, depn(d1)},
			{"a b c d e f", 3, 1, depn(d1)},
			{"a b c d", 2, 2, depn(d1)},
		} {
			for _, v := range []func(*tr.Cfg){
				func(c *tr.Cfg) {}, func(c *tr.Cfg) { c.Arch = "cbow" }, func(c *tr.Cfg) { c.Model = "lexvec" },
			} {
				for _, ulr := range []int{1, 1000} {
					for _, mem := range []bool{true, false} {
						cfg := tr.Base("w2v")
						v(&cfg)
						cfg.Workers, cfg.Iter, cfg.ULR, cfg.Mem = p.workers, p.iter, ulr, mem
						cfg.Batch = (len(p.text) + 1) / 2 / p.workers
						apart(cfg, p.text, p.o)
						if p.o.Deviate && cfg.Dim == 2 && ulr == 1 {
							cfg.Dim = 3
							apart(cfg, p.text, p.o)
						}
					}
				}
			}
		}
		for _, p := range []plan{
			{"", 2, 1, num(pre)},
			{"", 2, 1, depn(d2)},
			{"", 2, 2, depn(d1)},
			{"", 3, 1, depn(d1)},
		} {
			for _, s := range []string{"sgd", "adagrad"} {
				for dim := 1; dim <= 3; dim++ {
					cfg := tr.Base("glove")
					cfg.Solver, cfg.Dim, cfg.Workers, cfg.Iter = s, dim, p.workers, p.iter
					cfg.Min = 2
					apart(cfg, groups(p.workers), p.o)
				}
			}
		}
		// many workers, taking turns of a few accesses.
		turns := []int{1, 2, 3, 5, 8, -1, -2, -4}
		if c.Thorough {
			turns = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 16, 21, -1, -2, -3, -4, -5, -6, -7, -11}
		}
		for i, workers := range []int{2, 3, 4, 5, 7, 8, 9, 10, 12, 16, 17, 20, 32, 33, 40, 64, 65, 100, 128, 129} {
			var pairs []int
			for w := 0; w < workers; w++ {
				pairs = append(pairs, 2*w, 2*w+1)
			}
			for j, v := range []func(*tr.Cfg){
				func(c *tr.Cfg) {}, func(c *tr.Cfg) { c.Arch = "cbow" }, func(c *tr.Cfg) { c.Model = "lexvec" },
				func(c *tr.Cfg) { c.Model, c.Min = "glove", 2 }, func(c *tr.Cfg) { c.Model, c.Solver, c.Min = "glove", "adagrad", 2 },
			} {
				for n, q := range turns {
					if workers > 20 && !c.Thorough && (i+j+n)%4 != 0 {
						continue
					}
					cfg := tr.Base("w2v")
					v(&cfg)
					cfg.Workers, cfg.Mem, cfg.Batch, cfg.Dim = workers, (i+j)%2 == 0, 2, 1+n%3
					text := ref.Text(pairs)
					if cfg.Model == "glove" {
						if workers > 33 {
							continue
						}
						text = groups(workers)
					}
					apart(cfg, text, vs.Opts{Rotate: q, NumPoints: true})
				}
			}
		}
		// races, on words that all workers share.
		for _, text := range []string{"a b a c", "a b c a b d a a c", ""} {
			for _, m := range []string{"w2v", "lexvec", "glove"} {
				vars := []func(*tr.Cfg){func(c *tr.Cfg) {}, func(c *tr.Cfg) { c.Neg, c.Window = 2, 2 }, func(c *tr.Cfg) { c.Thr, c.ULR = 0.1, 1 }, func(c *tr.Cfg) { c.Min = 2 }}
				switch m {
				case "w2v":
					vars = append(vars,
						func(c *tr.Cfg) { c.Arch, c.Neg, c.ULR = "cbow", 1, 2 },
						func(c *tr.Cfg) { c.Opt = "hs" }, func(c *tr.Cfg) { c.Opt, c.Depth, c.ULR = "hs", 2, 1 },
						func(c *tr.Cfg) { c.Arch, c.Opt, c.Window = "cbow", "hs", 2 })
				case "lexvec":
					vars = append(vars, func(c *tr.Cfg) { c.Rel = "ppmi" }, func(c *tr.Cfg) { c.Rel, c.ULR = "pmi", 1 })
				case "glove":
					vars = append(vars, func(c *tr.Cfg) { c.Solver = "adagrad" }, func(c *tr.Cfg) { c.Count, c.Window = "prox", 3 })
				}
				for _, v := range vars {
					for _, workers := range []int{2, 3} {
						for _, iter := range []int{1, 2} {
							for _, mem := range []bool{true, false} {
								cfg := tr.Base(m)
								v(&cfg)
								cfg.Workers, cfg.Iter, cfg.Mem = workers, iter, mem
								d := d1
								if len(text) > 8 || iter > 1 {
									d--
								}
								classify(cfg, text, dep(d))
							}
						}
					}
				}
			}
		}
	})
}

// groups is a text in which each of n pairs of words occurs within the window and nothing else does once
// words that occur once are dropped.
func groups(n int) string {
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += fmt.Sprintf(" x%d ", i)
		}
		a, b := ref.Name(2*i), ref.Name(2*i+1)
		s += fmt.Sprintf("%s %s %s y%d %s %s", a, b, a, i, b, a)
	}
	return s
}
