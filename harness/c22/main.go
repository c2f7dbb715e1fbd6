//go:build go1.22

// C22: every configuration either trains or is rejected with an error.
package main

import (
	"fmt"
	"io"
	"math"
	"os"
	"strings"

	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/tr"
	"github.com/ynqa/wego/verifrt/vs"
)

// value is one value of an option: in its documented range, out of it, or a name that does not exist.
type value struct {
	v    any
	kind byte // i: in range, o: out of range, u: unknown name
}

type field struct {
	name   string
	models string // w l g
	set    func(c *tr.Cfg, v any)
	values []value
}

const minInt, maxInt = -1 << 63, 1<<63 - 1

func ints(in, out []int) (r []value) {
	for _, x := range in {
		r = append(r, value{x, 'i'})
	}
	for _, x := range out {
		r = append(r, value{x, 'o'})
	}
	return
}

func floats(in, out []float64) (r []value) {
	for _, x := range in {
		r = append(r, value{x, 'i'})
	}
	for _, x := range out {
		r = append(r, value{x, 'o'})
	}
	return
}

func names(in, unknown []string) (r []value) {
	for _, x := range in {
		r = append(r, value{x, 'i'})
	}
	for _, x := range unknown {
		r = append(r, value{x, 'u'})
	}
	return
}

var inf, nan = math.Inf(1), math.NaN()

var fields = []field{
	{"dim", "wlg", func(c *tr.Cfg, v any) { c.Dim = v.(int) }, ints([]int{1, 2, 10, 64, 300, 2000}, []int{0, -1, -7, minInt})},
	{"goroutines", "wlg", func(c *tr.Cfg, v any) { c.Workers = v.(int) }, ints([]int{1, 2, 3, 17, 100}, []int{0, -1, minInt})},
	{"batch", "wlg", func(c *tr.Cfg, v any) { c.Batch = v.(int) }, ints([]int{1, 2, 3, 4, 5, 1000, 1 << 20, 1 << 62}, []int{0, -1, minInt})},
	{"window", "wlg", func(c *tr.Cfg, v any) { c.Window = v.(int) }, ints([]int{1, 2, 5, 100, 1000, 1 << 40, 1 << 62}, []int{0, -1, -5, minInt})},
	{"iter", "wlg", func(c *tr.Cfg, v any) { c.Iter = v.(int) }, ints([]int{1, 2, 5, 30}, []int{0, -1, minInt})},
	{"initlr", "wlg", func(c *tr.Cfg, v any) { c.LR = v.(float64) }, floats([]float64{0.025, 0.5, 1e-300, 1}, []float64{0, -1, 1e300, inf, nan, -inf})},
	{"min-lr", "wl", func(c *tr.Cfg, v any) { c.MinLR = v.(float64) }, floats([]float64{0, 1e-4, 0.025, 1e-300}, []float64{-1, 10, inf, nan, -inf})},
	{"update-lr-batch", "wl", func(c *tr.Cfg, v any) { c.ULR = v.(int) }, ints([]int{1, 2, 100, maxInt}, []int{0, -1, minInt})},
	{"min-count", "wlg", func(c *tr.Cfg, v any) { c.Min = v.(int) }, ints([]int{-1, 0, 1, 2, 5, maxInt, minInt}, nil)},
	{"max-count", "wlg", func(c *tr.Cfg, v any) { c.Max = v.(int) }, ints([]int{-1, 0, 1, 2, 5, maxInt, minInt}, nil)},
	{"threshold", "wlg", func(c *tr.Cfg, v any) { c.Thr = v.(float64) }, floats([]float64{0, 1e-3, 0.5, 1, 2}, []float64{-1, inf, nan, -inf})},
	{"in-memory", "wlg", func(c *tr.Cfg, v any) { c.Mem = v.(bool) }, []value{{true, 'i'}, {false, 'i'}}},
	{"to-lower", "wlg", func(c *tr.Cfg, v any) { c.Lower = v.(bool) }, []value{{true, 'i'}}},
	{"verbose", "wlg", func(c *tr.Cfg, v any) { c.Verbose = v.(bool) }, []value{{true, 'i'}}},
	{"log-batch", "wlg", func(c *tr.Cfg, v any) { c.Log = v.(int) }, ints([]int{1, 2, 100, maxInt}, []int{0, -1, minInt})},
	{"verbose log-batch", "wlg", func(c *tr.Cfg, v any) { c.Verbose, c.Log = true, v.(int) }, ints([]int{1, 2, 100, maxInt}, []int{0, -1, minInt})},
	{"model", "w", func(c *tr.Cfg, v any) { c.Arch = v.(string) }, names([]string{"cbow", "skipgram"}, []string{"", "unknown", "cbo", "skip-gram", "glove", "ns", "CBOW", "skipgram "})},
	{"optimizer", "w", func(c *tr.Cfg, v any) { c.Opt = v.(string) }, names([]string{"ns", "hs"}, []string{"", "unknown", "n", "hsn", "sgd", "cbow", "NS", " hs"})},
	{"sample", "wl", func(c *tr.Cfg, v any) { c.Neg = v.(int) }, ints([]int{0, 1, 5, 20, 100}, []int{-1, minInt})},
	{"max-depth", "w", func(c *tr.Cfg, v any) { c.Depth = v.(int) }, ints([]int{0, 1, 2, 3, 40, 100, 1000, maxInt}, []int{-1, minInt})},
	{"relation", "l", func(c *tr.Cfg, v any) { c.Rel = v.(string) }, names([]string{"ppmi", "pmi", "co", "logco"}, []string{"", "unknown", "pppmi", "log", "inc", "PPMI", "npmi"})},
	{"smooth", "l", func(c *tr.Cfg, v any) { c.Smooth = v.(float64) }, floats([]float64{0, 0.75, 1}, []float64{-1, 5, inf, nan})},
	{"solver", "g", func(c *tr.Cfg, v any) { c.Solver = v.(string) }, names([]string{"sgd", "adagrad"}, []string{"", "unknown", "adam", "inc", "SGD", "adaGrad"})},
	{"cnt", "g", func(c *tr.Cfg, v any) { c.Count = v.(string) }, names([]string{"inc", "prox"}, []string{"", "unknown", "in", "sgd", "INC", "prox,"})},
	{"xmax", "g", func(c *tr.Cfg, v any) { c.Xmax = v.(int) }, ints([]int{1, 2, 100, maxInt}, []int{0, -1, minInt})},
	{"alpha", "g", func(c *tr.Cfg, v any) { c.Alpha = v.(float64) }, floats([]float64{0, 0.75, 1}, []float64{-1, 5, inf, nan})},
}

var texts = []string{"", "a", "a b A c a b", "a a a a a a a"}

type pick struct{ f, v int }

func main() {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	os.Stdout = null
	h.Main(func(c *h.C) {
		bases := []tr.Cfg{}
		for _, m := range []string{"w2v", "lexvec", "glove"} {
			b := tr.Base(m)
			b.LR, b.MinLR, b.Neg, b.Window, b.Workers = 0.025, 1e-4, 1, 2, 2
			bases = append(bases, b)
			if m == "w2v" {
				b.Arch, b.Opt = "cbow", "hs"
				bases = append(bases, b)
			}
			if m == "lexvec" {
				b.Rel, b.Mem = "ppmi", false
				bases = append(bases, b)
			}
			if m == "glove" {
				b.Solver, b.Count, b.Mem = "adagrad", "prox", false
				bases = append(bases, b)
			}
		}
		for _, b := range bases {
			var mine []field
			for _, f := range fields {
				if strings.Contains(f.models, b.Model[:1]) {
					mine = append(mine, f)
				}
			}
			c.Case(func() string { return fmt.Sprintf("%v", b) }, func(k *h.K) { one(k, b, mine, nil) })
			for i := range mine {
				c.Case(func() string { return fmt.Sprintf("%v with every %s", b, mine[i].name) }, func(k *h.K) {
					for v := range mine[i].values {
						one(k, b, mine, []pick{{i, v}})
					}
				})
				for j := i + 1; j < len(mine); j++ {
					c.Case(func() string { return fmt.Sprintf("%v with every %s, %s", b, mine[i].name, mine[j].name) }, func(k *h.K) {
						for v := range mine[i].values {
							for w := range mine[j].values {
								one(k, b, mine, []pick{{i, v}, {j, w}})
							}
						}
					})
					if !c.Thorough {
						continue
					}
					for l := j + 1; l < len(mine); l++ {
						c.Case(func() string {
							return fmt.Sprintf("%v with every %s, %s, %s", b, mine[i].name, mine[j].name, mine[l].name)
						}, func(k *h.K) {
							for v := range mine[i].values {
								for w := range mine[j].values {
									for x := range mine[l].values {
										one(k, b, mine, []pick{{i, v}, {j, w}, {l, x}})
									}
								}
							}
						})
					}
				}
			}
		}
	})
}

func one(k *h.K, cfg tr.Cfg, fs []field, picks []pick) {
	if k.Failed() {
		return
	}
	var what []string
	in, unknown := true, false
	for _, p := range picks {
		v := fs[p.f].values[p.v]
		fs[p.f].set(&cfg, v.v)
		what = append(what, fmt.Sprintf("%s=%v", fs[p.f].name, v.v))
		in = in && v.kind == 'i'
		unknown = unknown || v.kind == 'u'
	}
	// a minimum above the initial rate is not in range.
	in = in && (cfg.Model == "glove" || cfg.MinLR <= cfg.LR)
	for _, text := range texts {
		r := k.Once(vs.Opts{MaxSteps: 50000000}, func() any {
			m, err := cfg.New()
			if err == nil {
				err = m.Train(strings.NewReader(text))
			}
			if err == nil {
				err = m.Save(io.Discard, "agg")
				if err != nil {
					err = fmt.Errorf("save: %w", err)
				}
			}
			return tr.Out{Err: err}
		})
		say := func(key, format string, a ...any) {
			k.Fail(key, "%s, text %q: %s", strings.Join(what, " "), text, fmt.Sprintf(format, a...))
		}
		if b := h.Bad(r); b != "" {
			say("crash", "%s", b)
			return
		}
		err := r.Result.(tr.Out).Err
		if unknown && err == nil {
			say("accepted", "the unknown name is accepted")
			return
		}
		if in && err != nil {
			say("rejected", "every value is in its range, but there is the error %v", err)
			return
		}
		k.One(1, fmt.Sprint(cfg, text, err != nil))
	}
}
