//go:build go1.22

// C08: every training token (GloVe: pair) is trained exactly once per iteration.
//
// With a tiny learning rate training adds up the updates that its tokens make to the initial vectors, in
// whatever order, up to terms that are quadratic in the rate: the learned change is the sum over the
// tokens, and tells a token that is trained twice or never. With one worker the order is exact.
package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/ynqa/wego/pkg/model/modelutil"
	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
	"github.com/ynqa/wego/verifrt/tr"
	"github.com/ynqa/wego/verifrt/vrand"
	"github.com/ynqa/wego/verifrt/vs"
)

const rate = 1e-8

func noDraw(n int) int { return 0 }

// fixDraws makes every bounded draw 0.
func fixDraws() func() {
	f := func(int) (int, bool) { return 0, true }
	vs.DrawHook, vrand.IntnHook = f, f
	return func() { vs.DrawHook, vrand.IntnHook = nil, nil }
}

// divisions are the possible cuts of the tokens into one consecutive range per worker.
func divisions(doc []int, workers int) [][][]int {
	small, extra := len(doc)/workers, len(doc)%workers
	cut := func(big func(i int) bool) [][]int {
		var res [][]int
		at := 0
		for i := 0; i < workers; i++ {
			n := small
			if big(i) {
				n++
			}
			res = append(res, doc[at:at+n])
			at += n
		}
		return res
	}
	if extra == 0 || workers > len(doc) && len(doc) == 0 {
		return [][][]int{cut(func(int) bool { return false })}
	}
	res := [][][]int{
		cut(func(i int) bool { return i < extra }),
		cut(func(i int) bool { return i >= workers-extra }),
		cut(func(i int) bool { return (i+1)*extra/workers > i*extra/workers }),
	}
	// the division that the code announces, if it is one (see C18).
	if ix := modelutil.IndexPerThread(workers, len(doc)); len(ix) == workers+1 && ix[0] == 0 && ix[workers] == len(doc) {
		good := true
		for i := 0; i < workers; i++ {
			n := ix[i+1] - ix[i]
			good = good && (n == small || n == small+1)
		}
		if good {
			res = append(res, cut(func(i int) bool { return ix[i+1]-ix[i] > small }))
		}
	}
	if workers <= 5 {
		for m := 0; m < 1<<workers; m++ {
			n := 0
			for i := 0; i < workers; i++ {
				n += m >> i & 1
			}
			if n == extra {
				res = append(res, cut(func(i int) bool { return m>>i&1 == 1 }))
			}
		}
	}
	return res
}

// plain runs the configuration once without iterations.
func plain(k *h.K, cfg tr.Cfg, text string, draw func(int) float64) (tr.Out, bool) {
	zero := cfg
	zero.Iter = 0
	r := k.Once(vs.Opts{MaxSteps: 1 << 30, NoMem: true}, func() any {
		defer tr.FixedInit(draw)()
		return zero.TrainText(text)
	})
	if b := h.Bad(r); b != "" {
		k.Fail("training", "%s", b)
		return tr.Out{}, false
	}
	o := r.Result.(tr.Out)
	if o.Err != nil {
		k.Fail("training", "fails: %v", o.Err)
		return o, false
	}
	return o, true
}

func initial(i int) float64 { return 0.6 + 0.4*float64((i*37+11)%101)/101 }

// sums are the possible learned vectors, up to the tolerance.
func sums(k *h.K, cfg tr.Cfg, text string) (want [][]float64, tol float64, draw func(int) float64, ok bool) {
	rc := cfg.Corpus(text)
	vocab := len(rc.Dic)
	draw = initial
	touch := map[int]int{}
	add := func(sum, init ref.Params, f func(p ref.Params)) {
		p := init.Clone()
		f(p)
		for r := range p {
			hit := false
			for j := range p[r] {
				if d := p[r][j] - init[r][j]; d != 0 {
					sum[r][j] += float64(cfg.Iter) * d
					hit = true
				}
			}
			if hit {
				touch[r] += cfg.Iter
			}
		}
	}
	limit := func() float64 {
		m := 1
		for _, n := range touch {
			m = max(m, n)
		}
		x := float64(m*max(1, cfg.Window)) * rate
		return 2e-12 + 30*x*x
	}
	if cfg.Model == "glove" {
		var init ref.Params
		if draw, init, ok = cfg.GloveInit(k, text, vocab); !ok {
			if !k.Failed() && vocab > 0 {
				k.NotExhaustive()
			}
			return
		}
		for i := 0; i < 2*vocab; i++ {
			row := make([]float64, cfg.Dim+1)
			for j := range row {
				row[j] = 1
			}
			init = append(init, row)
		}
		g := &ref.GloVe{Vocab: vocab, Dim: cfg.Dim, LR: cfg.LR, AdaGrad: cfg.Solver == "adagrad", Xmax: cfg.Xmax, Alpha: cfg.Alpha}
		sum := init.Clone()
		for p, v := range rc.Cooc(cfg.Window, cfg.Count == "prox") {
			add(sum, init, func(q ref.Params) { g.Pair(q, p.A, p.B, v, false) })
		}
		return [][]float64{cfg.Final(sum, vocab)}, limit(), draw, true
	}
	o, good := plain(k, cfg, text, draw)
	if !good {
		return
	}
	init := cfg.Init(o, rc)
	cuts := [][][]int{cfg.Docs(rc)}
	if cfg.Mem {
		cuts = divisions(rc.Tokens(), cfg.Workers)
	}
	rule := cfg.Rules(rc)[0]
	// every draw yields 0, which may stand for the widest or for the narrowest window.
	draws := []func(int) int{noDraw}
	if cfg.Window > 1 {
		draws = append(draws, func(n int) int { return n - 1 })
	}
	for _, draw := range draws {
		for _, docs := range cuts {
			sum := init.Clone()
			touch = map[int]int{}
			for _, doc := range docs {
				for pos := range doc {
					// only the neighbourhood matters for one token: keep the reference linear.
					lo, hi := max(0, pos-cfg.Window), min(len(doc), pos+cfg.Window+1)
					local(sum, init, rule, doc[lo:hi], pos-lo, vocab, touch, cfg.Iter, draw)
				}
			}
			want = append(want, cfg.Final(sum, vocab))
		}
	}
	return want, limit(), draw, true
}

var work ref.Params

// local adds the update of one token to the sum; only rows of the words around it change.
func local(sum, init ref.Params, rule ref.Trainer, doc []int, pos, vocab int, touch map[int]int, iter int, draw func(int) int) {
	rows := map[int]bool{}
	for _, id := range doc {
		rows[id] = true
		rows[vocab+id] = true
	}
	if len(work) != len(init) {
		work = make(ref.Params, len(init))
	}
	p := work
	for r := range rows {
		p[r] = append(p[r][:0], init[r]...)
	}
	rule.Token(p, doc, pos, draw, func() float64 { return rate })
	for r := range rows {
		hit := false
		for j := range p[r] {
			if d := p[r][j] - init[r][j]; d != 0 {
				sum[r][j] += float64(iter) * d
				hit = true
			}
		}
		if hit {
			touch[r] += iter
		}
	}
}

func dist(a, b []float64) float64 {
	if len(a) != len(b) {
		return math.Inf(1)
	}
	d := 0.0
	for i := range a {
		e := math.Abs(a[i] - b[i])
		if math.IsNaN(e) {
			return math.Inf(1)
		}
		d = math.Max(d, e)
	}
	return d
}

func main() {
	h.Main(func(c *h.C) {
		// each token once, in any order.
		once := func(cfg tr.Cfg, text string, o vs.Opts, what string) {
			cfg.LR, cfg.MinLR = rate, rate
			c.Case(func() string {
				t := text
				if len(t) > 60 {
					t = fmt.Sprintf("%.50s... (%d words)", t, len(strings.Fields(t)))
				}
				return fmt.Sprintf("%v text=%s %s", cfg, t, what)
			}, func(k *h.K) {
				want, tol, draw, ok := sums(k, cfg, text)
				if !ok {
					return
				}
				k.Outcome(fmt.Sprint(cfg, text))
				alive := make([]bool, len(want))
				for i := range alive {
					alive[i] = true
				}
				one := o.Fixed || o.Rotate != 0
				o.Cache, o.NoMem = !one, one
				o.MaxSteps = 1 << 30
				k.Explore(o, func() any {
					defer tr.FixedInit(draw)()
					defer fixDraws()()
					return cfg.TrainText(text)
				}, func(r vs.Report) (string, string) {
					o := r.Result.(tr.Out)
					if o.Err != nil {
						return "training", "fails: " + o.Err.Error()
					}
					got := o.Flat()
					any, best := false, math.Inf(1)
					for i, w := range want {
						if alive[i] {
							d := dist(got, w)
							alive[i] = d <= tol
							any = any || alive[i]
							best = math.Min(best, d)
						}
					}
					if !any {
						return "once", fmt.Sprintf("the learned change is not the sum of the updates of every training token once per iteration: off by %.3g times the learning rate (%.3g allowed)", best/rate, tol/rate)
					}
					return "", ""
				})
			})
		}
		models := func(f func(cfg tr.Cfg)) {
			for _, m := range []string{"w2v", "lexvec", "glove"} {
				b := tr.Base(m)
				f(b)
				switch m {
				case "w2v":
					b.Arch = "cbow"
					f(b)
				case "glove":
					b.Solver, b.Count = "adagrad", "prox"
					f(b)
				}
			}
		}
		// every division of work, on one schedule.
		texts := map[int]string{}
		for _, n := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 25, 31, 32, 33, 40, 64, 100} {
			var q []int
			for i := 0; i < n; i++ {
				q = append(q, []int{0, 1, 2, 1, 3, 0, 4, 5, 2, 6, 7, 3, 8, 8, 1, 9}[i%16]+i/16*3)
			}
			texts[n] = ref.Text(q)
		}
		lens := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 25, 31, 32, 33, 40, 64, 100}
		workers := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 33}
		iters := []int{1, 2}
		if c.Thorough {
			iters = []int{1, 2, 3, 7}
			workers = append(workers, 10, 11, 13, 14, 15, 64, 100, 128)
		}
		for _, n := range lens {
			for _, w := range workers {
				for _, it := range iters {
					models(func(cfg tr.Cfg) {
						cfg.Workers, cfg.Iter = w, it
						once(cfg, texts[n], vs.Opts{Fixed: true}, "one schedule")
						if cfg.Model == "glove" || w > 4 && w != 33 {
							return
						}
						cfg.Mem = false
						for _, b := range []int{1, 2, 3, 5, 7, 10, 16, n - 1, n, n + 1, 10000} {
							if b > 0 && (b < n/8 || b > 16 || n < 20 || b == 7) {
								cfg.Batch = b
								once(cfg, texts[n], vs.Opts{Fixed: true}, "one schedule")
							}
						}
					})
				}
			}
		}
		// many iterations, many workers.
		for _, s := range [][2]int{{1, 5}, {1, 10}, {2, 16}, {1, 100}, {1, 255}, {1, 256}, {1, 257}, {2, 300}, {1, 5000}, {64, 1}, {65, 2}, {100, 1}, {127, 1}, {128, 1}, {129, 1}, {256, 1}, {257, 1}, {300, 2}, {1000, 1}} {
			for _, n := range []int{3, 20, 100} {
				models(func(cfg tr.Cfg) {
					cfg.Workers, cfg.Iter = s[0], s[1]
					if n == 100 && s[1] > 20 || s[1] > 1000 && (n != 3 || cfg.Arch == "cbow" || cfg.Solver == "adagrad") {
						return
					}
					once(cfg, texts[n], vs.Opts{Fixed: true}, "one schedule")
					if cfg.Model != "glove" && s[1] < 1000 {
						cfg.Mem, cfg.Batch = false, 3
						once(cfg, texts[n], vs.Opts{Fixed: true}, "one schedule")
					}
				})
			}
		}
		// workers that take turns.
		turns := []int{1, 2, 3, 5, -1, -2}
		if c.Thorough {
			turns = []int{1, 2, 3, 4, 5, 6, 7, 9, 12, 17, -1, -2, -3, -4, -5, -7}
		}
		for i, w := range []int{2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 65, 100, 129} {
			for _, n := range []int{5, 20, 100} {
				for _, q := range turns {
					models(func(cfg tr.Cfg) {
						cfg.Workers, cfg.Iter = w, 1+i%2
						once(cfg, texts[n], vs.Opts{Rotate: q}, fmt.Sprintf("turns of %d", q))
						if cfg.Model == "glove" {
							return
						}
						cfg.Mem = false
						for _, b := range []int{1, 2, 5} {
							if n < 100 || b == 2 || c.Thorough {
								cfg.Batch = b
								once(cfg, texts[n], vs.Opts{Rotate: q}, fmt.Sprintf("turns of %d", q))
							}
						}
					})
				}
			}
		}
		// windows wider than a worker's range or a batch.
		windows := []int{2, 3, 5, 20}
		if c.Thorough {
			windows = []int{2, 3, 4, 5, 7, 10, 20, 200}
		}
		for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 17, 25} {
			for _, win := range windows {
				for _, w := range []int{1, 2, 3, 5} {
					models(func(cfg tr.Cfg) {
						cfg.Window, cfg.Workers, cfg.Iter = win, w, 2-w%2
						once(cfg, texts[n], vs.Opts{Fixed: true}, "one schedule")
						if cfg.Model == "glove" || w > 3 {
							return
						}
						cfg.Mem = false
						for _, b := range []int{1, 2, 3, 4, 5, 7, n - 1, n, n + 1} {
							if b > 0 && b <= n+1 {
								cfg.Batch = b
								once(cfg, texts[n], vs.Opts{Fixed: true}, "one schedule")
							}
						}
					})
				}
			}
		}
		// limits on the frequency, options that must not matter.
		for _, lim := range [][2]int{{2, -1}, {-1, 1}, {2, 3}, {50, -1}} {
			for _, n := range []int{7, 13, 25, 40} {
				for _, w := range []int{1, 2, 3} {
					models(func(cfg tr.Cfg) {
						cfg.Workers, cfg.Min, cfg.Max, cfg.ULR, cfg.Log = w, lim[0], lim[1], 1, 1
						once(cfg, texts[n], vs.Opts{Fixed: true}, "one schedule")
						cfg.Mem, cfg.Batch, cfg.Iter = false, 4, 2
						once(cfg, texts[n], vs.Opts{Fixed: true}, "one schedule")
					})
				}
			}
		}
		// long texts: batches at the default sizes.
		for _, n := range []int{1000, 9999, 10000, 10001, 25000} {
			var b strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, "w%d ", i*7919%(n/5+1))
			}
			for _, w := range []int{1, 3, 16} {
				for _, m := range []string{"w2v", "lexvec"} {
					cfg := tr.Base(m)
					cfg.Workers = w
					if n <= 1000 || w == 3 {
						once(cfg, b.String(), vs.Opts{Fixed: true}, "one schedule")
						cfg.Mem, cfg.Batch = false, 10000
						once(cfg, b.String(), vs.Opts{Fixed: true}, "one schedule")
						cfg.Batch = 999
						once(cfg, b.String(), vs.Opts{Fixed: true}, "one schedule")
					}
				}
			}
		}
		// many batches, several times.
		for _, n := range []int{300, 1500, 5000} {
			var b strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, "w%d ", i*7919%(n/5+1))
			}
			for _, m := range []string{"w2v", "lexvec"} {
				for batch := 1; batch <= 3; batch++ {
					cfg := tr.Base(m)
					cfg.Workers, cfg.Iter, cfg.Mem, cfg.Batch = 1+batch%2, 2+n%7%2, false, batch
					once(cfg, b.String(), vs.Opts{Fixed: true}, "one schedule")
				}
			}
		}
		// schedules.
		type plan struct {
			text    string
			workers []int
			iter    int
			batch   []int
			mem     vs.Opts
			disk    vs.Opts
		}
		all := vs.Opts{MaxPreempt: -1}
		dep := func(n int) vs.Opts { return vs.Opts{MaxPreempt: n, Deviate: true} }
		pre := func(n int) vs.Opts { return vs.Opts{MaxPreempt: n} }
		plans := []plan{
			{"a b", []int{1, 2}, 1, []int{1, 2, 3}, all, pre(2)},
			{"a b a", []int{1}, 1, []int{2, 3}, all, pre(2)},
			{"a b c", []int{2, 3}, 1, []int{1, 2}, dep(3), dep(3)},
			{"a b a c", []int{2, 3}, 1, []int{1, 2, 3}, dep(3), dep(2)},
			{"a b c d", []int{2}, 2, []int{2}, dep(3), dep(2)},
			{"a b c a d b e", []int{2, 3, 4, 5}, 1, []int{1, 2, 3}, dep(2), dep(1)},
			{"a b c a d b e", []int{2, 3}, 3, []int{2, 3}, dep(1), dep(1)},
		}
		if c.Thorough {
			plans = append(plans,
				plan{"a b a", []int{2}, 1, []int{2}, all, all},
				plan{"a b c", []int{2, 3}, 1, []int{1, 2}, all, dep(5)},
				plan{"a b a c", []int{2, 3}, 2, []int{1, 2, 3}, dep(5), dep(4)},
				plan{"a b c a d b e", []int{2, 3, 4, 5}, 2, []int{1, 2, 3}, dep(3), dep(3)},
				plan{"a b c a d b e f g a c h", []int{2, 3, 4, 5, 12}, 3, []int{2, 3, 5}, dep(2), dep(2)},
			)
		}
		for _, p := range plans {
			for _, w := range p.workers {
				models(func(cfg tr.Cfg) {
					cfg.Workers, cfg.Iter = w, p.iter
					once(cfg, p.text, p.mem, what(p.mem))
					if cfg.Model == "glove" {
						return
					}
					cfg.Mem = false
					for _, b := range p.batch {
						cfg.Batch = b
						once(cfg, p.text, p.disk, what(p.disk))
					}
				})
			}
		}
		// one worker: text order, exactly.
		n := 5
		if c.Thorough {
			n = 7
		}
		for l := 0; l <= n; l++ {
			ref.Canonical(l, 3, func(q []int) {
				text := ref.Text(q)
				for _, v := range []tr.Cfg{
					{Model: "w2v", Arch: "skipgram", Opt: "ns"}, {Model: "w2v", Arch: "cbow", Opt: "ns"},
					{Model: "w2v", Arch: "skipgram", Opt: "hs"}, {Model: "lexvec"},
				} {
					cfg := tr.Base(v.Model)
					if v.Arch != "" {
						cfg.Arch, cfg.Opt = v.Arch, v.Opt
					}
					for _, it := range []int{1, 2} {
						cfg.Iter = it
						inOrder(c, cfg, text)
					}
				}
			})
		}
		for _, text := range []string{"a b c d e", "a b c a d b", "a b a c b d a"} {
			for _, m := range []string{"w2v", "lexvec"} {
				cfg := tr.Base(m)
				cfg.Mem = false
				for cfg.Batch = 2; cfg.Batch <= 5; cfg.Batch++ {
					for cfg.Iter = 1; cfg.Iter <= 2; cfg.Iter++ {
						inOrder(c, cfg, text)
					}
				}
			}
		}
	})
}

func what(o vs.Opts) string {
	switch {
	case o.MaxPreempt < 0:
		return "all schedules"
	case o.Deviate:
		return fmt.Sprintf("departures<=%d", o.MaxPreempt)
	}
	return fmt.Sprintf("preemptions<=%d", o.MaxPreempt)
}

// inOrder checks one worker: tokens in text order, batches in any order.
func inOrder(c *h.C, cfg tr.Cfg, text string) {
	c.Case(func() string { return fmt.Sprintf("%v text=%s in order", cfg, text) }, func(k *h.K) {
		o0, ok := plain(k, cfg, text, initial)
		if !ok {
			return
		}
		rc := cfg.Corpus(text)
		init := cfg.Init(o0, rc)
		rule := cfg.Rules(rc)[0]
		docs := cfg.Docs(rc)
		set := &ref.Outcomes{}
		ref.Choices(5000, func(choose func(int) int) {
			p := init.Clone()
			for i := 0; i < cfg.Iter; i++ {
				left := docs
				for len(left) > 0 {
					j := choose(len(left))
					doc := left[j]
					left = append(append([][]int{}, left[:j]...), left[j+1:]...)
					for pos := range doc {
						rule.Token(p, doc, pos, noDraw, func() float64 { return cfg.LR })
					}
				}
			}
			set.Add(cfg.Final(p, len(rc.Dic)), 1)
		})
		opts := vs.Opts{MaxPreempt: 1, Deviate: true, Cache: true}
		if !k.Thorough() && len(docs) == 1 && cfg.Mem {
			opts = vs.Opts{Fixed: true, NoMem: true}
		}
		k.Explore(opts, func() any {
			defer tr.FixedInit(initial)()
			return cfg.TrainText(text)
		}, func(r vs.Report) (string, string) {
			o := r.Result.(tr.Out)
			if o.Err != nil {
				return "training", "fails: " + o.Err.Error()
			}
			if ok, near := set.Match(o.Flat(), 1); !ok {
				return "order", fmt.Sprintf("training with one worker gives %.7g, which no training in text order gives (nearest of %d: %.7g)", o.Flat(), set.Len(), near)
			}
			return "", ""
		})
	})
}
