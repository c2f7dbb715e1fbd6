//go:build go1.22

// C10: the learning rate stays between its configured minimum and initial value.
//
// With tiny rates and words that occur once, the change of one row is the rate of the update of one token
// times a vector that the initial values determine, so the rate of every update can be read off.
package main

import (
	"fmt"
	"math"

	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
	"github.com/ynqa/wego/verifrt/tr"
	"github.com/ynqa/wego/verifrt/vs"
)

const unit = 1e-7

func noDraw(n int) int { return 0 }

func initial(i int) float64 { return 0.6 + 0.4*float64((i*37+11)%101)/101 }

// update is one observable: the row of Final that it changes, and the change for a rate of one, split into
// the parts that may use different rates.
type update struct {
	pos   int
	at    int // first index in Final
	parts [][]float64
	cut   [][]float64 // the change if one neighbour belongs to another worker
}

func show(o vs.Opts) string {
	switch {
	case o.Fixed:
		return "one schedule"
	case o.MaxPreempt < 0:
		return "all schedules"
	case o.Deviate:
		return fmt.Sprintf("departures<=%d", o.MaxPreempt)
	}
	return fmt.Sprintf("preemptions<=%d", o.MaxPreempt)
}

func main() {
	h.Main(func(c *h.C) {
		run := func(cfg tr.Cfg, text string, o vs.Opts) {
			c.Case(func() string { return fmt.Sprintf("%v text=%s %s", cfg, text, show(o)) }, func(k *h.K) {
				check(k, cfg, text, o)
			})
		}
		all := vs.Opts{MaxPreempt: -1, NumPoints: true, Cache: true}
		dep := func(n int) vs.Opts { return vs.Opts{MaxPreempt: n, Deviate: true, NumPoints: true, Cache: true} }
		one := vs.Opts{Fixed: true}
		models := func(f func(cfg tr.Cfg)) {
			for i := 0; i < 3; i++ {
				cfg := tr.Base([]string{"w2v", "w2v", "lexvec"}[i])
				if i == 1 {
					cfg.Arch = "cbow"
				}
				f(cfg)
			}
		}
		rates := [][2]float64{{1, 0.25}, {1, 0}, {1, 0.6}, {1, 1}, {0, 0}}
		// one schedule, long texts.
		for n := 2; n <= 13; n++ {
			for _, ulr := range []int{1, 2, 3, 5, 12, 13, 1000} {
				for _, r := range rates {
					for _, w := range []int{1, 2, 3, 5} {
						for _, iter := range []int{1, 2, 5} {
							if iter > 2 && w == 2 {
								continue
							}
							models(func(cfg tr.Cfg) {
								cfg.LR, cfg.MinLR, cfg.ULR, cfg.Workers, cfg.Iter = r[0]*unit, r[1]*unit, ulr, w, iter
								run(cfg, words(n), one)
								cfg.Mem, cfg.Batch = false, 3
								run(cfg, words(n), one)
							})
						}
					}
				}
			}
		}
		// words that are filtered or repeated count as well.
		for _, text := range []string{"x a x b x c x d", "a b x x x c d e x", "x x x x a b c"} {
			for _, ulr := range []int{1, 2, 3} {
				for _, r := range rates {
					models(func(cfg tr.Cfg) {
						cfg.LR, cfg.MinLR, cfg.ULR, cfg.Max = r[0]*unit, r[1]*unit, ulr, 1
						for cfg.Iter = 1; cfg.Iter <= 2; cfg.Iter++ {
							for cfg.Workers = 1; cfg.Workers <= 2; cfg.Workers++ {
								run(cfg, text, dep(1))
							}
						}
					})
				}
			}
		}
		type plan struct {
			n, workers, iter int
			mem, disk        vs.Opts
		}
		plans := []plan{
			{2, 1, 1, all, dep(3)},
			{3, 1, 1, all, dep(3)},
			{2, 1, 2, all, dep(3)},
			{4, 2, 1, dep(3), dep(2)},
			{4, 1, 2, dep(3), dep(2)},
			{5, 3, 1, dep(2), dep(2)},
			{7, 2, 1, dep(2), dep(1)},
			{6, 2, 2, dep(2), dep(1)},
		}
		if c.Thorough {
			plans = append(plans,
				plan{4, 1, 1, all, dep(5)},
				plan{4, 2, 1, all, dep(4)},
				plan{3, 1, 2, all, dep(4)},
				plan{5, 3, 2, dep(4), dep(3)},
				plan{9, 3, 2, dep(3), dep(2)},
				plan{13, 5, 2, dep(2), dep(2)},
			)
		}
		for _, p := range plans {
			for _, ulr := range []int{1, 2, 3} {
				for _, r := range rates[:3] {
					models(func(cfg tr.Cfg) {
						cfg.LR, cfg.MinLR, cfg.ULR, cfg.Workers, cfg.Iter = r[0]*unit, r[1]*unit, ulr, p.workers, p.iter
						if ulr > 1 && r[1] != 0.25 {
							return
						}
						run(cfg, words(p.n), p.mem)
						cfg.Mem = false
						for cfg.Batch = 2; cfg.Batch <= 3; cfg.Batch++ {
							run(cfg, words(p.n), p.disk)
						}
					})
				}
			}
		}
	})
}

func words(n int) string {
	var q []int
	for i := 0; i < n; i++ {
		q = append(q, i)
	}
	return ref.Text(q)
}

func check(k *h.K, cfg tr.Cfg, text string, o vs.Opts) {
	rc := cfg.Corpus(text)
	vocab := len(rc.Dic)
	zero := cfg
	zero.Iter = 0
	r := k.Once(vs.Opts{}, func() any {
		defer tr.FixedInit(initial)()
		return zero.TrainText(text)
	})
	if b := h.Bad(r); b != "" || r.Result.(tr.Out).Err != nil {
		k.Fail("training", "fails: %s", b)
		return
	}
	before := r.Result.(tr.Out)
	init := cfg.Init(before, rc)
	// the possible rates.
	cands := []float64{cfg.LR}
	for n := cfg.ULR; n <= len(rc.Tokens()); n += cfg.ULR {
		cands = append(cands, math.Max(cfg.MinLR, cfg.LR*(1-float64(n)/float64(len(rc.Words)))))
	}
	totals := []float64{0}
	for i := 0; i < cfg.Iter; i++ {
		var next []float64
		for _, t := range totals {
			for _, x := range cands {
				next = append(next, t+x)
			}
		}
		totals = next
	}
	updates := func() (res []update) {
		t := rc.Tokens()
		pieces := [][]int{t}
		if !cfg.Mem {
			pieces = cfg.Docs(rc)
		}
		pos := 0
		for _, doc := range pieces {
			for i, id := range doc {
				// the row that only this token changes: its context vector (LexVec: its own vector).
				row := vocab + id
				at := (vocab + id) * cfg.Dim
				if cfg.Model == "lexvec" {
					row, at = id, id*cfg.Dim
				}
				var parts [][]float64
				rule := cfg.Rules(rc)[0]
				diff := func(d []int, at int) []float64 {
					p := init.Clone()
					rule.Token(p, d, at, noDraw, func() float64 { return 1e-6 })
					v := make([]float64, cfg.Dim)
					for j := range v {
						v[j] = (p[row][j] - init[row][j]) / 1e-6
					}
					return v
				}
				if cfg.Model == "lexvec" {
					if i > 0 {
						parts = append(parts, diff([]int{doc[i-1], id}, 1))
					}
					if i+1 < len(doc) {
						parts = append(parts, diff([]int{id, doc[i+1]}, 0))
					}
				} else {
					parts = append(parts, diff(doc, i))
				}
				u := update{pos: pos, at: at, parts: parts}
				if cfg.Mem && cfg.Workers > 1 && cfg.Model == "w2v" {
					// a worker's range may begin or end here.
					if i > 0 {
						u.cut = append(u.cut, diff(doc[:i+1], i))
					}
					if i+1 < len(doc) {
						u.cut = append(u.cut, diff(doc[i:], 0))
					}
				}
				if len(doc) > 1 {
					res = append(res, u)
				}
				pos++
			}
		}
		return
	}()
	base := before.Flat()
	decayed := false
	k.Explore(o, func() any {
		defer tr.FixedInit(initial)()
		return cfg.TrainText(text)
	}, func(r vs.Report) (string, string) {
		out := r.Result.(tr.Out)
		if out.Err != nil {
			return "training", "fails: " + out.Err.Error()
		}
		got := out.Flat()
		last := math.Inf(1)
		for _, u := range updates {
			d := make([]float64, cfg.Dim)
			for j := range d {
				d[j] = got[u.at+j] - base[u.at+j]
				if cfg.Model != "lexvec" {
					d[j] -= got[u.at-vocab*cfg.Dim+j] - base[u.at-vocab*cfg.Dim+j]
				}
			}
			if cfg.Mem && cfg.Workers > 1 && flat(d) {
				continue // all neighbours belong to other workers
			}
			fit := func(v []float64) (rate float64, good bool) {
				num, den, off := 0.0, 0.0, 0.0
				for j := range d {
					num += d[j] * v[j]
					den += v[j] * v[j]
				}
				for j := range d {
					off = math.Max(off, math.Abs(d[j]-num/den*v[j]))
				}
				return num / den, off < 1e-3*unit*math.Sqrt(den)
			}
			var rates []float64
			if len(u.parts) == 1 {
				x, good := fit(u.parts[0])
				for _, v := range u.cut {
					if y, g := fit(v); g && !good {
						x, good = y, g
					}
				}
				if !good {
					return "rate", fmt.Sprintf("the token at position %d changes its row by %.6g, which is %.6g for no learning rate", u.pos, d, u.parts[0])
				}
				rates = []float64{x}
			} else {
				a, b := u.parts[0], u.parts[1]
				det := a[0]*b[1] - a[1]*b[0]
				if math.Abs(det) < 1e-3 {
					continue
				}
				rates = []float64{(d[0]*b[1] - d[1]*b[0]) / det, (a[0]*d[1] - a[1]*d[0]) / det}
			}
			split := cfg.Mem && cfg.Workers > 1 && cfg.Model == "lexvec"
			for _, x := range rates {
				best := math.Inf(1)
				for _, t := range totals {
					best = math.Min(best, math.Abs(t-x))
				}
				k.Outcome(fmt.Sprintf("%.3f", x/unit))
				if best > 2e-3*unit && !(split && math.Abs(x) < 1e-4*unit) {
					return "rate", fmt.Sprintf("the token at position %d is trained with %s, not a value of the decay (%.4g..%.4g)", u.pos, perIter(x, cfg.Iter), cfg.MinLR, cfg.LR)
				}
				if x < float64(cfg.Iter)*(cfg.LR-2e-3*unit) {
					decayed = true
				}
				if cfg.Mem && cfg.Workers == 1 && cfg.Iter == 1 {
					if x > last+2e-3*unit {
						return "rises", fmt.Sprintf("the learning rate rises again within an iteration: %.6g after %.6g", x, last)
					}
					last = x
				}
			}
		}
		return "", ""
	})
	if !k.Failed() && !o.Fixed && o.MaxPreempt != 0 && cfg.Workers == 1 && cfg.MinLR < cfg.LR && cfg.ULR == 1 && len(rc.Tokens()) > 2 && !decayed {
		k.Fail("decay", "the learning rate never decays")
	}
}

func flat(d []float64) bool {
	for _, x := range d {
		if math.Abs(x) > 1e-4*unit {
			return false
		}
	}
	return true
}

func perIter(x float64, iter int) string {
	if iter == 1 {
		return fmt.Sprintf("the learning rate %.6g", x)
	}
	return fmt.Sprintf("learning rates that add up to %.6g over %d iterations", x, iter)
}
