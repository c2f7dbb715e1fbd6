//go:build go1.22

package tr

import (
	"fmt"
	"math"

	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
	"github.com/ynqa/wego/verifrt/vs"
)

// GloveInit finds the parameters that initial draws lead to, biases included: those are not exported, so
// the draws take few values and what each value becomes is seen in the components.
func (c Cfg) GloveInit(k *h.K, text string, vocab int) (draw func(int) float64, p ref.Params, ok bool) {
	zero := c
	zero.Iter = 0
	try := func(draw func(int) float64) (ref.Params, bool) {
		stop := FixedInit(draw)
		defer stop()
		o, ok := start(k, zero, text, func() any { return zero.TrainText(text) })
		if !ok || len(o.Single) != vocab {
			return nil, false
		}
		seen := map[float64]float64{}
		p := ref.Params{}
		for _, part := range [][][]float64{o.Single, o.Ctx()} {
			for _, row := range part {
				for i, x := range row {
					d := draw(len(p)*(c.Dim+1) + i)
					if v, ok := seen[d]; ok && math.Abs(v-x) > 1e-12 {
						return nil, false
					}
					seen[d] = x
				}
				p = append(p, append(append([]float64{}, row...), 0))
			}
		}
		for r := range p {
			v, ok := seen[draw(r*(c.Dim+1)+c.Dim)]
			if !ok {
				return nil, false
			}
			p[r][c.Dim] = v
		}
		return p, true
	}
	draw = func(i int) float64 { return [...]float64{0.2, 0.85, 0.5, 0.7, 0.35}[(i+i/5)%5] }
	if c.Dim*2*vocab < 25 {
		draw = func(i int) float64 { return [...]float64{0.2, 0.85}[(i+i/3)%2] }
	}
	if p, ok = try(draw); ok {
		return
	}
	k.Note("cases with equal initial values", 1)
	draw = func(int) float64 { return 0.6 }
	p, ok = try(draw)
	return
}

// CheckGlove compares a GloVe training under every visiting order of the pairs with the reference.
func CheckGlove(k *h.K, cfg Cfg, text string, limit int) bool {
	rc := cfg.Corpus(text)
	vocab := len(rc.Dic)
	co := rc.Cooc(cfg.Window, cfg.Count == "prox")
	pairs := ref.SortedPairs(co)
	orders := 1
	for i := 2; i <= len(pairs); i++ {
		orders *= i
	}
	if n := math.Pow(float64(orders), float64(cfg.Iter)); n > float64(limit) {
		return false
	}
	draw, init, ok := cfg.GloveInit(k, text, vocab)
	if !ok {
		if !k.Failed() && vocab > 0 {
			k.Note("cases without known initial values (left out)", 1)
			k.NotExhaustive()
		}
		return true
	}
	for i := 0; i < 2*vocab; i++ {
		row := make([]float64, cfg.Dim+1)
		for j := range row {
			row[j] = 1
		}
		init = append(init, row)
	}
	g := &ref.GloVe{Vocab: vocab, Dim: cfg.Dim, LR: cfg.LR, AdaGrad: cfg.Solver == "adagrad", Xmax: cfg.Xmax, Alpha: cfg.Alpha}
	var sets [2]*ref.Outcomes
	alive := [2]bool{true, true}
	for b := range sets {
		set := &ref.Outcomes{}
		diverges := false
		ref.Choices(0, func(choose func(int) int) {
			p := init.Clone()
			for it := 0; it < cfg.Iter; it++ {
				left := append([]ref.Pair{}, pairs...)
				for len(left) > 0 {
					i := choose(len(left))
					x := left[i]
					left = append(left[:i:i], left[i+1:]...)
					g.Pair(p, x.A, x.B, co[x], b == 1)
				}
			}
			v := p.Flat(vocab, cfg.Dim)
			agg := append([]float64{}, v...)
			for i := 0; i < vocab; i++ {
				for j := 0; j < cfg.Dim; j++ {
					agg[i*cfg.Dim+j] += p[vocab+i][j]
				}
			}
			v = append(v, agg...)
			for _, x := range v {
				if !(math.Abs(x) < 1e6) {
					diverges = true
				}
			}
			set.Add(v, 1)
		})
		if diverges {
			k.Note("configurations that diverge (left out)", 1)
			return true
		}
		sets[b] = set
	}
	stop := FixedInit(draw)
	defer stop()
	distinct := &ref.Outcomes{}
	st := k.Explore(vs.Opts{Fixed: true, Data: true, MapOrder: true, MaxExecs: 20*limit + 100}, func() any {
		stop()
		FixedInit(draw)
		return cfg.TrainText(text)
	}, func(r vs.Report) (string, string) {
		o := r.Result.(Out)
		if o.Err != nil {
			return "training", "fails: " + o.Err.Error()
		}
		v := o.Flat()
		distinct.Add(v, 1)
		any := false
		var near []float64
		for i, s := range sets {
			if alive[i] {
				m, n := s.Match(v, 1)
				if !m {
					alive[i] = false
					near = n
				}
				any = any || m
			}
		}
		if !any {
			return "rule", fmt.Sprintf("the learned vectors %.7g follow from the update rule for no order of the pairs (%d outcomes; nearest %.7g)", v, sets[0].Len(), near)
		}
		return "", ""
	})
	if k.Failed() || !st.Exhaustive {
		return true
	}
	k.Outcome(fmt.Sprint(cfg, text))
	k.Note("distinct outcomes of the implementation", distinct.Len())
	k.Note("distinct outcomes of the reference", sets[0].Len())
	return true
}

// CheckGloveLong compares a GloVe training of a long text with the reference at a rate so small that the
// order of the pairs does not matter: every parameter moves by the sum of its changes.
func CheckGloveLong(k *h.K, cfg Cfg, text string) {
	rc := cfg.Corpus(text)
	vocab := len(rc.Dic)
	draw, init, ok := cfg.GloveInit(k, text, vocab)
	if !ok {
		if !k.Failed() && vocab > 0 {
			k.Note("cases without known initial values (left out)", 1)
			k.NotExhaustive()
		}
		return
	}
	stop := FixedInit(draw)
	o, ok := start(k, cfg, text, func() any { return cfg.TrainText(text) })
	stop()
	if !ok {
		return
	}
	g := &ref.GloVe{Vocab: vocab, Dim: cfg.Dim, LR: cfg.LR, Xmax: cfg.Xmax, Alpha: cfg.Alpha}
	move, size := make(ref.Params, 2*vocab), make([]float64, 2*vocab)
	for r := range move {
		move[r] = make([]float64, cfg.Dim)
	}
	co := rc.Cooc(cfg.Window, cfg.Count == "prox")
	p := make(ref.Params, 2*vocab)
	one := func(a, b int, x float64) {
		// the change that the update makes to these two vectors alone.
		p[a] = append([]float64{}, init[a]...)
		p[b] = append([]float64{}, init[b]...)
		g.Update(p, a, b, x)
		for _, r := range []int{a, b} {
			for i := range move[r] {
				d := (p[r][i] - init[r][i]) * float64(cfg.Iter)
				move[r][i] += d
				size[r] += math.Abs(d)
			}
		}
		p[a], p[b] = nil, nil
	}
	for _, p := range ref.SortedPairs(co) {
		one(p.A, vocab+p.B, co[p])
		one(vocab+p.A, p.B, co[p])
	}
	for part, rows := range [][][]float64{o.Single, o.Ctx()} {
		if len(rows) != vocab {
			k.Fail("size", "%d vectors instead of %d", len(rows), vocab)
			return
		}
		for i, row := range rows {
			r := part*vocab + i
			for j, x := range row {
				want := move[r][j]
				if got := x - init[r][j]; !(math.Abs(got-want) <= 1e-4*size[r]+1e-14) {
					k.Fail("rule", "the %s vector of word %d moves by %.7g in component %d; its pairs add up to %.7g", [2]string{"word", "context"}[part], i, got, j, want)
					return
				}
			}
		}
	}
	k.One(len(co)*cfg.Iter, fmt.Sprint(cfg, len(text)))
}
