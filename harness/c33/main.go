//go:build go1.22

// C33: every training starts from fresh, independent random vectors.
package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"

	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
	"github.com/ynqa/wego/verifrt/tr"
	"github.com/ynqa/wego/verifrt/vrand"
	"github.com/ynqa/wego/verifrt/vs"
)

const top = 1 - 1.0/(1<<53)

var variants = []func(*tr.Cfg){
	func(c *tr.Cfg) { c.Model = "w2v" },
	func(c *tr.Cfg) { c.Model, c.Arch = "w2v", "cbow" },
	func(c *tr.Cfg) { c.Model, c.Opt = "w2v", "hs" },
	func(c *tr.Cfg) { c.Model, c.Opt, c.Arch, c.Depth = "w2v", "hs", "cbow", 2 },
	func(c *tr.Cfg) { c.Model = "lexvec" },
	func(c *tr.Cfg) { c.Model, c.Rel = "lexvec", "ppmi" },
	func(c *tr.Cfg) { c.Model = "glove" },
	func(c *tr.Cfg) { c.Model, c.Solver = "glove", "adagrad" },
}

// noCtx tells that a model has no context vectors.
func noCtx(c tr.Cfg) bool { return c.Model == "w2v" && c.Opt == "hs" }

// draw gives the uniform draw that a component was made from.
func draw(c tr.Cfg, x float64) float64 {
	u := x * float64(c.Dim)
	if c.Model != "glove" {
		u += 0.5
	}
	return u
}

// parts are the initial values of a training: its own vectors and the context vectors.
func parts(c tr.Cfg, o tr.Out) []float64 {
	var r []float64
	for _, x := range o.Single {
		r = append(r, x...)
	}
	if !noCtx(c) {
		for _, x := range o.Ctx() {
			r = append(r, x...)
		}
	}
	return r
}

func shape(c tr.Cfg, o tr.Out, words int) string {
	for n, rows := range [][][]float64{o.Single, o.Agg} {
		if len(rows) != words {
			return fmt.Sprintf("%d rows for %d words", len(rows), words)
		}
		for i, r := range rows {
			if len(r) != c.Dim {
				return fmt.Sprintf("row %d has %d components, the dimension is %d", i, len(r), c.Dim)
			}
			if n == 1 && noCtx(c) {
				for j := range r {
					if r[j] != o.Single[i][j] {
						return fmt.Sprintf("hierarchical softmax: component %d of word %d is %g, and %g with the context", j, i, o.Single[i][j], r[j])
					}
				}
			}
		}
	}
	return ""
}

func many(words int) string {
	var b strings.Builder
	for i := 0; i < words; i++ {
		fmt.Fprintf(&b, "w%d ", i)
	}
	return b.String()
}

func main() {
	h.Main(func(c *h.C) {
		for _, v := range variants {
			base := tr.Base("w2v")
			v(&base)
			for _, mem := range []bool{true, false} {
				base := base
				base.Mem = mem
				// every outcome of the draws.
				limit := 1024
				if c.Thorough {
					limit = 70000
				}
				for words := 1; words <= 4; words++ {
					for dim := 1; dim <= 4; dim++ {
						for _, vals := range [][]float64{{0, 0.25, 0.5, 0.75, top}, {0, 0.5, top}, {0, top}, {0.125, 0.875}} {
							cfg := base
							cfg.Dim = dim
							for _, how := range []int{0, 1} {
								cfg := untrained(cfg, how)
								n := words * dim * 2
								if cfg.Model == "glove" {
									n = words * (dim + 1) * 2
								}
								if math.Pow(float64(len(vals)), float64(n)) > float64(limit) {
									continue
								}
								c.Case(func() string { return fmt.Sprintf("%v: %d words, each draw one of %v", cfg, words, vals) },
									func(k *h.K) { outcomes(k, cfg, many(words), words, vals) })
							}
						}
					}
				}
				// a draw of its own for every component.
				sizes := []int{1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1024, 1025, 4097}
				most := 10000
				if c.Thorough {
					most = 400000
				}
				for i, words := range sizes {
					for j, dim := range sizes {
						if words*dim > most {
							continue
						}
						for how := 0; how < 3; how++ {
							if !c.Thorough && how != (i+j)%3 {
								continue
							}
							cfg := base
							cfg.Dim = dim
							cfg = untrained(cfg, how)
							c.Case(func() string { return fmt.Sprintf("%v: %d words", cfg, words) }, func(k *h.K) { own(k, cfg, many(words), words) })
						}
					}
				}
				// more components than any store of draws would hold.
				big := [][2]int{{70000, 16}, {1100, 1000}, {5, 220000}}
				if c.Thorough {
					big = append(big, [2]int{300000, 16}, [2]int{17000, 300}, [2]int{2, 3000000}, [2]int{1000000, 3})
				}
				for i, b := range big {
					words, cfg := b[0], base
					cfg.Dim = b[1]
					cfg = untrained(cfg, i%2)
					if noCtx(cfg) && words > 10000 && !c.Thorough {
						continue // the tree takes long
					}
					if !mem && !c.Thorough && i != 1 {
						continue
					}
					c.Case(func() string { return fmt.Sprintf("%v: %d words", cfg, words) }, func(k *h.K) { large(k, cfg, many(words), words) })
				}
				// every history of trainings of two instances; the texts "x y", "y z x" are not trained on.
				texts := []string{"a a b b a", "x y", "y z x", "b b"}
				l := 3
				if c.Thorough {
					l = 4
				}
				ref.Seqs(len(texts)*2, l, func(q []int) {
					q = append([]int(nil), q...)
					if len(q) == 0 {
						return
					}
					for _, dim := range []int{1, 2, 5} {
						if len(q) == 3 && (dim != 2 || !mem && !c.Thorough) {
							continue
						}
						cfg := base
						cfg.Dim, cfg.Min = dim, 2
						c.Case(func() string { return fmt.Sprintf("%v: trainings %s", cfg, hist(texts, q)) }, func(k *h.K) { history(k, cfg, texts, q) })
					}
				})
			}
		}
	})
}

// untrained leaves the initial values as they are: no iterations, all words filtered.
func untrained(cfg tr.Cfg, how int) tr.Cfg {
	switch how {
	case 0:
		cfg.Iter = 0
	case 1:
		cfg.Min = 1000000
	case 2:
		cfg.Min, cfg.Iter, cfg.Workers, cfg.Batch = 1000000, 2, 3, 3
	}
	return cfg
}

func hist(texts []string, q []int) string {
	var w []string
	for _, x := range q {
		w = append(w, fmt.Sprintf("%c(%q)", "AB"[x/len(texts)], texts[x%len(texts)]))
	}
	return strings.Join(w, ", ")
}

func outcomes(k *h.K, cfg tr.Cfg, text string, words int, vals []float64) {
	n := words * cfg.Dim
	if !noCtx(cfg) {
		n *= 2
	}
	total := 1
	for i := 0; i < n; i++ {
		total *= len(vals)
	}
	got := make([]float64, total)
	defer func() { vrand.Float64Hook = nil }()
	vrand.Float64Hook = func() (float64, bool) { return vals[vs.Choose(len(vals))], true }
	k.Explore(vs.Opts{Fixed: true, Data: true, MaxExecs: 200000}, func() any { return cfg.TrainText(text) }, func(r vs.Report) (string, string) {
		o := r.Result.(tr.Out)
		if o.Err != nil {
			return "training", "fails: " + o.Err.Error()
		}
		if m := shape(cfg, o, words); m != "" {
			return "shape", m
		}
		key := 0
		p := parts(cfg, o)
		for i, x := range p {
			u, at := draw(cfg, x), -1
			for j, v := range vals {
				if math.Abs(u-v) < 1e-9 {
					at = j
				}
			}
			if at < 0 {
				return "value", fmt.Sprintf("component %d is %.12g, which no draw out of %v gives: %.9g", i, x, vals, p)
			}
			key = key*len(vals) + at
		}
		got[key] += r.X.DataWeight()
		return "", ""
	})
	if k.Failed() {
		return
	}
	want := 1 / float64(total)
	for key, w := range got {
		if math.Abs(w-want) > 1e-9 {
			var p []float64
			for i, x := n-1, key; i >= 0; i-- {
				p = append([]float64{vals[x%len(vals)]}, p...)
				x /= len(vals)
			}
			k.Fail("independent", "the draws %v of the %d components have probability %.6g, but are attained with %.6g", p, n, want, w)
			return
		}
	}
	k.One(total, fmt.Sprint(cfg, words, vals))
}

// seq gives draws that all differ.
func seq(i int) float64 { return math.Mod(float64(i+1)*0.6180339887498949, 1) }

func once(k *h.K, f func() any) (any, bool) {
	r := k.Once(vs.Opts{MaxSteps: 100000000}, f)
	if b := h.Bad(r); b != "" {
		k.Fail("training", "%s", b)
		return nil, false
	}
	return r.Result, true
}

// check finds the draws of all components: each is one of draws first..last-1 and is used once.
func check(cfg tr.Cfg, o tr.Out, used map[int64]string, drawn map[int64]int, first int, what string) string {
	for i, x := range parts(cfg, o) {
		u := draw(cfg, x)
		key := int64(math.Round(u * 1e9))
		n, ok := -1, false
		for d := int64(-1); d <= 1 && !ok; d++ {
			if n, ok = drawn[key+d]; ok {
				key += d
			}
		}
		name := fmt.Sprintf("component %d of %s", i, what)
		if !ok {
			return fmt.Sprintf("%s is %.12g, which none of the %d draws gives", name, x, len(drawn))
		}
		if n < first {
			return fmt.Sprintf("%s is %.12g, which comes from draw %d, made before this training", name, x, n)
		}
		if other, in := used[key]; in {
			return fmt.Sprintf("%s is %.12g, which comes from the same draw as %s", name, x, other)
		}
		used[key] = name
	}
	return ""
}

func own(k *h.K, cfg tr.Cfg, text string, words int) {
	drawn := map[int64]int{}
	var o tr.Out
	for pass := 0; pass < 2; pass++ {
		n := 0
		if pass == 0 {
			vrand.Float64Hook = func() (float64, bool) {
				u := seq(n)
				drawn[int64(math.Round(u*1e9))] = n
				n++
				return u, true
			}
		}
		res, ok := once(k, func() any { return cfg.TrainText(text) })
		vrand.Float64Hook = nil
		if !ok {
			return
		}
		o = res.(tr.Out)
		if o.Err != nil {
			k.Fail("training", "fails: %v", o.Err)
			return
		}
		if m := shape(cfg, o, words); m != "" {
			k.Fail("shape", "%s", m)
			return
		}
		if pass == 0 {
			if m := check(cfg, o, map[int64]string{}, drawn, 0, "the vectors"); m != "" {
				k.Fail("own", "%s", m)
				return
			}
		} else if m := differ(cfg, []tr.Out{o}); m != "" {
			k.Fail("own", "%s", m)
			return
		}
	}
	k.One(2, fmt.Sprint(cfg, words))
}

// large checks that no draw is used twice: draw i is the fraction whose 32 bits are those of i in reverse.
func large(k *h.K, cfg tr.Cfg, text string, words int) {
	n := uint32(0)
	vrand.Float64Hook = func() (float64, bool) {
		n++
		return float64(bits.Reverse32(n-1)) / (1 << 32), true
	}
	res, ok := once(k, func() any { return cfg.TrainText(text) })
	vrand.Float64Hook = nil
	if !ok {
		return
	}
	o := res.(tr.Out)
	if o.Err != nil {
		k.Fail("training", "fails: %v", o.Err)
		return
	}
	if m := shape(cfg, o, words); m != "" {
		k.Fail("shape", "%s", m)
		return
	}
	used := make([]int32, n)
	for part, rows := range [][][]float64{o.Single, o.Ctx()} {
		if part == 1 && noCtx(cfg) {
			break
		}
		for i, row := range rows {
			for j, x := range row {
				u := draw(cfg, x) * (1 << 32)
				r := math.Round(u)
				d := n
				if math.Abs(u-r) < 0.01 && r >= 0 && r < 1<<32 {
					d = bits.Reverse32(uint32(r))
				}
				if d >= n {
					k.Fail("own", "component %d of word %d (part %d) is %.12g, which none of the %d draws gives", j, i, part, x, n)
					return
				}
				if used[d] != 0 {
					k.Fail("own", "component %d of word %d (part %d) is %.12g, which comes from the same draw as a component of word %d", j, i, part, x, used[d]-1)
					return
				}
				used[d] = int32(i) + 1
			}
		}
	}
	k.One(1, fmt.Sprint(cfg, words))
}

// differ: values of the plain random stream are in range and no two are equal.
func differ(cfg tr.Cfg, outs []tr.Out) string {
	seen := map[float64]string{}
	for t, o := range outs {
		for i, x := range parts(cfg, o) {
			u := draw(cfg, x)
			if !(u >= -1e-9 && u <= 1+1e-9) {
				return fmt.Sprintf("component %d of training %d is %.12g, outside of its range", i, t, x)
			}
			u = math.Round(u * 1e13)
			name := fmt.Sprintf("component %d of training %d", i, t)
			if other, in := seen[u]; in {
				return fmt.Sprintf("%s is %.12g, and so is %s", name, x, other)
			}
			seen[u] = name
		}
	}
	return ""
}

func history(k *h.K, cfg tr.Cfg, texts []string, q []int) {
	for pass := 0; pass < 2; pass++ {
		drawn, n := map[int64]int{}, 0
		if pass == 0 {
			vrand.Float64Hook = func() (float64, bool) {
				u := seq(n)
				drawn[int64(math.Round(u*1e9))] = n
				n++
				return u, true
			}
		}
		_, ok := once(k, func() any {
			used := map[int64]string{}
			var models [2]model.Model
			var outs []tr.Out
			for i, x := range q {
				m := &models[x/len(texts)]
				text := texts[x%len(texts)]
				if *m == nil {
					nm, err := cfg.New()
					if err != nil {
						k.Fail("training", "%v", err)
						return nil
					}
					*m = nm
				}
				first := n
				if err := (*m).Train(strings.NewReader(text)); err != nil {
					k.Fail("training", "%v", err)
					return nil
				}
				if x%len(texts)%3 == 0 {
					continue // trained on
				}
				o := tr.Read(*m)
				if msg := shape(cfg, o, len(strings.Fields(text))); msg != "" {
					k.Fail("shape", "after training %d: %s", i, msg)
					return nil
				}
				if pass == 0 {
					if msg := check(cfg, o, used, drawn, first, fmt.Sprintf("training %d", i)); msg != "" {
						k.Fail("fresh", "%s", msg)
						return nil
					}
				} else {
					outs = append(outs, o)
				}
			}
			if msg := differ(cfg, outs); msg != "" {
				k.Fail("fresh", "%s", msg)
			}
			return nil
		})
		vrand.Float64Hook = nil
		if !ok || k.Failed() {
			return
		}
	}
	k.One(len(q), fmt.Sprint(cfg, q))
}
