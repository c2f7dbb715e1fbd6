//go:build go1.22

// C20: model instances are independent and retraining starts afresh.
package main

import (
	"fmt"
	"strings"

	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/verifrt/cp"
	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
	"github.com/ynqa/wego/verifrt/tr"
	"github.com/ynqa/wego/verifrt/vrand"
	"github.com/ynqa/wego/verifrt/vs"
)

// Every training draws the same values: each goroutine has its own count, which starts with the training.
var inits, draws map[int]int

func hooks() func() {
	inits, draws = map[int]int{}, map[int]int{}
	vrand.Float64Hook = func() (float64, bool) {
		t := vs.Thread()
		inits[t]++
		return float64((inits[t]*37)%101) / 101, true
	}
	f := func(n int) (int, bool) {
		// the trainings of one body run one after the other where random draws are used.
		draws[0]++
		return (draws[0]*7 + draws[0]/3) % n, true
	}
	vs.DrawHook, vrand.IntnHook = f, f
	return func() { vrand.Float64Hook, vs.DrawHook, vrand.IntnHook = nil, nil, nil }
}

func restart() {
	inits[vs.Thread()] = 0
	draws[0] = 0
}

func train(m model.Model, text string) tr.Out {
	restart()
	if err := m.Train(strings.NewReader(text)); err != nil {
		return tr.Out{Err: err, M: m}
	}
	return tr.Read(m)
}

func fresh(cfg tr.Cfg, text string) tr.Out {
	m, err := cfg.New()
	if err != nil {
		return tr.Out{Err: err}
	}
	return train(m, text)
}

type variant struct {
	name  string
	f     func(*tr.Cfg)
	draws bool // uses random draws or rates that depend on the schedule
}

var variants = []variant{
	{"skipgram", func(c *tr.Cfg) {}, false},
	{"cbow", func(c *tr.Cfg) { c.Arch = "cbow"; c.Dim = 3 }, false},
	{"hs", func(c *tr.Cfg) { c.Opt = "hs"; c.Mem = false; c.Batch = 100 }, false},
	{"hs depth 1", func(c *tr.Cfg) { c.Opt = "hs"; c.Depth = 2 }, false},
	{"lexvec", func(c *tr.Cfg) { c.Model = "lexvec" }, false},
	{"lexvec ppmi", func(c *tr.Cfg) { c.Model, c.Rel, c.Mem, c.Batch = "lexvec", "ppmi", false, 100 }, false},
	{"glove", func(c *tr.Cfg) { c.Model = "glove" }, false},
	{"glove adagrad", func(c *tr.Cfg) { c.Model, c.Solver, c.Dim, c.Count = "glove", "adagrad", 1, "prox" }, false},
	{"skipgram limits", func(c *tr.Cfg) { c.Min, c.Max, c.Lower = 2, 3, true }, false},
	{"skipgram decay", func(c *tr.Cfg) { c.ULR, c.MinLR, c.Iter = 1, 0.01, 2 }, true},
	{"cbow negatives", func(c *tr.Cfg) { c.Arch, c.Neg, c.Window = "cbow", 2, 2 }, true},
	{"lexvec decay, negatives", func(c *tr.Cfg) { c.Model, c.ULR, c.MinLR, c.Neg = "lexvec", 2, 0.01, 1 }, true},
}

// last is a variant in which the rate is lowered by the last token only.
func last(cfg tr.Cfg, text string) tr.Cfg {
	cfg.MinLR, cfg.ULR = 0.01, len(ref.Words(text, cfg.Lower))
	return cfg
}

func cfgOf(v variant) tr.Cfg {
	c := tr.Base("w2v")
	v.f(&c)
	return c
}

type op struct {
	name  string
	model int
	text  string
	kind  int // 0 train, 1 failing source, 2 save, 3 the reader of the training before
}

func main() {
	h.Main(func(c *h.C) {
		texts := []string{"a b a c", "c b b a", "B a b a b d a", ""}
		depth := 3
		if c.Thorough {
			depth = 5
		}
		for i, va := range variants {
			for j, vb := range variants {
				for _, decay := range []bool{false, true} {
					a, b := cfgOf(va), cfgOf(vb)
					if decay {
						if va.draws || vb.draws || a.Model == "glove" || i != j && i > 2 {
							continue
						}
						a, b = last(a, texts[0]), last(b, texts[0])
						if a.Min > 0 {
							continue
						}
					}
					exact := !va.draws && !vb.draws
					c.Case(func() string { return fmt.Sprintf("histories: A=%v B=%v", a, b) }, func(k *h.K) {
						n := depth
						if i > j && !c.Thorough {
							n--
						}
						ops := []op{{"A.train(1)", 0, texts[0], 0}, {"A.train(2)", 0, texts[1], 0}, {"A.train(3)", 0, texts[2], 0}, {"A.train(failing source)", 0, texts[2], 1}, {"B.train(1)", 1, texts[0], 0}, {"A.save", 0, "", 2}, {"A.train(same source again)", 0, "", 3}}
						if i == j {
							ops = append(ops, op{"A.train(empty)", 0, texts[3], 0})
						}
						histories(k, [2]tr.Cfg{a, b}, ops, n, exact && !decay)
					})
				}
			}
		}
		// at the same time.
		dep := func(n int) vs.Opts { return vs.Opts{MaxPreempt: n, Deviate: true, NumPoints: true, Cache: true} }
		pre := func(n int) vs.Opts { return vs.Opts{MaxPreempt: n, NumPoints: true, Cache: true} }
		for i, va := range variants {
			for j, vb := range variants[:i+1] {
				if va.draws || vb.draws {
					continue
				}
				for _, text := range [][2]string{{"a b", "a b"}, {"a b a", "b c"}, {"a b a c", "c a b b"}} {
					for _, o := range []vs.Opts{dep(1), dep(2), pre(1)} {
						if c.Thorough {
							o.MaxPreempt++
						} else if o.MaxPreempt == 2 && (text[0] != "a b a" || i != j) || !o.Deviate && (text[0] != "a b" || i != j) {
							continue
						}
						a, b := cfgOf(va), cfgOf(vb)
						c.Case(func() string {
							return fmt.Sprintf("at the same time: A=%v text=%s B=%v text=%s departures<=%d", a, text[0], b, text[1], o.MaxPreempt)
						}, func(k *h.K) { together(k, [2]tr.Cfg{a, b}, text, o, false) })
						if i == j && o.Deviate {
							c.Case(func() string {
								return fmt.Sprintf("saving A=%v text=%s while B trains on %s departures<=%d", a, text[0], text[1], o.MaxPreempt)
							}, func(k *h.K) { together(k, [2]tr.Cfg{a, b}, text, o, true) })
						}
					}
				}
			}
		}
	})
}

func equal(a, b tr.Out) bool {
	if (a.Err == nil) != (b.Err == nil) {
		return false
	}
	if a.Err != nil {
		return true
	}
	x, y := a.Flat(), b.Flat()
	if len(x) != len(y) || len(a.Single) != len(b.Single) {
		return false
	}
	return ref.NearAll(x, y)
}

func show(o tr.Out) string {
	if o.Err != nil {
		return "error " + o.Err.Error()
	}
	return tr.Show(o.Single) + " / " + tr.Show(o.Agg)
}

func histories(k *h.K, cfg [2]tr.Cfg, ops []op, depth int, exact bool) {
	want := map[string]tr.Out{}
	key := func(m int, text string) string { return fmt.Sprint(m, text) }
	steady := true
	r := k.Once(vs.Opts{MaxSteps: 5000000}, func() any {
		defer hooks()()
		for _, o := range ops {
			if o.kind == 0 {
				a, b := fresh(cfg[o.model], o.text), fresh(cfg[o.model], o.text)
				want[key(o.model, o.text)] = a
				if !equal(a, b) {
					steady = false
					if exact {
						k.Fail("fresh", "two new models with %v trained on %q give %s and %s", cfg[o.model], o.text, show(a), show(b))
					}
				}
			}
		}
		return nil
	})
	if b := h.Bad(r); b != "" {
		k.Fail("training", "%s", b)
		return
	}
	if k.Failed() {
		return
	}
	if !steady {
		k.Note("cases left out: draws or rates do not pass the seam", 1)
		k.NotExhaustive()
		return
	}
	var hist []string
	run := func(seq []op) (fail string) {
		hist = nil
		var ms [2]model.Model
		var text [2]string
		var src [2]*cp.Reader
		var good [2]bool
		for i := range ms {
			m, err := cfg[i].New()
			if err != nil {
				return "creating the model fails: " + err.Error()
			}
			ms[i] = m
		}
		for _, o := range seq {
			hist = append(hist, o.name)
			m := ms[o.model]
			switch o.kind {
			case 0, 3:
				if o.kind == 3 {
					if !good[o.model] {
						return ""
					}
				} else {
					text[o.model] = o.text
					src[o.model] = &cp.Reader{S: o.text}
				}
				restart()
				err := m.Train(src[o.model])
				w := want[key(o.model, text[o.model])]
				if (err != nil) != (w.Err != nil) {
					return fmt.Sprintf("training gives the error %v, with a new model %v", err, w.Err)
				}
				good[o.model] = err == nil
			case 1:
				restart()
				m.Train(&cp.Reader{S: o.text, FailRead: 2, One: true})
				good[o.model] = false
			case 2:
				if !good[o.model] {
					return ""
				}
				var b strings.Builder
				m.Save(&b, "agg")
			}
			for i := range ms {
				if !good[i] {
					continue
				}
				got, w := tr.Read(ms[i]), want[key(i, text[i])]
				if !equal(got, w) {
					return fmt.Sprintf("model %c has %s, a new model trained on %q has %s", 'A'+i, show(got), text[i], show(w))
				}
			}
		}
		return ""
	}
	ref.Seqs(len(ops), depth, func(q []int) {
		if k.Failed() || len(q) == 0 {
			return
		}
		var seq []op
		for _, i := range q {
			seq = append(seq, ops[i])
		}
		r := k.Once(vs.Opts{MaxSteps: 5000000}, func() any {
			defer hooks()()
			return run(seq)
		})
		if b := h.Bad(r); b != "" {
			k.Fail("training", "after %s: %s", strings.Join(hist, ", "), b)
			return
		}
		if msg := r.Result.(string); msg != "" {
			k.Fail("history", "after %s: %s", strings.Join(hist, ", "), msg)
			return
		}
		k.One(len(q), strings.Join(hist, ",")+fmt.Sprint(cfg))
	})
}

// together trains two models at the same time (or saves one while the other trains).
func together(k *h.K, cfg [2]tr.Cfg, text [2]string, o vs.Opts, save bool) {
	var want [2]tr.Out
	var saved string
	put := func(m model.Model) string {
		var b strings.Builder
		if err := m.Save(&b, "agg"); err != nil {
			return "error: " + err.Error()
		}
		return b.String()
	}
	r := k.Once(vs.Opts{}, func() any {
		defer hooks()()
		for i := range want {
			want[i] = fresh(cfg[i], text[i])
			if want[i].Err != nil {
				k.Fail("training", "fails: %v", want[i].Err)
				return nil
			}
		}
		saved = put(want[0].M)
		return nil
	})
	if b := h.Bad(r); b != "" {
		k.Fail("training", "%s", b)
	}
	if k.Failed() {
		return
	}
	k.Explore(o, func() any {
		defer hooks()()
		var first tr.Out
		if save {
			first = fresh(cfg[0], text[0])
			if first.Err != nil {
				return "training fails: " + first.Err.Error()
			}
		}
		var got [2]tr.Out
		var again string
		done := make(chan int, 2)
		for i := range cfg {
			i := i
			vs.Go(func() {
				if save && i == 0 {
					again = put(first.M)
				} else {
					got[i] = fresh(cfg[i], text[i])
				}
				vs.C(done).Send(i)
			}, "train")
		}
		for range cfg {
			vs.Recv(done)
		}
		if save {
			got[0] = tr.Read(first.M)
			if again != saved {
				return fmt.Sprintf("saving gives\n%salone it gives\n%s", again, saved)
			}
		}
		for i := range cfg {
			if !equal(got[i], want[i]) {
				return fmt.Sprintf("model %c has %s, alone it has %s", 'A'+i, show(got[i]), show(want[i]))
			}
		}
		return ""
	}, func(r vs.Report) (string, string) {
		for x := range r.X.Races {
			if !x.Numeric {
				return "race", fmt.Sprintf("unsynchronised concurrent accesses to something else than a number: %s / %s", x.A, x.B)
			}
		}
		if msg := r.Result.(string); msg != "" {
			return "together", msg
		}
		return "", ""
	})
}
