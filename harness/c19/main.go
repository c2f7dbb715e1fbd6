//go:build go1.22

// C19: exported vectors honour the requested type for every word.
package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"strings"

	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/modelutil/matrix"
	"github.com/ynqa/wego/verifrt/cp"
	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
	"github.com/ynqa/wego/verifrt/tr"
	"github.com/ynqa/wego/verifrt/vs"
)

func initial(i int) float64 { return 0.5 + math.Mod(float64(i+1)*0.6180339887498949, 1)/2 }

func noDraw(n int) int { return 0 }

type failing struct{ n int }

func (f *failing) Write(p []byte) (int, error) { return 0, cp.ErrFault }

var opNames = []string{"vectors(single)", "vectors(agg)", "save(single)", "save(agg)", "save(unknown type)", "save(to a failing destination)", "write into the last export"}

var unknown = []string{"", "Single", "AGG", "agg ", "singl", "both", "single,agg", "ctx"}

func main() {
	h.Main(func(c *h.C) {
		variants := []func(*tr.Cfg){
			func(c *tr.Cfg) { c.Model = "w2v" },
			func(c *tr.Cfg) { c.Model, c.Arch = "w2v", "cbow" },
			func(c *tr.Cfg) { c.Model, c.Opt = "w2v", "hs" },
			func(c *tr.Cfg) { c.Model, c.Opt, c.Arch, c.Depth = "w2v", "hs", "cbow", 2 },
			func(c *tr.Cfg) { c.Model = "lexvec" },
			func(c *tr.Cfg) { c.Model = "glove" },
			func(c *tr.Cfg) { c.Model, c.Solver = "glove", "adagrad" },
		}
		run := func(cfg tr.Cfg, text string, long bool) {
			c.Case(func() string { return fmt.Sprintf("%v text=%s", cfg, clip(text)) }, func(k *h.K) {
				initials(k, cfg, text)
				if !k.Failed() {
					trained(k, cfg, text)
				}
				if !k.Failed() {
					n := 1
					if long {
						n = 3
						if c.Thorough {
							n = 5
						}
					}
					histories(k, cfg, text, n)
				}
			})
		}
		n := 4
		if c.Thorough {
			n = 6
		}
		// large matrices: every row is storage of its own.
		mats := [][2]int{{1, 1 << 25}, {1 << 25, 1}, {5800, 5800}, {84000, 400}, {300, 70000}}
		if c.Thorough {
			mats = append(mats, [2]int{1 << 28, 1}, [2]int{40000, 6800}, [2]int{2, 1 << 28})
		}
		for _, m := range mats {
			c.Case(func() string { return fmt.Sprintf("a matrix of %d rows and %d columns", m[0], m[1]) }, func(k *h.K) {
				calls := 0
				mat := matrix.New(m[0], m[1], func(i int, row []float64) {
					calls++
					for j := range row {
						row[j] = float64(i*m[1] + j)
					}
				})
				if calls != m[0] || mat.Row() != m[0] || mat.Col() != m[1] {
					k.Fail("matrix", "a matrix of %d rows and %d columns has %d and %d, %d rows are filled", m[0], m[1], mat.Row(), mat.Col(), calls)
					return
				}
				for i := 0; i < m[0]; i++ {
					row := mat.Slice(i)
					if len(row) != m[1] {
						k.Fail("matrix", "row %d has %d columns, want %d", i, len(row), m[1])
						return
					}
					for j, x := range row {
						if x != float64(i*m[1]+j) {
							k.Fail("matrix", "row %d column %d holds the value of row %d column %d", i, j, int(x)/m[1], int(x)%m[1])
							return
						}
					}
				}
				k.One(m[0], fmt.Sprint(m))
			})
		}
		for _, v := range variants {
			base := tr.Base("w2v")
			v(&base)
			// small texts, every one.
			for l := 0; l <= n; l++ {
				ref.Canonical(l, 4, func(q []int) {
					for dim := 1; dim <= 3; dim++ {
						for _, mem := range []bool{true, false} {
							cfg := base
							cfg.Dim, cfg.Mem, cfg.Batch = dim, mem, 100
							run(cfg, ref.Text(q), l == 3 && dim < 3)
						}
					}
				})
			}
			// exports and saves at the same time.
			cfg := base
			for a := 0; a < 5; a++ {
				for b := a; b < 5; b++ {
					concurrent(c, cfg, "a b a", []int{a, b})
					concurrent(c, cfg, "a b a", []int{a, b, 3})
				}
			}
			// limits, lower case, iterations, workers.
			for _, text := range []string{"x a x b x c x d x", "A a B b a C", "d c b a a b b"} {
				for _, lim := range [][2]int{{-1, -1}, {2, -1}, {-1, 2}, {3, 3}} {
					for iter := 0; iter <= 2; iter++ {
						for _, lower := range []bool{false, true} {
							cfg := base
							cfg.Min, cfg.Max, cfg.Iter, cfg.Lower, cfg.Dim = lim[0], lim[1], iter, lower, 3
							run(cfg, text, iter == 1)
						}
					}
				}
			}
			for _, s := range [][2]int{{1000, 3}, {1024, 2}, {1025, 2}, {4097, 1}, {20000, 2}, {70000, 1}, {3, 255}, {2, 256}, {2, 257}, {3, 300}, {1, 1025}, {2, 5000}} {
				var q []int
				for i := 0; i < s[0]; i++ {
					q = append(q, i)
				}
				cfg := base
				cfg.Dim = s[1]
				run(cfg, ref.Text(q), false)
			}
			// larger vocabularies and dimensions.
			for _, words := range []int{1, 5, 16, 17, 63, 64, 65, 130, 300} {
				var q []int
				for i := 0; i < words; i++ {
					q = append(q, i)
				}
				for _, dim := range []int{1, 2, 7, 8, 15, 16, 17, 50, 100, 101} {
					if words > 70 && dim > 20 && words*dim > 7000 {
						continue
					}
					cfg := base
					cfg.Dim = dim
					run(cfg, ref.Text(q), false)
				}
			}
		}
	})
}

func clip(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%s... (%d words)", s[:50], len(strings.Fields(s)))
	}
	return s
}

// shape checks the size of what is exported.
func shape(k *h.K, rows [][]float64, vocab, dim int, what string) bool {
	if len(rows) != vocab {
		k.Fail("shape", "%s has %d rows for %d words", what, len(rows), vocab)
		return false
	}
	for i, r := range rows {
		if len(r) != dim {
			k.Fail("shape", "row %d of %s has %d components, the dimension is %d", i, what, len(r), dim)
			return false
		}
	}
	return true
}

// initials: without iterations every component of every vector is an initial value of its own.
func initials(k *h.K, cfg tr.Cfg, text string) {
	cfg.Iter = 0
	rc := cfg.Corpus(text)
	out, ok := once(k, cfg, text)
	if !ok || !shape(k, out.Single, len(rc.Dic), cfg.Dim, "single") || !shape(k, out.Agg, len(rc.Dic), cfg.Dim, "agg") {
		return
	}
	k.One(2, fmt.Sprint(cfg, text))
	if cfg.Model == "w2v" && cfg.Opt == "hs" {
		for i, r := range out.Single {
			for j := range r {
				if r[j] != out.Agg[i][j] {
					k.Fail("agg", "hierarchical softmax: component %d of word %d is %.9g in single and %.9g in agg", j, i, r[j], out.Agg[i][j])
					return
				}
			}
		}
	}
	ctx := out.Ctx()
	type cell struct {
		ctx  bool
		i, j int
	}
	seen := map[int64]cell{}
	for part, rows := range [][][]float64{out.Single, ctx} {
		if part == 1 && cfg.Model == "w2v" && cfg.Opt == "hs" {
			continue
		}
		for i, r := range rows {
			for j, x := range r {
				key := int64(math.Round(x * 1e11))
				if o, in := seen[key]; in {
					k.Fail("own", "before the first iteration component %d of the %s vector of word %d equals component %d of the %s vector of word %d (%.12g), although all initial draws differ", j, name(part == 1), i, o.j, name(o.ctx), o.i, x)
					return
				}
				seen[key] = cell{part == 1, i, j}
			}
		}
	}
}

func name(ctx bool) string {
	if ctx {
		return "context (agg minus single)"
	}
	return "own"
}

func once(k *h.K, cfg tr.Cfg, text string) (tr.Out, bool) {
	r := k.Once(vs.Opts{MaxSteps: 50000000, NoMem: true}, func() any {
		defer tr.FixedInit(initial)()
		return cfg.TrainText(text)
	})
	if b := h.Bad(r); b != "" {
		k.Fail("training", "%s", b)
		return tr.Out{}, false
	}
	out := r.Result.(tr.Out)
	if out.Err != nil {
		k.Fail("training", "fails: %v", out.Err)
		return out, false
	}
	return out, true
}

// trained: the exported vectors are the ones that training works on.
func trained(k *h.K, cfg tr.Cfg, text string) {
	rc := cfg.Corpus(text)
	t := rc.Tokens()
	if cfg.Model == "glove" || len(t) == 0 || len(t) > 70 || cfg.Iter == 0 {
		return // (C12)
	}
	zero := cfg
	zero.Iter = 0
	before, ok := once(k, zero, text)
	if !ok {
		return
	}
	p := cfg.Init(before, rc)
	rule := cfg.Rules(rc)[0]
	for it := 0; it < cfg.Iter; it++ {
		for pos := range t {
			rule.Token(p, t, pos, noDraw, func() float64 { return cfg.LR })
		}
	}
	want := cfg.Final(p, len(rc.Dic))
	out, ok := once(k, cfg, text)
	if !ok || !shape(k, out.Single, len(rc.Dic), cfg.Dim, "single") || !shape(k, out.Agg, len(rc.Dic), cfg.Dim, "agg") {
		return
	}
	got := out.Flat()
	if !ref.NearAll(want, got) {
		for i := range want {
			if !ref.NearAll(want[i:i+1], got[i:i+1]) {
				typ, at := "single", i
				if n := len(rc.Dic) * cfg.Dim; i >= n {
					typ, at = "agg", i-n
				}
				k.Fail("trained", "component %d of word %d (%s) is %.9g in %s, but its trained value is %.9g", at%cfg.Dim, at/cfg.Dim, rc.Dic[at/cfg.Dim], got[i], typ, want[i])
				return
			}
		}
	}
	k.Traces(1)
}

type result struct {
	what string
	rows [][]float64
	text string
	err  error
}

// slow is a destination that lets others go on while it is written to.
type slow struct{ bytes.Buffer }

func (s *slow) Write(p []byte) (int, error) {
	vs.Yield()
	n, err := s.Buffer.Write(p)
	vs.Yield()
	return n, err
}

// concurrent: exports and saves of one model by several goroutines give what each gives alone.
func concurrent(c *h.C, cfg tr.Cfg, text string, ops []int) {
	c.Case(func() string {
		var names []string
		for _, o := range ops {
			names = append(names, opNames[o])
		}
		return fmt.Sprintf("%v text=%s: at the same time %s", cfg, text, strings.Join(names, ", "))
	}, func(k *h.K) {
		do := func(m model.Model, op int) string {
			switch op {
			case 0:
				return tr.Show(tr.Rows(m.WordVector("single")))
			case 1:
				return tr.Show(tr.Rows(m.WordVector("agg")))
			}
			var b slow
			err := m.Save(&b, []string{"single", "agg", "both"}[op-2])
			return fmt.Sprintf("%s, error %v", b.String(), err != nil)
		}
		res, ok := once(k, cfg, text)
		if !ok {
			return
		}
		m := res.M
		type result struct{ got, later []string }
		k.Explore(vs.Opts{MaxPreempt: -1, Cache: true, NumPoints: true}, func() any {
			res := &result{}
			done := make(chan int, len(ops))
			res.got = make([]string, len(ops))
			for t, op := range ops {
				t, op := t, op
				vs.Go(func() {
					res.got[t] = do(m, op)
					vs.C(done).Send(t)
				}, opNames[op])
			}
			for range ops {
				vs.Recv(done)
			}
			for _, op := range ops {
				res.later = append(res.later, do(m, op))
			}
			return res
		}, func(r vs.Report) (string, string) {
			res := r.Result.(*result)
			for t, op := range ops {
				if res.got[t] != res.later[t] {
					return "concurrent", fmt.Sprintf("%s gives %s, later alone %s", opNames[op], res.got[t], res.later[t])
				}
			}
			for rc := range r.X.Races {
				return "race", "concurrent exports access the same memory, one of them writing: " + rc.A + " / " + rc.B
			}
			return "", ""
		})
	})
}

// histories: no export or save changes what later ones give.
func histories(k *h.K, cfg tr.Cfg, text string, n int) {
	rc := cfg.Corpus(text)
	base, ok := once(k, cfg, text)
	if !ok {
		return
	}
	format := func(rows [][]float64) string {
		var b strings.Builder
		for i, r := range rows {
			b.WriteString(rc.Dic[i])
			for _, x := range r {
				fmt.Fprintf(&b, " %f", x)
			}
			b.WriteString("\n")
		}
		return b.String()
	}
	wantSingle, wantAgg := format(base.Single), format(base.Agg)
	norm := func(s string) string {
		var b strings.Builder
		for _, l := range strings.SplitAfter(s, "\n") {
			f := strings.TrimSuffix(l, "\n")
			b.WriteString(strings.TrimRight(f, " "))
			if f != l {
				b.WriteString("\n")
			}
		}
		return b.String()
	}
	// one model for all histories: they must not change it. A history that fails is reported with the
	// operations so far.
	var m model.Model
	r := k.Once(vs.Opts{MaxSteps: 50000000, NoMem: true}, func() any {
		defer tr.FixedInit(initial)()
		out := cfg.TrainText(text)
		m = out.M
		return out
	})
	if b := h.Bad(r); b != "" {
		k.Fail("training", "%s", b)
		return
	}
	ops := 0
	var hist []int
	same := func(got, want [][]float64) bool {
		if len(got) != len(want) {
			return false
		}
		for i := range got {
			if len(got[i]) != len(want[i]) {
				return false
			}
			for j := range got[i] {
				if got[i][j] != want[i][j] && !(math.IsNaN(got[i][j]) && math.IsNaN(want[i][j])) {
					return false
				}
			}
		}
		return true
	}
	do := func(op int) (msg string) {
		ops++
		save := func(typ string) (string, error) {
			var b bytes.Buffer
			err := m.Save(&b, typ)
			return b.String(), err
		}
		switch op {
		case 0, 1:
			typ, want := "single", base.Single
			if op == 1 {
				typ, want = "agg", base.Agg
			}
			if got := tr.Rows(m.WordVector(typ)); !same(got, want) {
				return fmt.Sprintf("the %s vectors are %s, at first they were %s", typ, tr.Show(got), tr.Show(want))
			}
		case 2, 3:
			typ, want := "single", wantSingle
			if op == 3 {
				typ, want = "agg", wantAgg
			}
			s, err := save(typ)
			if err != nil {
				return fmt.Sprintf("saving the %s vectors fails: %v", typ, err)
			}
			if norm(s) != want {
				return fmt.Sprintf("the saved %s vectors are\n%swant\n%s", typ, s, want)
			}
		case 4:
			for _, typ := range unknown {
				if s, err := save(typ); err == nil {
					return fmt.Sprintf("saving with the vector type %q succeeds and gives %q", typ, cp.Clip(s))
				}
			}
		case 5:
			for _, typ := range []string{"single", "agg"} {
				m.Save(&failing{}, typ) // (C24)
				m.Save(io.Discard, typ)
			}
		case 6:
			for _, typ := range []string{"single", "agg"} {
				mat := m.WordVector(typ)
				for i := 0; i < mat.Row(); i++ {
					for j := range mat.Slice(i) {
						mat.Slice(i)[j] = 99
					}
				}
			}
		}
		return ""
	}
	step := func(op int) bool {
		if msg := do(op); msg != "" {
			var names []string
			for _, o := range hist {
				names = append(names, opNames[o])
			}
			k.Fail("history", "after %s: %s", strings.Join(names, ", "), msg)
			return false
		}
		return true
	}
	r = k.Once(vs.Opts{MaxSteps: 50000000, NoMem: true}, func() any {
		for l := 1; l <= n; l++ {
			total := 1
			for i := 0; i < l; i++ {
				total *= len(opNames)
			}
			for x := 0; x < total; x++ {
				hist = hist[:0]
				for i, y := 0, x; i < l; i++ {
					op := y % len(opNames)
					y /= len(opNames)
					if !step(op) {
						return nil
					}
					hist = append(hist, op)
				}
				for op := 0; op < 4; op++ {
					if !step(op) {
						return nil
					}
				}
				k.One(l+4, fmt.Sprint(cfg, text, hist))
			}
		}
		return nil
	})
	if b := h.Bad(r); b != "" {
		k.Fail("export", "%s", b)
	}
}
