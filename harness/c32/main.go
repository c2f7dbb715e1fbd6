//go:build go1.22

// C32: options mean the same however they are given.
package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/spf13/cobra"

	cglove "github.com/ynqa/wego/cmd/model/glove"
	clexvec "github.com/ynqa/wego/cmd/model/lexvec"
	cword2vec "github.com/ynqa/wego/cmd/model/word2vec"
	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/glove"
	"github.com/ynqa/wego/pkg/model/lexvec"
	"github.com/ynqa/wego/pkg/model/word2vec"
	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
	"github.com/ynqa/wego/verifrt/tr"
	"github.com/ynqa/wego/verifrt/vrand"
	"github.com/ynqa/wego/verifrt/vs"
)

// choice is one option with a value, in all the ways to give it.
type choice[O any] struct {
	field string
	value any
	flags [][]string
	fn    func(*O)
}

func (c choice[O]) String() string { return fmt.Sprintf("%s=%v", c.field, c.value) }

// lib is one model.
type lib[O any, M ~func(*O)] struct {
	name    string
	def     func() O
	load    func(*cobra.Command, *O)
	create  func(...M) (model.Model, error)
	forOpts func(O) (model.Model, error)
	cmd     func() *cobra.Command
	choices []choice[O]
}

func with[O any, M ~func(*O), V any](field, flag string, f func(V) M, vals ...V) (res []choice[O]) {
	for _, v := range vals {
		c := choice[O]{field: field, value: v, flags: [][]string{{"--" + flag, fmt.Sprint(v)}, {"--" + flag + "=" + fmt.Sprint(v)}}}
		if flag == "dim" || flag == "window" {
			c.flags = append(c.flags, []string{"-" + flag[:1], fmt.Sprint(v)})
		}
		if f != nil {
			c.fn = f(v)
		}
		res = append(res, c)
	}
	return
}

func on[O any, M ~func(*O)](field, flag string, f func() M) []choice[O] {
	return []choice[O]{{field: field, value: true, flags: [][]string{{"--" + flag}, {"--" + flag + "=true"}}, fn: f()}}
}

func cat[T any](ls ...[]T) (res []T) {
	for _, l := range ls {
		res = append(res, l...)
	}
	return
}

var w2v = lib[word2vec.Options, word2vec.ModelOption]{
	"word2vec", word2vec.DefaultOptions, word2vec.LoadForCmd, word2vec.New, word2vec.NewForOptions, cword2vec.New,
	cat(
		with("BatchSize", "batch", word2vec.BatchSize, 1, 3),
		with("Dim", "dim", word2vec.Dim, 1, 4),
		on("DocInMemory", "in-memory", word2vec.DocInMemory),
		with("Goroutines", "goroutines", word2vec.Goroutines, 1, 3),
		with("Initlr", "initlr", word2vec.Initlr, 0.5, 0.0625),
		with("Iter", "iter", word2vec.Iter, 0, 1, 3),
		with("LogBatch", "log-batch", word2vec.LogBatch, 1, 2),
		with("MaxCount", "max-count", word2vec.MaxCount, 2, 6),
		with("MaxDepth", "max-depth", word2vec.MaxDepth, 0, 1),
		with("MinCount", "min-count", word2vec.MinCount, 0, 2, 7),
		with("MinLR", "min-lr", word2vec.MinLR, 0.25, 0.01),
		with("ModelType", "model", word2vec.Model, word2vec.SkipGram, word2vec.Cbow),
		with("NegativeSampleSize", "sample", word2vec.NegativeSampleSize, 0, 1),
		with("OptimizerType", "optimizer", word2vec.Optimizer, word2vec.HierarchicalSoftmax, word2vec.NegativeSampling),
		with("SubsampleThreshold", "threshold", word2vec.SubsampleThreshold, 0.0, 0.5),
		on("ToLower", "to-lower", word2vec.ToLower),
		with("UpdateLRBatch", "update-lr-batch", word2vec.UpdateLRBatch, 1, 2),
		on("Verbose", "verbose", word2vec.Verbose),
		with("Window", "window", word2vec.Window, 1, 3),
	),
}

var glv = lib[glove.Options, glove.ModelOption]{
	"glove", glove.DefaultOptions, glove.LoadForCmd, glove.New, glove.NewForOptions, cglove.New,
	cat(
		with("Alpha", "alpha", glove.Alpha, 0.5, 2),
		with("BatchSize", "batch", glove.BatchSize, 1, 3),
		with("CountType", "cnt", (func(string) glove.ModelOption)(nil), "prox", "inc"),
		with("Dim", "dim", glove.Dim, 1, 4),
		on("DocInMemory", "in-memory", glove.DocInMemory),
		with("Goroutines", "goroutines", glove.Goroutines, 1, 3),
		with("Initlr", "initlr", glove.Initlr, 0.5, 0.0625),
		with("Iter", "iter", glove.Iter, 0, 1, 3),
		with("LogBatch", "log-batch", (func(int) glove.ModelOption)(nil), 1, 2),
		with("MaxCount", "max-count", glove.MaxCount, 2, 6),
		with("MinCount", "min-count", glove.MinCount, 0, 2, 7),
		with("SolverType", "solver", glove.Solver, glove.AdaGrad, glove.Stochastic),
		with("SubsampleThreshold", "threshold", glove.SubsampleThreshold, 0.0, 0.5),
		on("ToLower", "to-lower", glove.ToLower),
		on("Verbose", "verbose", glove.Verbose),
		with("Window", "window", glove.Window, 1, 3),
		with("Xmax", "xmax", glove.Xmax, 1, 3),
	),
}

var lex = lib[lexvec.Options, lexvec.ModelOption]{
	"lexvec", lexvec.DefaultOptions, lexvec.LoadForCmd, lexvec.New, lexvec.NewForOptions, clexvec.New,
	cat(
		with("BatchSize", "batch", lexvec.BatchSize, 1, 3),
		with("Dim", "dim", lexvec.Dim, 1, 4),
		on("DocInMemory", "in-memory", lexvec.DocInMemory),
		with("Goroutines", "goroutines", lexvec.Goroutines, 1, 3),
		with("Initlr", "initlr", lexvec.Initlr, 0.5, 0.0625),
		with("Iter", "iter", lexvec.Iter, 0, 1, 3),
		with("LogBatch", "log-batch", lexvec.LogBatch, 1, 2),
		with("MaxCount", "max-count", lexvec.MaxCount, 2, 6),
		with("MinCount", "min-count", lexvec.MinCount, 0, 2, 7),
		with("MinLR", "min-lr", lexvec.MinLR, 0.25, 0.01),
		with("NegativeSampleSize", "sample", lexvec.NegativeSampleSize, 0, 1),
		with("RelationType", "rel", lexvec.Relation, lexvec.PPMI, lexvec.PMI, lexvec.Collocation, lexvec.LogCollocation),
		with("Smooth", "smooth", lexvec.Smooth, 1, 0.5),
		with("SubsampleThreshold", "threshold", lexvec.SubsampleThreshold, 0.0, 0.5),
		on("ToLower", "to-lower", lexvec.ToLower),
		with("UpdateLRBatch", "update-lr-batch", lexvec.UpdateLRBatch, 1, 2),
		on("Verbose", "verbose", lexvec.Verbose),
		with("Window", "window", lexvec.Window, 1, 3),
	),
}

var scratch string

// workers: leave the number of workers at its default.
var workers bool

func main() {
	h.Main(func(c *h.C) {
		scratch = c.Scratch
		check(c, w2v)
		check(c, glv)
		check(c, lex)
	})
}

func check[O any, M ~func(*O)](c *h.C, l lib[O, M]) {
	n := 3
	if c.Thorough {
		n = 4
	}
	// what the options are set to.
	for i := range l.choices {
		c.Case(func() string {
			return fmt.Sprintf("%s: values, up to %d options, the first %v", l.name, n, l.choices[i])
		}, func(k *h.K) {
			if i == 0 {
				l.values(k, nil)
			}
			ref.Seqs(len(l.choices), n-1, func(q []int) { l.values(k, append([]int{i}, q...)) })
		})
	}
	// the number of workers that is not given.
	c.Case(func() string { return l.name + ": effects, workers not given" }, func(k *h.K) {
		workers = true
		defer func() { workers = false }()
		for _, text := range texts {
			l.effect(k, text, nil, true)
			for i := range l.choices {
				if l.choices[i].field != "Goroutines" {
					l.effect(k, text, []int{i}, true)
				}
			}
		}
	})
	// what the options do.
	for i := range l.choices {
		c.Case(func() string { return fmt.Sprintf("%s: effects, with %v", l.name, l.choices[i]) }, func(k *h.K) {
			if i == 0 {
				for _, text := range texts {
					l.effect(k, text, nil, false)
					l.effect(k, text, nil, true)
				}
			}
			for _, text := range texts {
				l.effect(k, text, []int{i}, false)
			}
			for j := range l.choices {
				for _, text := range texts[:1] {
					l.effect(k, text, []int{i, j}, true)
				}
				if !c.Thorough {
					continue
				}
				for m := range l.choices {
					l.effect(k, texts[0], []int{i, j, m}, true)
				}
			}
		})
	}
}

func field[O any](o *O, c choice[O]) {
	f := reflect.ValueOf(o).Elem().FieldByName(c.field)
	f.Set(reflect.ValueOf(c.value).Convert(f.Type()))
}

// values compares the options that functional options and flags lead to with the fields set by hand.
func (l lib[O, M]) values(k *h.K, q []int) {
	if k.Failed() {
		return
	}
	want := l.def()
	fns := l.def()
	sdk := true
	var names []string
	ways := 1
	for _, i := range q {
		c := l.choices[i]
		names = append(names, c.String())
		field(&want, c)
		if c.fn == nil {
			sdk = false
		} else {
			c.fn(&fns)
		}
		ways = max(ways, len(c.flags))
	}
	if sdk && !reflect.DeepEqual(fns, want) {
		k.Fail("functional", "%s with the functional options %v has %+v, want %+v", l.name, names, fns, want)
		return
	}
	for w := 0; w < ways; w++ {
		var got O
		cmd := &cobra.Command{Use: "x", SilenceErrors: true, SilenceUsage: true, RunE: func(*cobra.Command, []string) error { return nil }}
		cmd.SetOut(io.Discard)
		cmd.SetErr(io.Discard)
		l.load(cmd, &got)
		args := []string{}
		for _, i := range q {
			f := l.choices[i].flags
			args = append(args, f[min(w, len(f)-1)]...)
		}
		cmd.SetArgs(args)
		if err := cmd.Execute(); err != nil {
			k.Fail("flags", "%s refuses the flags %q: %v", l.name, args, err)
			return
		}
		if !reflect.DeepEqual(got, want) {
			k.Fail("flags", "%s with the flags %q has %+v, want %+v", l.name, args, got, want)
			return
		}
		k.One(len(q), fmt.Sprint(l.name, args))
	}
}

var texts = []string{
	"A a b B a c a b a d c a b A b",
	"a b c a d a b a c b a d e a b c a b d a e b a c a b",
	"",
}

func initial(i int) float64 { return float64((i*37+11)%101) / 101 }

// hooks make initial values and random draws the same in every run.
func hooks() func() {
	stop := tr.FixedInit(initial)
	n := 0
	f := func(b int) (int, bool) {
		n++
		return (n*7 + n/3) % b, true
	}
	m := 0
	vs.DrawHook, vrand.IntnHook = f, f
	vrand.Float64Hook = func() (float64, bool) {
		if vs.Root() {
			return 0, false
		}
		m++
		return float64(m*29%31) / 31, true
	}
	return func() { stop(); vs.DrawHook, vrand.IntnHook, vrand.Float64Hook = nil, nil, nil }
}

type outcome struct {
	err   bool
	saved string
	note  string
}

func short(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

// run performs f on the default schedule, with the output of verbose mode thrown away.
func run(k *h.K, f func() outcome) (outcome, bool) {
	r := k.Once(vs.Opts{MaxSteps: 10000000}, func() any {
		h.StartCapture(scratch)
		o := f()
		vs.Quiesce()
		h.EndCapture()
		return o
	})
	os.Stdout = realOut
	if b := h.Bad(r); b != "" {
		k.Fail("run", "%s", b)
		return outcome{}, false
	}
	return r.Result.(outcome), true
}

var realOut = os.Stdout

func trainSave(m model.Model, err error, text, typ string) outcome {
	if err == nil {
		err = m.Train(strings.NewReader(text))
	}
	if err != nil {
		return outcome{err: true, note: err.Error()}
	}
	var b strings.Builder
	if err := m.Save(&b, typ); err != nil {
		return outcome{err: true, note: err.Error()}
	}
	return outcome{saved: b.String()}
}

// effect compares the vectors that result from the same options given in every way; small starts from a
// configuration with few words and one worker.
func (l lib[O, M]) effect(k *h.K, text string, q []int, small bool) {
	if k.Failed() {
		return
	}
	var cs []choice[O]
	if small {
		for _, c := range l.choices {
			if v := fmt.Sprint(c); v == "MinCount=0" || v == "Goroutines=1" && !workers || v == "Iter=1" || v == "Dim=4" || v == "Window=1" || v == "Initlr=0.5" {
				cs = append(cs, c)
			}
		}
	}
	for _, i := range q {
		cs = append(cs, l.choices[i])
	}
	opts := l.def()
	sdk := true
	var fns []M
	var args []string
	for _, c := range cs {
		field(&opts, c)
		if c.fn == nil {
			sdk = false
		} else {
			fns = append(fns, M(c.fn))
		}
		args = append(args, c.flags[len(args)%2]...)
	}
	for _, typ := range []string{"single", "agg"} {
		want, ok := run(k, func() outcome {
			defer hooks()()
			m, err := l.forOpts(opts)
			return trainSave(m, err, text, typ)
		})
		if !ok {
			return
		}
		if sdk {
			got, ok := run(k, func() outcome {
				defer hooks()()
				m, err := l.create(fns...)
				return trainSave(m, err, text, typ)
			})
			if !ok {
				return
			}
			if got.err != want.err || got.saved != want.saved {
				k.Fail("functional", "%s %s on %q: with functional options %v the result is %q %s, with the fields set %q %s", l.name, typ, text, cs, short(got.saved), got.note, short(want.saved), want.note)
				return
			}
		}
		in, out := filepath.Join(scratch, "in.txt"), filepath.Join(scratch, "out.txt")
		os.Remove(out)
		os.WriteFile(in, []byte(text), 0o644)
		for _, first := range []bool{true, false} {
			got, ok := run(k, func() outcome {
				defer hooks()()
				os.Remove(out)
				cmd := l.cmd()
				cmd.SilenceUsage, cmd.SilenceErrors = true, true
				cmd.SetOut(io.Discard)
				cmd.SetErr(io.Discard)
				files := []string{"-i", in, "-o", out, "--vec-type", typ}
				if first {
					cmd.SetArgs(append(files, args...))
				} else {
					cmd.SetArgs(append(append([]string{}, args...), "--input="+in, "--output="+out, "--vec-type="+typ))
				}
				if err := cmd.Execute(); err != nil {
					return outcome{err: true, note: err.Error()}
				}
				b, err := os.ReadFile(out)
				if err != nil {
					return outcome{err: true, note: err.Error()}
				}
				return outcome{saved: string(b)}
			})
			if !ok {
				return
			}
			if got.err != want.err || got.saved != want.saved {
				k.Fail("command", "%s %s on %q: the command with %q gives %q %s, the model with the same options %q %s", l.name, typ, text, args, short(got.saved), got.note, short(want.saved), want.note)
				return
			}
			if len(q) > 0 && first {
				break
			}
		}
		k.Outcome(l.name + want.saved)
		k.Traces(1)
	}
}
