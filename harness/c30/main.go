//go:build go1.22

// C30: progress reporting never affects results and counts all work.
package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
	"github.com/ynqa/wego/verifrt/tr"
	"github.com/ynqa/wego/verifrt/vrand"
	"github.com/ynqa/wego/verifrt/vs"
)

func initial(i int) float64 { return float64((i*37+11)%101) / 101 }

// hooks make initial values and random draws the same in every run.
func hooks() func() {
	stop := tr.FixedInit(initial)
	n := 0
	f := func(b int) (int, bool) {
		n++
		return (n*7 + n/3) % b, true
	}
	vs.DrawHook, vrand.IntnHook = f, f
	return func() { stop(); vs.DrawHook, vrand.IntnHook = nil, nil }
}

type variant struct {
	f     func(*tr.Cfg)
	draws bool
}

var variants = []variant{
	{func(c *tr.Cfg) {}, false},
	{func(c *tr.Cfg) { c.Arch = "cbow" }, false},
	{func(c *tr.Cfg) { c.Opt = "hs" }, false},
	{func(c *tr.Cfg) { c.Model = "lexvec" }, false},
	{func(c *tr.Cfg) { c.Model = "glove" }, false},
	{func(c *tr.Cfg) { c.Model, c.Solver, c.Count, c.Window = "glove", "adagrad", "prox", 2 }, false},
	{func(c *tr.Cfg) { c.Arch, c.Neg, c.Window = "cbow", 1, 2 }, true},
	{func(c *tr.Cfg) { c.Model, c.Neg, c.Window = "lexvec", 1, 2 }, true},
}

var scratch string

func main() {
	h.Main(func(c *h.C) {
		scratch = c.Scratch
		each := func(f func(cfg tr.Cfg, draws bool)) {
			for _, v := range variants {
				for _, mem := range []bool{true, false} {
					cfg := tr.Base("w2v")
					v.f(&cfg)
					cfg.Mem = mem
					f(cfg, v.draws)
				}
			}
		}
		logs := []int{1, 2, 3, 5, 1000}
		n := 5
		if c.Thorough {
			n = 7
		}
		same := func(cfg tr.Cfg, text string, draws bool, logs []int) {
			c.Case(func() string { return fmt.Sprintf("same: %v text=%s", cfg, clip(text)) }, func(k *h.K) { sameResults(k, cfg, text, draws, logs) })
		}
		each(func(cfg tr.Cfg, draws bool) {
			for l := 0; l <= n; l++ {
				ref.Canonical(l, 3, func(q []int) {
					for iter := 0; iter <= 2; iter++ {
						for batch := 1; batch <= 3; batch++ {
							if cfg.Mem && batch > 1 || iter == 0 && l > 3 {
								continue
							}
							cfg.Iter, cfg.Batch = iter, batch
							same(cfg, ref.Text(q), draws, logs)
							if iter == 2 {
								// the rate is lowered by the last word.
								x := cfg
								x.ULR, x.MinLR = max(1, l), 0.01
								same(x, ref.Text(q), draws, logs[:3])
							}
						}
					}
				})
			}
			cfg.Iter, cfg.Batch = 2, 3
			for _, text := range []string{"A a b B a c A", "x a x b x c x"} {
				for _, lim := range [][2]int{{-1, -1}, {2, -1}, {-1, 2}, {9, -1}} {
					for _, lower := range []bool{false, true} {
						cfg.Min, cfg.Max, cfg.Lower = lim[0], lim[1], lower
						same(cfg, text, draws, logs)
					}
				}
			}
			cfg.Min, cfg.Max, cfg.Lower, cfg.Iter = -1, -1, false, 1
			for _, words := range []int{99, 100, 101, 1000, 5000} {
				var q []int
				for i := 0; i < words; i++ {
					q = append(q, (i*i+i/7)%23)
				}
				cfg.Batch = 100
				same(cfg, ref.Text(q), draws, []int{1, 10, 100, 999, 100000})
			}
			// many different words.
			for _, words := range []int{99, 128, 999, 1000, 1001, 1300, 4100} {
				var q []int
				for i := 0; i < words; i++ {
					q = append(q, i)
				}
				cfg.Batch = 1000
				same(cfg, ref.Text(append(q, 3, 1, 2)), draws, []int{1, 100, 1000, 100000})
			}
			if cfg.Opt != "hs" {
				var q []int
				for i := 0; i < 66000; i++ {
					q = append(q, i)
				}
				same(cfg, ref.Text(append(q, 3, 1, 2)), draws, []int{1000})
			}
		})
		// schedules.
		type plan struct {
			text           string
			workers, batch int
			iter           int
			o              vs.Opts
		}
		all := vs.Opts{MaxPreempt: -1, Cache: true}
		dep := func(n int) vs.Opts { return vs.Opts{MaxPreempt: n, Deviate: true, Cache: true} }
		plans := []plan{
			{"a b", 1, 1, 1, all},
			{"a b a", 1, 2, 1, dep(3)},
			{"a b", 2, 1, 1, dep(3)},
			{"a b a c", 2, 1, 1, dep(2)},
			{"a b a c", 2, 1, 2, dep(1)},
			{"a b a c a d", 3, 2, 2, dep(1)},
		}
		if c.Thorough {
			for i := range plans[1:] {
				plans[i+1].o.MaxPreempt++
			}
			plans = append(plans, plan{"a b a", 1, 2, 1, all}, plan{"a b", 2, 2, 1, all}, plan{"a b", 1, 2, 2, all})
		}
		for _, p := range plans {
			each(func(cfg tr.Cfg, draws bool) {
				if draws {
					return
				}
				for _, log := range []int{1, 2} {
					for _, ulr := range []int{1000, 1} {
						if cfg.Model == "glove" && ulr == 1 {
							continue
						}
						cfg.Workers, cfg.Batch, cfg.Iter, cfg.Log, cfg.ULR, cfg.MinLR = p.workers, p.batch, p.iter, log, ulr, 0.01
						cfg := cfg
						c.Case(func() string { return fmt.Sprintf("schedules: %v log=%d text=%s %s", cfg, log, p.text, bound(p.o)) }, func(k *h.K) {
							schedules(k, cfg, p.text, p.o)
						})
					}
				}
			})
		}
	})
}

func bound(o vs.Opts) string {
	if o.MaxPreempt < 0 {
		return "all schedules"
	}
	return fmt.Sprintf("departures<=%d", o.MaxPreempt)
}

func clip(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%s... (%d words)", s[:50], len(strings.Fields(s)))
	}
	return s
}

type outcome struct {
	out     tr.Out
	saved   string
	saveErr error
	printed string
}

func run(cfg tr.Cfg, text string, capture bool) (o outcome) {
	defer hooks()()
	if capture {
		h.StartCapture(scratch)
	}
	o.out = cfg.TrainText(text)
	if o.out.Err == nil {
		var b strings.Builder
		o.saveErr = o.out.M.Save(&b, "agg")
		o.saved = b.String()
	}
	// what is printed later comes too late: the program may have ended.
	if capture {
		o.printed = h.EndCapture()
	}
	return
}

var report = regexp.MustCompile(`(read|build|built|trained|saved)\s+(\d+)\s+(words|tuples|pairs|items)`)

// totals checks what is finally reported.
func totals(cfg tr.Cfg, rc *ref.Corpus, printed string) string {
	type total struct {
		kind string
		n    int
	}
	var want, got []total
	want = append(want, total{"read words", len(rc.Words)})
	co := rc.Cooc(cfg.Window, false)
	if cfg.Model != "w2v" {
		sum := 0.0
		for _, v := range co {
			sum += v
		}
		want = append(want, total{"read tuples", int(sum + 0.5)}, total{"build items", len(co)})
	}
	for i := 0; i < cfg.Iter; i++ {
		if cfg.Model == "glove" {
			want = append(want, total{"trained items", len(co)})
		} else {
			want = append(want, total{"trained words", len(rc.Tokens())})
		}
	}
	want = append(want, total{"saved words", len(rc.Dic)})
	for _, l := range strings.Split(printed, "\n") {
		all := report.FindAllStringSubmatch(l, -1)
		if len(all) == 0 {
			continue
		}
		m := all[len(all)-1]
		n, _ := strconv.Atoi(m[2])
		if m[3] == "pairs" {
			m[3] = "tuples"
		}
		if m[1] == "built" {
			m[1] = "build"
		}
		// what is reported on the way is never more than what was done by then.
		last := 0
		for _, r := range all {
			v, err := strconv.Atoi(r[2])
			if err != nil || v < last || v > n {
				return fmt.Sprintf("the numbers reported on the way to %q are not increasing: %q", m[0], l)
			}
			last = v
		}
		got = append(got, total{m[1] + " " + m[3], n})
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Sprintf("the totals reported are %v, the true numbers are %v", got, want)
	}
	return ""
}

func same(a, b outcome) string {
	if (a.out.Err != nil) != (b.out.Err != nil) {
		return fmt.Sprintf("the error is %v, without progress output %v", b.out.Err, a.out.Err)
	}
	if a.out.Err != nil {
		return ""
	}
	if !ref.NearAll(a.out.Flat(), b.out.Flat()) {
		return fmt.Sprintf("the vectors are %s, without progress output %s", tr.Show(b.out.Agg), tr.Show(a.out.Agg))
	}
	if a.saved != b.saved || (a.saveErr != nil) != (b.saveErr != nil) {
		return fmt.Sprintf("saved is %q (%v), without progress output %q (%v)", b.saved, b.saveErr, a.saved, a.saveErr)
	}
	return ""
}

func sameResults(k *h.K, cfg tr.Cfg, text string, draws bool, logs []int) {
	rc := cfg.Corpus(text)
	once := func(cfg tr.Cfg) (outcome, bool) {
		r := k.Once(vs.Opts{MaxSteps: 5000000}, func() any { return run(cfg, text, cfg.Verbose) })
		if b := h.Bad(r); b != "" {
			k.Fail("training", "verbose %v, log-batch %d: %s", cfg.Verbose, cfg.Log, b)
			return outcome{}, false
		}
		return r.Result.(outcome), true
	}
	quiet, ok := once(cfg)
	if !ok {
		return
	}
	if draws {
		again, ok := once(cfg)
		if !ok {
			return
		}
		if same(quiet, again) != "" {
			k.Note("cases left out: draws do not pass the seam", 1)
			k.NotExhaustive()
			return
		}
	}
	for _, log := range logs {
		v := cfg
		v.Verbose, v.Log = true, log
		got, ok := once(v)
		if !ok {
			return
		}
		if msg := same(quiet, got); msg != "" {
			k.Fail("result", "log-batch %d: %s", log, msg)
			return
		}
		if msg := totals(v, rc, got.printed); msg != "" {
			k.Fail("totals", "log-batch %d: %s", log, msg)
			return
		}
		k.One(3, fmt.Sprint(v, text))
	}
}

func schedules(k *h.K, cfg tr.Cfg, text string, o vs.Opts) {
	rc := cfg.Corpus(text)
	exact := cfg.Workers == 1
	sets := [2]*ref.Outcomes{{}, {}}
	var complete [2]bool
	for i, verbose := range []bool{false, true} {
		v := cfg
		v.Verbose = verbose
		st := k.Explore(o, func() any { return run(v, text, verbose) }, func(r vs.Report) (string, string) {
			got := r.Result.(outcome)
			if got.out.Err != nil {
				return "training", fmt.Sprintf("verbose %v: fails: %v", verbose, got.out.Err)
			}
			if verbose {
				if msg := totals(v, rc, got.printed); msg != "" {
					return "totals", msg
				}
			}
			sets[i].Add(got.out.Flat(), 1)
			return "", ""
		})
		if k.Failed() {
			return
		}
		complete[i] = st.Exhaustive
	}
	if !exact || !complete[0] || !complete[1] || o.MaxPreempt >= 0 && cfg.ULR == 1 {
		return
	}
	if v, n := missing(sets[0], sets[1]); n > 0 {
		k.Fail("result", "%d results are possible only with progress output, e.g. %.7g", n, v)
	} else if v, n := missing(sets[1], sets[0]); n > 0 {
		k.Fail("result", "%d results are possible only without progress output, e.g. %.7g", n, v)
	}
}

// missing finds outcomes of b that a does not have.
func missing(a, b *ref.Outcomes) (e []float64, n int) {
	b.Each(func(v []float64) {
		if ok, _ := a.Match(v, 0); !ok {
			e, n = v, n+1
		}
	})
	return
}
