//go:build go1.22

// C21: a failing corpus source makes training fail, never hang or succeed.
package main

import (
	"fmt"
	"io"
	"strings"

	"github.com/ynqa/wego/verifrt/cp"
	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
	"github.com/ynqa/wego/verifrt/tr"
	"github.com/ynqa/wego/verifrt/vs"
)

func initial(i int) float64 { return float64((i*37+11)%101) / 101 }

// source is a reader whose faults are counted and may last.
type source struct {
	cp.Reader
	lasting bool
	faulted bool
	calls   int // reads and seeks
	failAt  int // the n-th call fails
	part    bool
	err     error
}

func (s *source) broken() bool {
	s.calls++
	if s.failAt > 0 && (s.calls == s.failAt || s.lasting && s.calls > s.failAt) {
		s.faulted = true
		return true
	}
	return false
}

func (s *source) Read(p []byte) (int, error) {
	if s.broken() {
		n := 0
		if s.part && s.calls == s.failAt {
			if len(p) > 2 {
				p = p[:2]
			}
			n, _ = s.Reader.Read(p)
		}
		return n, s.err
	}
	return s.Reader.Read(p)
}

func (s *source) Seek(off int64, whence int) (int64, error) {
	if s.broken() {
		return 0, s.err
	}
	return s.Reader.Seek(off, whence)
}

type variant func(*tr.Cfg)

var variants = []variant{
	func(c *tr.Cfg) {},
	func(c *tr.Cfg) { c.Arch = "cbow" },
	func(c *tr.Cfg) { c.Opt = "hs" },
	func(c *tr.Cfg) { c.Model = "lexvec" },
	func(c *tr.Cfg) { c.Model, c.Rel = "lexvec", "ppmi" },
	func(c *tr.Cfg) { c.Model = "glove" },
	func(c *tr.Cfg) { c.Model, c.Solver, c.Count = "glove", "adagrad", "prox" },
}

func main() {
	h.Main(func(c *h.C) {
		all := func(f func(cfg tr.Cfg)) {
			for _, v := range variants {
				for _, mem := range []bool{true, false} {
					cfg := tr.Base("w2v")
					v(&cfg)
					cfg.Mem = mem
					f(cfg)
				}
			}
		}
		fault := func(cfg tr.Cfg, r cp.Reader, o vs.Opts, full bool) {
			c.Case(func() string { return fmt.Sprintf("faults: %v %v %s", cfg, &r, bound(o)) }, func(k *h.K) { everyFault(k, cfg, r, o, full) })
		}
		one := vs.Opts{Fixed: true, NoMem: true}
		dep := func(n int) vs.Opts { return vs.Opts{MaxPreempt: n, Deviate: true} }
		// every fault of every pass on one schedule.
		all(func(cfg tr.Cfg) {
			for _, text := range []string{"", "a", " ", "a b", "a b a c", "a bc a ", "aé b\na é"} {
				for _, iter := range []int{0, 1, 2} {
					for _, workers := range []int{1, 2} {
						for _, batch := range []int{1, 2, 100} {
							if cfg.Mem && batch > 1 {
								continue
							}
							cfg.Iter, cfg.Workers, cfg.Batch = iter, workers, batch
							fault(cfg, cp.Reader{S: text}, one, true)
							fault(cfg, cp.Reader{S: text, One: true}, one, workers == 1)
							fault(cfg, cp.Reader{S: text, EOFLast: true, Max: 2}, one, false)
						}
					}
				}
			}
			for _, lim := range [][2]int{{2, -1}, {50, -1}, {-1, 1}} {
				cfg.Min, cfg.Max, cfg.Iter, cfg.Workers, cfg.Batch = lim[0], lim[1], 2, 2, 2
				fault(cfg, cp.Reader{S: "a b a c a", One: true}, one, false)
			}
			cfg = func() tr.Cfg { x := cfg; x.Min, x.Max, x.Iter = -1, -1, 1; return x }()
			cfg.Window = 3
			fault(cfg, cp.Reader{S: "a b a c", One: true}, one, false)
			cfg.Window = 1
			// more than one buffer.
			for _, words := range []int{2047, 2048, 2049, 5000} {
				cfg.Iter, cfg.Batch, cfg.Workers = 1, 1000, 2
				fault(cfg, cp.Reader{S: strings.Repeat("a b ", words/2+1)[:2*words]}, one, false)
				fault(cfg, cp.Reader{S: strings.Repeat("a b ", words/2+1)[:2*words], Max: 1000}, one, false)
			}
		})
		// schedules.
		type plan struct {
			text           string
			workers, batch int
			iter           int
			one            bool
			o              vs.Opts
		}
		plans := []plan{
			{"a", 1, 1, 1, false, vs.Opts{MaxPreempt: -1, Cache: true}},
			{"a b", 1, 1, 1, false, dep(3)},
			{"a b", 2, 1, 2, false, dep(2)},
			{"a b a", 2, 1, 1, true, dep(2)},
			{"a b a c", 2, 2, 1, false, dep(2)},
			{"a b a c", 1, 1, 1, true, dep(1)},
			{"a b a c a d", 3, 1, 1, true, dep(1)},
		}
		if c.Thorough {
			for i := range plans[1:] {
				plans[i+1].o.MaxPreempt++
			}
			plans = append(plans,
				plan{"a b", 1, 1, 1, false, vs.Opts{MaxPreempt: -1, Cache: true}},
				plan{"a b", 2, 1, 1, false, vs.Opts{MaxPreempt: -1, Cache: true}},
				plan{"a b a c a d b", 3, 2, 2, true, dep(2)},
			)
		}
		for _, p := range plans {
			all(func(cfg tr.Cfg) {
				if p.o.MaxPreempt < 0 && !c.Thorough && cfg.Arch == "cbow" {
					return
				}
				cfg.Workers, cfg.Batch, cfg.Iter = p.workers, p.batch, p.iter
				p.o.Cache = true
				fault(cfg, cp.Reader{S: p.text, One: p.one}, p.o, false)
			})
		}
		// the same bytes in pieces.
		pieces := func(cfg tr.Cfg, text string, rs []cp.Reader) {
			c.Case(func() string { return fmt.Sprintf("pieces: %v %q", cfg, cp.Clip(text)) }, func(k *h.K) { inPieces(k, cfg, text, rs) })
		}
		n := 9
		if c.Thorough {
			n = 13
		}
		all(func(cfg tr.Cfg) {
			for _, text := range []string{"", "a", "a b a c", "ab  a\nab", "é a éb", " a b ", "\xff a \xc3 b"} {
				if len(text) > n {
					text = text[:n]
				}
				var rs []cp.Reader
				for cuts := uint64(0); cuts < 1<<uint(max(0, len(text)-1)); cuts++ {
					rs = append(rs, cp.Reader{S: text, Cuts: cuts}, cp.Reader{S: text, Cuts: cuts, EOFLast: true}, cp.Reader{S: text, Cuts: cuts, Zero: true})
				}
				for _, iter := range []int{1, 2} {
					cfg.Iter, cfg.Batch = iter, 2
					pieces(cfg, text, rs)
				}
			}
			cfg.Iter = 1
			for _, words := range []int{2047, 2048, 2049, 3000} {
				text := strings.Repeat("é bcd ", words)
				cfg.Batch = 100000
				pieces(cfg, text, []cp.Reader{{S: text, One: true}, {S: text, Max: 2}, {S: text, Max: 7, Zero: true}, {S: text, Max: 4095}, {S: text, Max: 4097, EOFLast: true}, {S: text, EOFLast: true}})
			}
		})
	})
}

func bound(o vs.Opts) string {
	switch {
	case o.Fixed:
		return "one schedule"
	case o.MaxPreempt < 0:
		return "all schedules"
	}
	return fmt.Sprintf("departures<=%d", o.MaxPreempt)
}

func everyFault(k *h.K, cfg tr.Cfg, r cp.Reader, o vs.Opts, full bool) {
	if len(r.S) > 1000 {
		o.MaxSteps = 5000000
	}
	// how many calls there are without a fault, and which outcome.
	count := &source{Reader: r}
	rep := k.Once(vs.Opts{MaxSteps: o.MaxSteps}, func() any {
		defer tr.FixedInit(initial)()
		return cfg.Train(count)
	})
	if b := h.Bad(rep); b != "" {
		k.Fail("training", "without a fault: %s", b)
		return
	}
	if err := rep.Result.(tr.Out).Err; err != nil {
		k.Fail("training", "without a fault: %v", err)
		return
	}
	n := count.calls
	turn := cp.Mix(fmt.Sprint(cfg, &r))
	for at := 1; at <= n+1; at++ {
		errs := append([]error{cp.ErrFault, io.ErrUnexpectedEOF}, cp.Pick(turn+at, 4)...)
		if !full {
			errs = cp.Pick(turn+at, 2)
		}
		for i, e := range errs {
			for _, part := range []bool{false, true} {
				for _, lasting := range []bool{false, true} {
					if (i > 0 || !o.Fixed) && (part != lasting) {
						continue
					}
					var s *source
					hit := false
					k.Explore(o, func() any {
						defer tr.FixedInit(initial)()
						s = &source{Reader: r, failAt: at, part: part, lasting: lasting, err: e}
						return cfg.Train(s)
					}, func(rep vs.Report) (string, string) {
						out := rep.Result.(tr.Out)
						hit = hit || s.faulted
						what := fmt.Sprintf("call %d of the source fails with %q (after delivering bytes: %v, lasting: %v)", at, e, part, lasting)
						if s.faulted && out.Err == nil {
							return "success", what + ", training reports success"
						}
						if !s.faulted && out.Err != nil {
							return "no fault", fmt.Sprintf("the source has %d calls, none failed, but training fails: %v", s.calls, out.Err)
						}
						return "", ""
					})
					if k.Failed() {
						return
					}
					if hit {
						k.Outcome(fmt.Sprint(cfg, r.S, r.One, at, i, part, lasting))
						k.Note("faults injected", 1)
					}
				}
			}
		}
	}
}

func inPieces(k *h.K, cfg tr.Cfg, text string, rs []cp.Reader) {
	run := func(r io.ReadSeeker) (tr.Out, bool) {
		rep := k.Once(vs.Opts{MaxSteps: 5000000}, func() any {
			defer tr.FixedInit(initial)()
			return cfg.Train(r)
		})
		if b := h.Bad(rep); b != "" {
			k.Fail("training", "%s", b)
			return tr.Out{}, false
		}
		return rep.Result.(tr.Out), true
	}
	want, ok := run(strings.NewReader(text))
	if !ok {
		return
	}
	if want.Err != nil {
		k.Fail("training", "fails: %v", want.Err)
		return
	}
	for i := range rs {
		r := rs[i]
		got, ok := run(&r)
		if !ok {
			return
		}
		if got.Err != nil {
			k.Fail("pieces", "with the source %v training fails: %v", &rs[i], got.Err)
			return
		}
		if !ref.NearAll(want.Flat(), got.Flat()) {
			k.Fail("pieces", "with the source %v the vectors are %s, in one piece they are %s", &rs[i], cp.Clip(tr.Show(got.Single)), cp.Clip(tr.Show(want.Single)))
			return
		}
		k.One(1, fmt.Sprint(cfg, text, i))
	}
}
