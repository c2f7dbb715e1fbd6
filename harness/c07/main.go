//go:build go1.22

// C07: training always terminates and leaves nothing running.
package main

import (
	"fmt"
	"os"

	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
	"github.com/ynqa/wego/verifrt/tr"
	"github.com/ynqa/wego/verifrt/vs"
)

type variant struct {
	model string
	f     func(*tr.Cfg)
}

var variants = []variant{
	{"w2v", func(c *tr.Cfg) { c.Neg, c.ULR = 1, 1 }},
	{"w2v", func(c *tr.Cfg) { c.Arch, c.Opt = "cbow", "hs" }},
	{"w2v", func(c *tr.Cfg) { c.Opt = "hs" }},
	{"w2v", func(c *tr.Cfg) { c.Arch, c.Thr = "cbow", 0.01 }},
	{"lexvec", func(c *tr.Cfg) { c.ULR = 2 }},
	{"glove", func(c *tr.Cfg) {}},
	{"glove", func(c *tr.Cfg) { c.Solver = "adagrad" }},
	{"w2v", func(c *tr.Cfg) { c.ULR, c.Verbose, c.Log = 1, true, 1 }},
	{"lexvec", func(c *tr.Cfg) { c.ULR, c.Verbose, c.Log = 2, true, 2 }},
	{"glove", func(c *tr.Cfg) { c.Verbose, c.Log = true, 1 }},
}

// bound on schedules: preemptions (unbounded if negative) or departures from the default schedule.
type bound struct {
	n       int
	deviate bool
	turns   int // one schedule, in which the threads take turns of so many steps
}

func (b bound) String() string {
	if b.turns != 0 {
		return fmt.Sprintf("turns of %d", b.turns)
	}
	if b.n < 0 {
		return "all schedules"
	}
	if b.deviate {
		return fmt.Sprintf("departures<=%d", b.n)
	}
	return fmt.Sprintf("preemptions<=%d", b.n)
}

var all = bound{n: -1}

func preempt(n int) bound { return bound{n: n} }
func depart(n int) bound  { return bound{n: n, deviate: true} }

type result struct {
	now, later tr.Out
	unordered  []string
}

func main() {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	os.Stdout = null
	h.Main(func(c *h.C) {
		run := func(cfg tr.Cfg, text string, b bound) {
			c.Case(func() string { return fmt.Sprintf("%v text=%s %v", cfg, text, b) }, func(k *h.K) {
				k.Explore(vs.Opts{MaxPreempt: b.n, Deviate: b.deviate, Rotate: b.turns, Cache: true}, func() any {
					o := cfg.TrainText(text)
					if o.Err != nil {
						return result{now: o}
					}
					early := vs.Unordered()
					vs.Quiesce()
					now := tr.Read(o.M)
					// what has been written since is not ordered before the return either.
					return result{o, now, append(early, vs.Unordered()...)}
				}, func(r vs.Report) (string, string) {
					o := r.Result.(result)
					if o.now.Err != nil {
						return "error", "training fails: " + o.now.Err.Error()
					}
					if !ref.NearAll(o.now.Flat(), o.later.Flat()) {
						return "late", fmt.Sprintf("vectors still change after training has returned: %.6g, then %.6g", o.now.Flat(), o.later.Flat())
					}
					if len(o.unordered) > 0 {
						return "unordered", fmt.Sprintf("nothing orders these writes of the goroutines of the training before its return: %v", o.unordered)
					}
					return "", ""
				})
			})
		}
		type plan struct {
			text           string
			min            int
			workers        []int
			iters          []int
			mem, disk, one bound // in memory, on disk, on disk with one token per batch
		}
		plans := []plan{
			{"", -1, []int{1, 2}, []int{0, 1, 2}, all, all, all},
			{"", -1, []int{3}, []int{1}, all, all, all},
			{"", -1, []int{3}, []int{2}, preempt(1), preempt(1), preempt(1)},
			{"", -1, []int{3}, []int{3}, depart(3), preempt(1), preempt(1)},
			{"a", -1, []int{1, 2}, []int{1}, all, all, all},
			{"a a", 3, []int{1, 2}, []int{1}, all, all, all},
			{"a b", -1, []int{1}, []int{1}, all, all, preempt(2)},
			{"a b", -1, []int{1}, []int{2}, all, preempt(2), preempt(1)},
			{"a b", -1, []int{2}, []int{1}, all, all, preempt(2)},
			{"a b a", -1, []int{1}, []int{1}, all, all, preempt(2)},
			{"a", -1, []int{1, 2, 3}, []int{2}, depart(3), depart(3), depart(3)},
			{"a b", -1, []int{2}, []int{2, 3}, depart(3), depart(2), depart(2)},
			{"a b c", -1, []int{2, 3}, []int{1}, depart(3), depart(3), depart(3)},
			{"a b a c", -1, []int{1, 2}, []int{1, 2}, depart(2), depart(2), depart(1)},
			{"a b a c a b", 3, []int{2}, []int{1, 2}, depart(3), depart(3), depart(2)},
			{"a b c a d a", -1, []int{2, 4}, []int{1}, depart(2), depart(2), depart(2)},
			{"a b a b a b a b c", -1, []int{1, 2, 7}, []int{1}, depart(2), depart(1), depart(1)},
		}
		if c.Thorough {
			plans = append(plans,
				plan{"", -1, []int{3}, []int{2}, all, all, all},
				plan{"", -1, []int{3}, []int{3}, preempt(1), all, all},
				plan{"a", -1, []int{3}, []int{1}, all, all, all},
				plan{"a b a", -1, []int{2}, []int{1}, all, all, all},
				plan{"a b", -1, []int{1, 2}, []int{2}, all, all, preempt(3)},
				plan{"a b a c", -1, []int{1, 2}, []int{1}, all, all, preempt(3)},
				plan{"a b c", -1, []int{3}, []int{1}, all, preempt(4), preempt(3)},
				plan{"a b c", -1, []int{2, 3}, []int{2}, depart(5), depart(5), depart(5)},
				plan{"a b a c a b", -1, []int{2, 3, 5}, []int{1, 2}, depart(4), depart(4), depart(4)},
				plan{"a b a b a b a b c d e", -1, []int{2, 3, 8}, []int{1, 3}, depart(3), depart(3), depart(3)},
			)
		}
		// many workers that take turns.
		turns := []int{1, 2, 3, -1}
		if c.Thorough {
			turns = []int{1, 2, 3, 4, 5, 7, 10, -1, -2, -3, -5}
		}
		for i, workers := range []int{2, 3, 4, 5, 8, 9, 16, 17, 33, 65, 129} {
			for j, v := range variants {
				for n, q := range turns {
					if workers > 10 && !c.Thorough && (i+j+n)%3 != 0 {
						continue
					}
					cfg := tr.Base(v.model)
					v.f(&cfg)
					cfg.Workers, cfg.Iter, cfg.Mem, cfg.Batch = workers, 1+n%2, (j+n)%2 == 0, 1+i%3
					var q2 []int
					for l := 0; l < 2*workers+3 && l < 60; l++ {
						q2 = append(q2, l*l%7)
					}
					run(cfg, ref.Text(q2), bound{turns: q})
				}
			}
		}
		for pi, p := range plans {
			for _, v := range variants {
				for _, workers := range p.workers {
					for _, iter := range p.iters {
						for batch := 0; batch <= 2; batch++ {
							if v.model == "glove" && batch > 1 {
								continue
							}
							cfg := tr.Base(v.model)
							v.f(&cfg)
							if cfg.Verbose && !c.Thorough && pi%2 == 0 && pi > 1 {
								continue
							}
							cfg.Workers, cfg.Iter, cfg.Min = workers, iter, p.min
							cfg.Mem = batch == 0
							if batch > 0 {
								cfg.Batch = batch
							}
							run(cfg, p.text, []bound{p.mem, p.one, p.disk}[batch])
						}
					}
				}
			}
		}
	})
}
