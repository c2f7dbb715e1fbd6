//go:build go1.22

// C34: a text that is not kept in memory is held only in bounded parts.
//
// Two observations: how far reading is ahead of training (the words read in a pass over the text whose
// vectors have not changed yet), and how the heap grows with the length of the text.
package main

import (
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"

	"github.com/ynqa/wego/pkg/corpus"
	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/util/verbose"
	"github.com/ynqa/wego/verifrt/cp"
	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/tr"
	"github.com/ynqa/wego/verifrt/vs"
)

// meter delivers the words w0, w1, ... one by one and looks at the model on the way.
type meter struct {
	m      model.Model
	n      int // words of the text
	every  int // words between two looks
	at     int
	base   [][]float64
	wait   []int // words read and not trained
	worst  int
	when   int
	looks  int
	passes int
}

// vectors are those of the model, nil if it has none yet.
func (r *meter) vectors() (v [][]float64) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	return tr.Rows(r.m.WordVector("single"))
}

func (r *meter) Seek(off int64, whence int) (int64, error) {
	if off != 0 || whence != io.SeekStart {
		return 0, errors.New("only the start can be found")
	}
	r.at, r.wait = 0, nil
	if r.base = r.vectors(); len(r.base) != r.n {
		r.base = nil
	}
	return 0, nil
}

func (r *meter) Read(p []byte) (int, error) {
	if r.at > 0 && (r.at%r.every == 0 || r.at == r.n) {
		r.look()
	}
	if r.at == r.n {
		return 0, io.EOF
	}
	r.wait = append(r.wait, r.at)
	s := fmt.Sprintf("w%d ", r.at)
	r.at++
	if r.at == r.n {
		r.passes++
	}
	return copy(p, s), nil
}

func (r *meter) look() {
	if r.base == nil {
		return
	}
	now := r.vectors()
	left := r.wait[:0]
	for _, id := range r.wait {
		same := true
		for j, x := range now[id] {
			same = same && x == r.base[id][j]
		}
		if same {
			left = append(left, id)
		}
	}
	r.wait = left
	r.looks++
	if len(left) > r.worst {
		r.worst, r.when = len(left), r.at
	}
}

// most is the number of words that may wait: every worker may have a batch in hand, one on the way and
// one or two more in a queue.
func most(c tr.Cfg) int { return (4*c.Workers+6)*c.Batch + 4 }

func ahead(k *h.K, cfg tr.Cfg, words, deviate int) {
	every := 1
	if words > 100 {
		every = max(1, words/400)
	}
	body := func() any {
		m, err := cfg.New()
		if err != nil {
			return err
		}
		r := &meter{m: m, n: words, every: every}
		if err := m.Train(r); err != nil {
			return err
		}
		return r
	}
	check := func(r vs.Report) (string, string) {
		if err, ok := r.Result.(error); ok {
			return "training", "fails: " + err.Error()
		}
		m := r.Result.(*meter)
		if m.worst > most(cfg) {
			return "ahead", fmt.Sprintf("when %d of %d words were read in a pass, %d of them were held without having been trained (%d workers, batches of %d)", m.when, words, m.worst, cfg.Workers, cfg.Batch)
		}
		if k.Outcome(fmt.Sprint(cfg, words, m.worst)) {
			k.States(1)
		}
		return "", ""
	}
	rep := k.Once(vs.Opts{MaxSteps: 1 << 30}, body)
	if h.Bad(rep) != "" {
		// the subject of C07; or the vectors cannot be looked at while a training runs.
		k.Note("texts whose training could not be followed", 1)
		k.NotExhaustive()
		return
	}
	key, msg := check(rep)
	if msg != "" {
		k.Fail(key, "%s", msg)
		return
	}
	k.Traces(1)
	m := rep.Result.(*meter)
	k.Note("looks at the vectors during a training", m.looks)
	if m.looks == 0 {
		k.Note("texts whose training could not be followed", 1)
		k.NotExhaustive()
		return
	}
	if deviate > 0 {
		k.Explore(vs.Opts{MaxPreempt: deviate, Deviate: true, Cache: true, MaxSteps: 1 << 30, NoMem: true}, body, check)
	}
}

// stream is a text of any length over few words; it measures the heap on the way.
type stream struct {
	words  []string
	n      int
	at     int
	every  int
	next   int
	off    string
	low    uint64 // heap at the first measure of all passes
	grown  int64  // the most that it has grown since
	over   int    // tokens of that pass
	looked int
}

func (s *stream) Seek(off int64, whence int) (int64, error) {
	if off != 0 || whence != io.SeekStart {
		return 0, errors.New("only the start can be found")
	}
	s.at, s.off, s.next = 0, "", s.every
	return 0, nil
}

func (s *stream) Read(p []byte) (int, error) {
	if s.at >= s.next {
		s.next += s.every
		runtime.GC()
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		s.looked++
		if s.low == 0 {
			s.low = ms.HeapAlloc
		} else if d := int64(ms.HeapAlloc) - int64(s.low); d > s.grown {
			s.grown, s.over = d, s.at
		}
	}
	n := copy(p, s.off)
	s.off = s.off[n:]
	for s.off == "" && s.at < s.n && n < len(p) {
		w := s.words[s.at*s.at%7%len(s.words)] + " "
		s.at++
		c := copy(p[n:], w)
		n, s.off = n+c, w[c:]
	}
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

// verdict: half a byte for every token, besides the batches on their way, is less than what could be kept of them.
func (s *stream) verdict(k *h.K, what string, words int) {
	k.Note("measures of the heap", s.looked)
	k.One(s.n, fmt.Sprint(what, s.looked))
	if s.looked < 3 {
		k.Fail("heap", "%s: the text was not read to its end", what)
	}
	if s.grown > int64(s.over/2)+11*int64(words)+50000 {
		k.Fail("heap", "%s: the heap grew by %d bytes while %d tokens of %d different words were read", what, s.grown, s.over, len(s.words))
	}
}

func main() {
	h.Main(func(c *h.C) {
		var models []tr.Cfg
		for _, arch := range []string{"skipgram", "cbow"} {
			for neg := 0; neg < 2; neg++ {
				b := tr.Base("w2v")
				b.Mem, b.Arch, b.Neg = false, arch, neg
				models = append(models, b)
			}
		}
		for neg := 0; neg < 2; neg++ {
			b := tr.Base("lexvec")
			b.Mem, b.Neg = false, neg
			models = append(models, b)
		}
		one := func(cfg tr.Cfg, words, deviate int) {
			c.Case(func() string { return fmt.Sprintf("%v: %d words, %d departures", cfg, words, deviate) }, func(k *h.K) { ahead(k, cfg, words, deviate) })
		}
		// long texts on the schedule in which whoever came first goes first.
		for i, m := range models {
			for _, workers := range []int{1, 2, 3, 4, 8, 16} {
				for _, batch := range []int{2, 3, 5, 8, 16, 50, 100} {
					for iter := 1; iter <= 2; iter++ {
						m := m
						m.Workers, m.Batch, m.Iter = workers, batch, iter
						for _, words := range []int{most(m) + 10, 3*most(m) + 1} {
							if words > 6000 || (!c.Thorough && words > 1500 && (workers+batch+i)%3 != 0) {
								continue
							}
							one(m, words, 0)
						}
					}
				}
			}
		}
		// short texts on other schedules.
		for _, m := range models {
			for workers := 1; workers <= 2; workers++ {
				m := m
				m.Workers, m.Batch = workers, 2
				d := 1
				if c.Thorough {
					d = 2
				}
				one(m, most(m)+8, d)
				if c.Thorough {
					m.Iter = 2
					one(m, most(m)+8, 1)
					m.Iter, m.Batch = 1, 3
					one(m, most(m)+20, 1)
				}
			}
		}
		// the heap while a corpus is loaded and while its batches are taken.
		long := 3000000
		if c.Thorough {
			long = 40000000
		}
		for words := 1; words <= 3; words++ {
			for window := 0; window <= 2; window++ {
				for _, count := range []string{"", "inc", "prox"} {
					if (window == 0) != (count == "") {
						continue
					}
					ws := strings.Fields("a bb cä")[:words]
					c.Case(func() string { return fmt.Sprintf("%d tokens of %d words, window %d %s", long, words, window, count) }, func(k *h.K) {
						s := &stream{words: ws, n: long, every: long / 6}
						var cs corpus.Corpus
						var err error
						if count == "" {
							cs = cp.Make(false, s, false, -1, -1)
							err = cs.Load(nil, verbose.New(false), 100000)
						} else {
							cs, err = cp.Load(false, s, false, -1, -1, window, count)
						}
						if err != nil {
							k.Fail("load", "fails: %v", err)
							return
						}
						s.verdict(k, "loading", 0)
						if k.Failed() {
							return
						}
						for _, batch := range []int{1000, 10000} {
							s.looked, s.grown, s.low = 0, 0, 0
							in := make(chan []int, 4)
							end := make(chan error, 1)
							go func() { end <- cs.BatchWords(in, batch) }()
							got := 0
							for b := range in {
								got += len(b)
							}
							if err := <-end; err != nil || got != long {
								k.Fail("batches", "%d of %d tokens are delivered, error %v", got, long, err)
								return
							}
							s.verdict(k, fmt.Sprintf("batches of %d", batch), 10*batch)
						}
					})
				}
			}
		}
		// ... and while a model is trained.
		var cfgs []tr.Cfg
		for _, m := range []func(*tr.Cfg){
			func(c *tr.Cfg) {},
			func(c *tr.Cfg) { c.Arch, c.Neg, c.Thr = "cbow", 2, 0.3 },
			func(c *tr.Cfg) { c.Opt, c.Min, c.Max = "hs", 2, 1<<40 },
			func(c *tr.Cfg) { c.Arch, c.Opt, c.Verbose, c.Log, c.Lower = "cbow", "hs", true, 1000, true },
			func(c *tr.Cfg) { c.Model, c.Rel, c.Window, c.Verbose, c.Log = "lexvec", "ppmi", 2, true, 1000 },
			func(c *tr.Cfg) { c.Model, c.Rel, c.Min, c.ULR = "lexvec", "logco", 3, 10 },
			func(c *tr.Cfg) { c.Model, c.Verbose, c.Log = "glove", true, 1000 },
			func(c *tr.Cfg) { c.Model, c.Solver, c.Count, c.Window = "glove", "adagrad", "prox", 3 },
		} {
			cfg := tr.Base("w2v")
			m(&cfg)
			cfg.Mem, cfg.Batch, cfg.Iter = false, 2000, 2
			cfgs = append(cfgs, cfg)
		}
		for i, cfg := range cfgs {
			for workers := 1; workers <= 2; workers++ {
				cfg := cfg
				cfg.Workers = workers
				if (i+workers)%2 == 0 {
					cfg.Iter = 3
				}
				n := 240000
				if c.Thorough {
					n = 2400000
				}
				if cfg.Model == "glove" {
					n = long
				}
				c.Case(func() string { return fmt.Sprintf("%v: %d tokens", cfg, n) }, func(k *h.K) {
					s := &stream{words: strings.Fields("a BB cä"), n: n, every: n / 6}
					h.StartCapture(c.Scratch)
					r := k.Once(vs.Opts{MaxSteps: 1 << 40, NoMem: true}, func() any { return cfg.Train(s).Err })
					h.EndCapture()
					if bad := h.Bad(r); bad != "" {
						k.Note("texts whose training could not be followed", 1)
						k.NotExhaustive()
						return
					}
					if err, _ := r.Result.(error); err != nil {
						k.Fail("training", "fails: %v", err)
						return
					}
					s.verdict(k, "training", most(cfg))
				})
			}
		}
	})
}
