//go:build go1.22

package tr

import (
	"fmt"
	"math"

	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
	"github.com/ynqa/wego/verifrt/vrand"
	"github.com/ynqa/wego/verifrt/vs"
)

// outcomes runs the reference for every sequence of random draws (and every order of the batches); the
// sets of the alternative rules are separate.
func (c Cfg) outcomes(rc *ref.Corpus, init ref.Params, limit int) (sets []*ref.Outcomes, count int, complete, diverges bool) {
	docs := c.Docs(rc)
	complete = true
	for _, rule := range c.Rules(rc) {
		set := &ref.Outcomes{}
		n, all := ref.Choices(limit, func(choose func(int) int) {
			p, weight := init.Clone(), 1.0
			free := choose
			choose = func(n int) int {
				weight /= float64(max(n, 1))
				return free(n)
			}
			for it := 0; it < c.Iter; it++ {
				left := docs
				for len(left) > 0 {
					i := choose(len(left))
					doc := left[i]
					left = append(append([][]int{}, left[:i]...), left[i+1:]...)
					for pos, id := range doc {
						if c.Thr > 0 && rc.DropProb(id, c.Thr) > 0 && choose(2) == 1 {
							continue
						}
						rule.Token(p, doc, pos, choose, func() float64 { return c.LR })
					}
				}
			}
			v := c.Final(p, len(rc.Dic))
			for _, x := range v {
				if !(math.Abs(x) < 1e6) {
					diverges = true // rounding decides
				}
			}
			set.Add(v, weight)
		})
		sets = append(sets, set)
		count += n
		complete = complete && all
		if !complete {
			break
		}
	}
	return
}

func start(k *h.K, c Cfg, text string, f func() any) (Out, bool) {
	r := k.Once(vs.Opts{}, f)
	if b := h.Bad(r); b != "" {
		k.Fail("training", "%s", b)
		return Out{}, false
	}
	o := r.Result.(Out)
	if o.Err != nil {
		k.Fail("training", "fails: %v", o.Err)
		return o, false
	}
	return o, true
}

// CheckDraws explores every random draw of one training and compares the set of results with the
// reference. It reports whether the case was within the limit.
func CheckDraws(k *h.K, cfg Cfg, text string, limit int) bool {
	rc := cfg.Corpus(text)
	zero := cfg
	zero.Iter = 0
	o0, ok := start(k, zero, text, func() any { return zero.TrainText(text) })
	if !ok {
		return true
	}
	init := cfg.Init(o0, rc)
	sets, count, complete, diverges := cfg.outcomes(rc, init, limit)
	if diverges {
		k.Note("configurations that diverge (left out)", 1)
		return true
	}
	if !complete {
		return false
	}
	calls, stopDraws := Draws()
	trials := 0
	if cfg.Thr != 0 {
		// both sides of the decision: the extreme values of the draw.
		vrand.Float64Hook = func() (float64, bool) {
			if vs.Root() {
				return 0, false
			}
			trials++
			return [2]float64{0, 1 - 1.0/(1<<53)}[vs.Choose(2)], true
		}
	}
	stop := func() { stopDraws(); vrand.Float64Hook = nil }
	defer stop()
	alive := make([]bool, len(sets))
	for i := range alive {
		alive[i] = true
	}
	real := &ref.Outcomes{}
	st := k.Explore(vs.Opts{Fixed: true, Data: true, MaxExecs: 20*limit + 100}, func() any { return cfg.TrainText(text) }, func(r vs.Report) (string, string) {
		o := r.Result.(Out)
		if o.Err != nil {
			return "training", "fails: " + o.Err.Error()
		}
		v := o.Flat()
		w := r.X.DataWeight()
		real.Add(v, w)
		any := false
		var near []float64
		for i, s := range sets {
			if alive[i] {
				m, nn := s.Match(v, w)
				if !m {
					alive[i] = false
					near = nn
				}
				any = any || m
			}
		}
		if !any {
			return "rule", fmt.Sprintf("the learned vectors %.7g follow from the update rule for no outcome of the random draws (%d outcomes; nearest %.7g)", v, sets[0].Len(), near)
		}
		return "", ""
	})
	if k.Failed() || !st.Exhaustive {
		return true
	}
	k.Outcome(fmt.Sprint(cfg, text))
	want := 0
	for i, s := range sets {
		if alive[i] {
			want = s.Len()
		}
	}
	k.Note("reference outcomes", count)
	k.Note("distinct outcomes of the implementation", real.Len())
	if len(cfg.Docs(rc)) > 1 || want <= 1 {
		return true
	}
	if cfg.Thr != 0 && trials == 0 && cfg.Window == 1 && cfg.Neg == 0 {
		k.Note("cases whose subsampling draws do not pass the seam", 1)
		k.NotExhaustive()
		return true
	}
	if (*calls > 0 || trials > 0) && st.Execs > 1 {
		for i, s := range sets {
			if !alive[i] {
				continue
			}
			if m, n := s.Missed(); n > 0 {
				k.Fail("attainable", "%d of %d outcomes of the random draws are never attained, e.g. %.7g", n, s.Len(), m)
				return true
			}
			if v, a, b := s.Skewed(); v != nil {
				k.Fail("probability", "if every random draw is equally likely the outcome %.7g has probability %.6g, but it is reached with %.6g", v, a, b)
				return true
			}
		}
		return true
	}
	stop()
	// the draws do not come through the seam: follow one long history instead.
	var flats [][]float64
	k.Once(vs.Opts{MaxSteps: 10000000}, func() any {
		for i := 0; i < 80; i++ {
			un := FixedInit(func(i int) float64 { return float64((i*37+11)%101) / 101 })
			o := cfg.TrainText(text)
			un()
			if o.Err == nil {
				flats = append(flats, o.Flat())
			}
		}
		return nil
	})
	diff := &ref.Outcomes{}
	for _, f := range flats {
		diff.Add(f, 0)
	}
	if len(flats) == 80 && diff.Len() == 1 {
		k.Fail("attainable", "80 trainings from the same initial vectors give the same result although %d outcomes are possible", want)
	}
	k.Note("cases whose draws do not pass the seam", 1)
	return true
}

// Even are draws from either end and the middle of their range, Uneven ones walk through their range.
var Even = []func(n, i int) int{func(int, int) int { return 0 }, func(n, _ int) int { return n - 1 }, func(n, _ int) int { return n / 2 }}

func Uneven(n, i int) int { return (i*i/2 + 5*i + 3*n/4) % n }

// CheckFixed compares one training, the i-th random draw of which below n is draw(n, i), with the reference.
// A draw may stand for a value counted from either end of its range.
func CheckFixed(k *h.K, cfg Cfg, text string, draw func(n, i int) int) {
	rc := cfg.Corpus(text)
	if len(rc.Dic) == cfg.Window {
		return // draws of the window and of words cannot be told apart
	}
	zero := cfg
	zero.Iter = 0
	o0, ok := start(k, zero, text, func() any { return zero.TrainText(text) })
	if !ok {
		return
	}
	init := cfg.Init(o0, rc)
	drawn, asked := map[int]int{}, map[int]int{}
	f := func(n int) (int, bool) {
		drawn[n]++
		return draw(n, drawn[n]), true
	}
	vs.DrawHook, vrand.IntnHook = f, f
	o, ok := start(k, cfg, text, func() any { return cfg.TrainText(text) })
	vs.DrawHook, vrand.IntnHook = nil, nil
	if !ok {
		return
	}
	got := o.Flat()
	var near []float64
	for _, rule := range cfg.Rules(rc) {
		for ends := 0; ends < 4; ends++ {
			choose := func(n int) int {
				asked[n]++
				if n == cfg.Window && ends&1 == 1 || n != cfg.Window && ends&2 == 2 {
					return n - 1 - draw(n, asked[n])
				}
				return draw(n, asked[n])
			}
			// train follows the rule from the initial vectors, moved by a relative amount.
			train := func(move float64) []float64 {
				clear(asked)
				p := init.Clone()
				for _, row := range p {
					for i := range row {
						row[i] *= 1 + move
					}
				}
				for it := 0; it < cfg.Iter; it++ {
					for _, doc := range cfg.Docs(rc) {
						for pos := range doc {
							rule.Token(p, doc, pos, choose, func() float64 { return cfg.LR })
						}
					}
				}
				return cfg.Final(p, len(rc.Dic))
			}
			want := train(0)
			if w, ok := rule.(*ref.W2V); ok && w.Paths != nil && w.Saturated > 0 {
				k.Note("configurations with saturated inner nodes (left out)", 1)
				return
			}
			if moved := train(1e-13); !nearAll(want, moved) {
				k.Note("configurations where rounding decides (left out)", 1)
				return
			}
			if len(want) == len(got) && nearAll(want, got) {
				k.One(len(rc.IDs)*cfg.Iter, fmt.Sprint(cfg, len(text)))
				return
			}
			if near == nil {
				near = want
			}
		}
	}
	for n := range asked {
		if n > 1 && drawn[n] == 0 {
			k.Note("cases whose draws do not pass the seam", 1)
			return
		}
	}
	n := min(len(got), len(near), 8)
	k.Fail("rule", "the learned vectors %.7g... do not follow from the update rule, which gives %.7g...", got[:n], near[:n])
}

// nearAll allows for the rounding of long trainings.
func nearAll(a, b []float64) bool {
	for i := range a {
		if !(math.Abs(a[i]-b[i]) <= 1e-7*(1+math.Abs(a[i]))) {
			return false
		}
	}
	return true
}

// Sizes calls f for dimensions, windows, numbers of samples and numbers of iterations from small to large,
// one of them at a time, each with a text of which it makes use.
func Sizes(thorough bool, f func(c func(*Cfg), text LongText)) {
	text := func(n, words int) LongText {
		var q []int
		for i := 0; i < n; i++ {
			q = append(q, (i*i*i+i*5+i/9)%words)
		}
		return LongText{fmt.Sprintf("%d of %d words", n, words), ref.Text(q)}
	}
	dims := []int{31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 1000, 1025}
	for d := 1; d <= 20; d++ {
		dims = append(dims, d)
	}
	if thorough {
		dims = append(dims, 2047, 2048, 2049, 4096, 4097, 10000, 65537)
	}
	for _, d := range dims {
		f(func(c *Cfg) { c.Dim = d }, text(30, 7))
	}
	windows := []int{6, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513, 699, 700, 701, 5000}
	for _, w := range windows {
		f(func(c *Cfg) { c.Window, c.LR, c.MinLR = w, c.LR/float64(10*w), c.LR/float64(10*w) }, text(700, 61))
	}
	for _, n := range []int{3, 4, 6, 7, 8, 9, 10, 15, 16, 17, 20, 25, 33, 50, 64, 65, 100, 300} {
		f(func(c *Cfg) { c.Neg = n }, text(80, 41))
	}
	for _, n := range []int{3, 4, 5, 8, 10, 15, 16, 17, 25, 33, 50, 64, 100, 128, 256, 257, 1000, 4100, 33000, 66000} {
		if n > 1000 && !thorough {
			continue
		}
		f(func(c *Cfg) { c.Iter, c.LR, c.MinLR = n, c.LR/float64(n), c.LR/float64(n) }, text(12, 5))
	}
}

// Words calls f for vocabularies from small to large, each with a text that has all of its words.
func Words(thorough bool, f func(n int, text LongText)) {
	for _, n := range []int{100, 127, 128, 129, 255, 256, 257, 300, 1000, 1023, 1025, 5000, 66000, 140000, 300000} {
		if n > 66000 && !thorough {
			continue
		}
		var q []int
		for i := 0; i < n; i++ {
			q = append(q, i*7%n)
			if n%7 == 0 || n > 65536 && n < 100000 {
				q[i] = i
			}
		}
		for i := 0; i < 500; i++ {
			q = append(q, n-1-(i/2)*(i/2)%n)
		}
		f(n, LongText{fmt.Sprintf("%d words", n), ref.Text(q)})
	}
}

// LongText is a named text.
type LongText struct{ Name, Text string }

// LongTexts are texts of very different words, lengths and frequencies.
func LongTexts(thorough bool) []LongText {
	fib := func(n int) (q []int) {
		a, b := 1, 1
		for i := 0; i < n; i++ {
			for j := 0; j < a; j++ {
				q = append(q, i)
			}
			a, b = b, a+b
		}
		// mix the words.
		for i := range q {
			j := i * 7919 % len(q)
			q[i], q[j] = q[j], q[i]
		}
		return
	}
	mod := func(n, words int) (q []int) {
		for i := 0; i < n; i++ {
			q = append(q, (i*i*i+i*5+i/9)%words)
		}
		return
	}
	res := []LongText{{"frequencies 1,1,2,3,5..", ref.Text(fib(9))}, {"steep frequencies", ref.Text(fib(12))},
		{"30 words", ref.Text(mod(30, 7))}, {"80 words", ref.Text(mod(80, 40))}, {"200 words", ref.Text(mod(200, 150))}, {"one word", ref.Text(mod(40, 1))}, {"two words", ref.Text(mod(40, 2))}}
	if thorough {
		res = append(res, LongText{"very steep frequencies", ref.Text(fib(16))}, LongText{"2000 words", ref.Text(mod(2000, 500))})
	}
	return res
}
