//go:build go1.22

package tr

import (
	"github.com/ynqa/wego/pkg/corpus/dictionary"
	"github.com/ynqa/wego/pkg/corpus/dictionary/node"
	"github.com/ynqa/wego/verifrt/ref"
	"github.com/ynqa/wego/verifrt/vrand"
	"github.com/ynqa/wego/verifrt/vs"
)

// Corpus is the reference corpus of a configuration.
func (c Cfg) Corpus(text string) *ref.Corpus { return ref.NewCorpus(text, c.Lower, c.Max, c.Min) }

// Paths are the Huffman paths of the words (the tree itself is the subject of C14).
func (c Cfg) Paths(rc *ref.Corpus) (paths [][]ref.Step, inner int) {
	d := dictionary.New()
	for _, w := range rc.Words {
		d.Add(w)
	}
	num := map[*node.Node]int{}
	for _, leaf := range d.HuffnamTree(c.Dim) {
		var nodes []*node.Node
		for n := leaf; n != nil; n = n.Parent {
			nodes = append([]*node.Node{n}, nodes...)
		}
		if c.Depth > 0 && c.Depth < len(nodes) {
			nodes = nodes[:c.Depth]
		}
		p := []ref.Step{}
		for i := 0; i+1 < len(nodes); i++ {
			if _, ok := num[nodes[i]]; !ok {
				num[nodes[i]] = len(num)
			}
			p = append(p, ref.Step{Node: num[nodes[i]], Code: nodes[i+1].Code})
		}
		paths = append(paths, p)
	}
	return paths, len(num)
}

// Init gives the parameters before training: those that a run without iterations leaves.
func (c Cfg) Init(o Out, rc *ref.Corpus) ref.Params {
	p := ref.Params(nil)
	for _, r := range o.Single {
		p = append(p, append([]float64(nil), r...))
	}
	if c.Model == "w2v" && c.Opt == "hs" {
		_, inner := c.Paths(rc)
		for i := 0; i < inner; i++ {
			p = append(p, make([]float64, c.Dim))
		}
		return p
	}
	for _, r := range o.Ctx() {
		p = append(p, r)
	}
	return p
}

// Rules are the reference rules of a configuration (several where the statement leaves room).
func (c Cfg) Rules(rc *ref.Corpus) []ref.Trainer {
	v := len(rc.Dic)
	if c.Model == "w2v" {
		w := &ref.W2V{Vocab: v, Cbow: c.Arch == "cbow", Window: c.Window, Neg: c.Neg}
		if c.Opt == "hs" {
			w.Paths, _ = c.Paths(rc)
			w.Neg = 0
		}
		return []ref.Trainer{w}
	}
	co := rc.Cooc(c.Window, false)
	var res []ref.Trainer
	dirs := []func(a, b int) (int, int){
		func(a, b int) (int, int) { return min(a, b), max(a, b) },
		func(a, b int) (int, int) { return max(a, b), min(a, b) },
		func(a, b int) (int, int) { return a, b },
		func(a, b int) (int, int) { return b, a },
	}
	if c.Rel == "co" || c.Rel == "logco" || c.Smooth == 1 {
		dirs = dirs[:1]
	}
	for _, d := range dirs {
		res = append(res, &ref.LexVec{Vocab: v, Window: c.Window, Neg: c.Neg, Dir: func(a, b int) float64 {
			n, ok := co[ref.MkPair(a, b)]
			if !ok {
				return 0
			}
			x, y := d(a, b)
			return ref.Association(c.Rel, n, rc.Freq[x], rc.Freq[y], len(rc.Words), c.Smooth)
		}})
	}
	return res
}

// Final is what a run exports: the word vectors, then the context vectors.
func (c Cfg) Final(p ref.Params, vocab int) []float64 {
	single := p.Flat(vocab, c.Dim)
	if c.Model == "w2v" && c.Opt == "hs" {
		return append(single, single...)
	}
	agg := append([]float64(nil), single...)
	for i := 0; i < vocab; i++ {
		for j := 0; j < c.Dim; j++ {
			agg[i*c.Dim+j] += p[vocab+i][j]
		}
	}
	return append(single, agg...)
}

// Flat is the same for a real run.
func (o Out) Flat() []float64 {
	var r []float64
	for _, x := range o.Single {
		r = append(r, x...)
	}
	for _, x := range o.Agg {
		r = append(r, x...)
	}
	return r
}

// Docs cuts the training tokens into the pieces that are trained separately by one worker.
func (c Cfg) Docs(rc *ref.Corpus) [][]int {
	t := rc.Tokens()
	if c.Mem {
		return [][]int{t}
	}
	return rc.Batches(c.Batch)
}

// FixedInit makes all initial values come from a fixed sequence that does not depend on the random
// stream, until the returned function is called.
func FixedInit(val func(i int) float64) func() {
	i := 0
	vrand.Float64Hook = func() (float64, bool) {
		i++
		return val(i - 1), true
	}
	return func() { vrand.Float64Hook = nil }
}

// Draws makes bounded random draws choices of the explorer; the result counts them.
func Draws() (count *int, stop func()) {
	n := 0
	f := func(b int) (int, bool) {
		n++
		return vs.Choose(b), true
	}
	vs.DrawHook = f
	vrand.IntnHook = f
	return &n, func() { vs.DrawHook, vrand.IntnHook = nil, nil }
}
