//go:build go1.22

package ref

import (
	"math"
	"sort"
)

// Choices enumerates all sequences of choices that f makes, depth first; it stops after limit sequences
// (0: none) and reports how many there were and whether that is all of them.
func Choices(limit int, f func(choose func(n int) int)) (count int, complete bool) {
	var path, width []int
	for {
		i := 0
		f(func(n int) int {
			if n <= 1 {
				return 0
			}
			if i == len(path) {
				path, width = append(path, 0), append(width, n)
			}
			i++
			return path[i-1]
		})
		count++
		path, width = path[:i], width[:i]
		for len(path) > 0 && path[len(path)-1]+1 >= width[len(width)-1] {
			path, width = path[:len(path)-1], width[:len(width)-1]
		}
		if len(path) == 0 {
			return count, true
		}
		path[len(path)-1]++
		if limit > 0 && count >= limit {
			return count, false
		}
	}
}

// Params are the rows of a model: words, contexts (or inner nodes), auxiliary rows.
type Params [][]float64

// Clone copies them.
func (p Params) Clone() Params {
	r := make(Params, len(p))
	for i := range p {
		r[i] = append([]float64(nil), p[i]...)
	}
	return r
}

// Flat concatenates the first n rows, dim values of each.
func (p Params) Flat(n, dim int) []float64 {
	var r []float64
	for _, row := range p[:n] {
		r = append(r, row[:dim]...)
	}
	return r
}

// Outcomes is a set of vectors in which numbers are compared up to rounding.
type Outcomes struct {
	all    [][]float64
	keys   []float64
	sorted bool
	Hit    []bool
	weight []float64 // probability of each outcome
	Got    []float64 // probability that has been matched
}

func project(v []float64) float64 {
	s := 0.0
	for i, x := range v {
		s += x * math.Sin(float64(i)*1.7+0.5)
	}
	return s
}

// Add adds an outcome of the given probability.
func (o *Outcomes) Add(v []float64, weight float64) {
	o.all = append(o.all, v)
	o.weight = append(o.weight, weight)
	o.sorted = false
}

func (o *Outcomes) sort() {
	if o.sorted {
		return
	}
	idx := make([]int, len(o.all))
	key := make([]float64, len(o.all))
	for i := range idx {
		idx[i], key[i] = i, project(o.all[i])
	}
	sort.Slice(idx, func(a, b int) bool { return key[idx[a]] < key[idx[b]] })
	var all [][]float64
	var weight []float64
	o.keys = nil
next:
	for _, i := range idx {
		for j := len(all) - 1; j >= 0 && key[i]-o.keys[j] <= 1e-8; j-- {
			if same(all[j], o.all[i]) {
				weight[j] += o.weight[i]
				continue next
			}
		}
		all = append(all, o.all[i])
		weight = append(weight, o.weight[i])
		o.keys = append(o.keys, key[i])
	}
	o.all, o.weight = all, weight
	o.Hit = make([]bool, len(all))
	o.Got = make([]float64, len(all))
	o.sorted = true
}

func same(a, b []float64) bool {
	for i := range a {
		if !Near(a[i], b[i]) {
			return false
		}
	}
	return len(a) == len(b)
}

// Len is the number of distinct outcomes.
func (o *Outcomes) Len() int { o.sort(); return len(o.all) }

// Each visits the distinct outcomes.
func (o *Outcomes) Each(f func(v []float64)) {
	o.sort()
	for _, v := range o.all {
		f(v)
	}
}

// Match finds an outcome and marks it; otherwise it returns the nearest one.
func (o *Outcomes) Match(v []float64, weight float64) (bool, []float64) {
	o.sort()
	k := project(v)
	tol := 1e-8 * (1 + math.Abs(k))
	i := sort.SearchFloat64s(o.keys, k-tol)
	for j := i; j < len(o.keys) && o.keys[j] <= k+tol; j++ {
		if same(o.all[j], v) {
			o.Hit[j] = true
			o.Got[j] += weight
			return true, nil
		}
	}
	var best []float64
	bd := math.Inf(1)
	for _, a := range o.all {
		d := 0.0
		for i := range a {
			if i < len(v) {
				d += math.Abs(a[i] - v[i])
			}
		}
		if d < bd {
			bd, best = d, a
		}
	}
	return false, best
}

// Missed returns an outcome that has not been matched.
func (o *Outcomes) Missed() ([]float64, int) {
	o.sort()
	n := 0
	var r []float64
	for i, h := range o.Hit {
		if !h {
			n++
			r = o.all[i]
		}
	}
	return r, n
}

// Skewed returns an outcome that has been matched with another probability than it should have.
func (o *Outcomes) Skewed() (v []float64, want, got float64) {
	o.sort()
	for i, w := range o.weight {
		if math.Abs(w-o.Got[i]) > 1e-6 {
			return o.all[i], w, o.Got[i]
		}
	}
	return nil, 0, 0
}

// Sigmoid is the published look-up table of 1000 left edges between -6 and 6.
func Sigmoid(x float64) float64 {
	i := int((x + 6) * (1000.0 / 12))
	if i > 999 {
		i = 999
	}
	if i < 0 {
		i = 0
	}
	e := math.Exp((float64(i)/1000*2 - 1) * 6)
	return e / (e + 1)
}

// Trainer is a training rule for one token of a text.
type Trainer interface {
	Token(p Params, doc []int, pos int, choose func(n int) int, lr func() float64)
}

// Step of a Huffman path: the inner node and the code of the branch taken.
type Step struct{ Node, Code int }

// W2V is the word2vec rule. Rows: words, then context vectors (or inner nodes).
type W2V struct {
	Vocab  int
	Cbow   bool
	Window int
	Neg    int
	Paths  [][]Step // hierarchical softmax; nil: negative sampling

	Saturated int // inner products outside the range of the sigmoid table
}

func (w *W2V) contexts(doc []int, pos int, choose func(int) int) []int {
	reach := 1 + choose(w.Window)
	var r []int
	for c := pos - reach; c <= pos+reach; c++ {
		if c != pos && c >= 0 && c < len(doc) {
			r = append(r, doc[c])
		}
	}
	return r
}

// predict trains the outputs for the word id with the given input and returns the change of the input.
func (w *W2V) predict(p Params, id int, in []float64, choose func(int) int, lr float64) []float64 {
	delta := make([]float64, len(in))
	one := func(row []float64, label float64) {
		var f float64
		for i := range in {
			f += in[i] * row[i]
		}
		var g float64
		switch {
		case f >= 6:
			w.Saturated++
			g = (label - 1) * lr
		case f <= -6:
			w.Saturated++
			g = label * lr
		default:
			g = (label - Sigmoid(f)) * lr
		}
		for i := range in {
			delta[i] += g * row[i]
			row[i] += g * in[i]
		}
	}
	if w.Paths != nil {
		for _, s := range w.Paths[id] {
			one(p[w.Vocab+s.Node], 1-float64(s.Code))
		}
		return delta
	}
	one(p[w.Vocab+id], 1)
	for n := 0; n < w.Neg; n++ {
		if s := choose(w.Vocab); s != id {
			one(p[w.Vocab+s], 0)
		}
	}
	return delta
}

func addTo(row, d []float64) {
	for i := range d {
		row[i] += d[i]
	}
}

// Token trains the token at pos.
func (w *W2V) Token(p Params, doc []int, pos int, choose func(int) int, lr func() float64) {
	ctx := w.contexts(doc, pos, choose)
	rate := lr()
	if w.Cbow {
		sum := make([]float64, len(p[doc[pos]]))
		for _, c := range ctx {
			addTo(sum, p[c])
		}
		d := w.predict(p, doc[pos], sum, choose, rate)
		for _, c := range ctx {
			addTo(p[c], d)
		}
		return
	}
	for _, c := range ctx {
		addTo(p[c], w.predict(p, doc[pos], append([]float64(nil), p[c]...), choose, rate))
	}
}

// LexVec is the LexVec rule. Rows: words, then context vectors.
type LexVec struct {
	Vocab  int
	Window int
	Neg    int
	Assoc  map[Pair]float64
	Dir    func(center, ctx int) float64 // overrides Assoc
}

func (l *LexVec) update(p Params, a, b int, rate float64) {
	var f float64
	if l.Dir != nil {
		f = l.Dir(a, b)
	} else {
		f = l.Assoc[MkPair(a, b)]
	}
	u, v := p[a], p[l.Vocab+b]
	d := -f
	for i := range u {
		d += u[i] * v[i]
	}
	d *= rate
	for i := range u {
		x, y := u[i], v[i]
		u[i] -= d * y
		v[i] -= d * x
	}
}

// Token trains the token at pos.
func (l *LexVec) Token(p Params, doc []int, pos int, choose func(int) int, lr func() float64) {
	reach := 1 + choose(l.Window)
	for c := pos - reach; c <= pos+reach; c++ {
		if c == pos || c < 0 || c >= len(doc) {
			continue
		}
		l.update(p, doc[pos], doc[c], lr())
		for n := 0; n < l.Neg; n++ {
			l.update(p, doc[pos], choose(l.Vocab), lr())
		}
	}
}

// Association computes LexVec's association of a co-occurring pair; f1, f2 are the word frequencies.
func Association(rel string, co float64, f1, f2, total int, smooth float64) float64 {
	pmi := math.Log(co) + smooth*math.Log(float64(total)) - math.Log(float64(f1)) - smooth*math.Log(float64(f2))
	switch rel {
	case "co":
		return co
	case "logco":
		return math.Log(co)
	case "pmi":
		return pmi
	case "ppmi":
		return math.Max(0, pmi)
	}
	panic("ref: relation " + rel)
}

// GloVe is the GloVe rule. Rows of dim+1 values: words, contexts, and for AdaGrad the sums of squares.
type GloVe struct {
	Vocab   int
	Dim     int
	LR      float64
	AdaGrad bool
	Xmax    int
	Alpha   float64
	CtxLast bool // the orientation that is updated second has the words swapped
}

// Update trains the parameters of rows a and b.
func (g *GloVe) Update(p Params, a, b int, x float64) {
	w := 1.0
	if x < float64(g.Xmax) {
		w = math.Pow(x/float64(g.Xmax), g.Alpha)
	}
	u, v := p[a], p[b]
	d := u[g.Dim] + v[g.Dim] - math.Log(x)
	for i := 0; i < g.Dim; i++ {
		d += u[i] * v[i]
	}
	d *= w * g.LR
	if !g.AdaGrad {
		for i := 0; i < g.Dim; i++ {
			x, y := u[i], v[i]
			u[i] -= d * y
			v[i] -= d * x
		}
		u[g.Dim] -= d
		v[g.Dim] -= d
		return
	}
	gu, gv := p[2*g.Vocab+a], p[2*g.Vocab+b]
	for i := 0; i < g.Dim; i++ {
		x, y := d*v[i], d*u[i]
		gu[i] += x * x
		gv[i] += y * y
		u[i] -= x / math.Sqrt(gu[i])
		v[i] -= y / math.Sqrt(gv[i])
	}
	u[g.Dim] -= d / math.Sqrt(gu[g.Dim])
	v[g.Dim] -= d / math.Sqrt(gv[g.Dim])
	gu[g.Dim] += d * d
	gv[g.Dim] += d * d
}

// Pair trains one co-occurring pair in both orientations, a's word vector first or b's.
func (g *GloVe) Pair(p Params, a, b int, x float64, bFirst bool) {
	if bFirst {
		a, b = b, a
	}
	g.Update(p, a, g.Vocab+b, x)
	g.Update(p, g.Vocab+a, b, x)
}

// SortedPairs lists the pairs in order.
func SortedPairs(co map[Pair]float64) (pairs []Pair) {
	for p := range co {
		pairs = append(pairs, p)
	}
	sort.Slice(pairs, func(i, j int) bool {
		return pairs[i].A < pairs[j].A || pairs[i].A == pairs[j].A && pairs[i].B < pairs[j].B
	})
	return
}

// Perms enumerates the permutations of 0..n-1.
func Perms(n int, f func([]int)) {
	var rec func(cur []int, used int)
	rec = func(cur []int, used int) {
		if len(cur) == n {
			f(cur)
			return
		}
		for i := 0; i < n; i++ {
			if used>>i&1 == 0 {
				rec(append(cur[:len(cur):len(cur)], i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
}

// Merges enumerates the interleavings of sequences of the given lengths.
func Merges(lens []int, f func([]int)) {
	left := append([]int(nil), lens...)
	var rec func(cur []int)
	rec = func(cur []int) {
		done := true
		for i := range left {
			if left[i] > 0 {
				done = false
				left[i]--
				rec(append(cur[:len(cur):len(cur)], i))
				left[i]++
			}
		}
		if done {
			f(cur)
		}
	}
	rec(nil)
}
