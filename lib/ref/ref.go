//go:build go1.22

// Package ref holds the reference models: short, boring and written from the property texts.
package ref

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Words splits a text into its maximal runs of non-whitespace.
func Words(text string, lower bool) []string {
	var res []string
	start := -1
	for i := 0; i < len(text); {
		r, n := utf8.DecodeRuneInString(text[i:])
		if unicode.IsSpace(r) {
			if start >= 0 {
				res = append(res, text[start:i])
			}
			start = -1
		} else if start < 0 {
			start = i
		}
		i += n
	}
	if start >= 0 {
		res = append(res, text[start:])
	}
	if lower {
		for i := range res {
			res[i] = strings.ToLower(res[i])
		}
	}
	return res
}

// Corpus is the reference corpus.
type Corpus struct {
	Words []string       // all words of the text in order
	IDs   []int          // their ids
	Dic   []string       // word of each id
	Index map[string]int // id of each word
	Freq  []int          // count of each id
	Min   int
	Max   int
}

// NewCorpus reads a text.
func NewCorpus(text string, lower bool, max, min int) *Corpus {
	return FromWords(Words(text, lower), max, min)
}

// FromWords makes a corpus of given words.
func FromWords(ws []string, max, min int) *Corpus {
	c := &Corpus{Words: ws, Index: map[string]int{}, Min: min, Max: max}
	for _, w := range ws {
		id, ok := c.Index[w]
		if !ok {
			id = len(c.Dic)
			c.Index[w] = id
			c.Dic = append(c.Dic, w)
			c.Freq = append(c.Freq, 0)
		}
		c.Freq[id]++
		c.IDs = append(c.IDs, id)
	}
	return c
}

// Kept tells whether a word takes part in training.
func (c *Corpus) Kept(id int) bool {
	if c.Freq[id] < c.Min {
		return false
	}
	if c.Max > 0 && c.Freq[id] > c.Max {
		return false
	}
	return true
}

// Tokens is the training token sequence.
func (c *Corpus) Tokens() []int {
	res := []int{}
	for _, id := range c.IDs {
		if c.Kept(id) {
			res = append(res, id)
		}
	}
	return res
}

// Batches cuts the training tokens.
func (c *Corpus) Batches(n int) [][]int {
	var res [][]int
	t := c.Tokens()
	for len(t) > n {
		res = append(res, t[:n])
		t = t[n:]
	}
	return append(res, t)
}

// Pair is an unordered pair of ids, A <= B.
type Pair struct{ A, B int }

func MkPair(a, b int) Pair {
	if a > b {
		a, b = b, a
	}
	return Pair{a, b}
}

// Cooc counts the co-occurrences within the window.
func (c *Corpus) Cooc(window int, prox bool) map[Pair]float64 {
	res := map[Pair]float64{}
	for i := range c.IDs {
		for d := 1; d <= window && i+d < len(c.IDs); d++ {
			a, b := c.IDs[i], c.IDs[i+d]
			if !c.Kept(a) || !c.Kept(b) {
				continue
			}
			v := 1.0
			if prox {
				v = 1 / float64(d)
			}
			res[MkPair(a, b)] += v
		}
	}
	return res
}

// Cosine similarity; 0 if a vector is zero.
func Cosine(a, b []float64) float64 {
	var dot, na, nb float64
	for i := range a {
		dot += a[i] * b[i]
		na += a[i] * a[i]
		nb += b[i] * b[i]
	}
	if na == 0 || nb == 0 {
		return 0
	}
	return dot / math.Sqrt(na) / math.Sqrt(nb)
}

// Near compares numbers up to rounding of different summation orders.
func Near(a, b float64) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	d := math.Abs(a - b)
	return d <= 1e-9 || d <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

// NearAll compares vectors.
func NearAll(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !Near(a[i], b[i]) {
			return false
		}
	}
	return true
}

// SixDigits is a number rounded to six decimals.
func SixDigits(v float64) float64 {
	r, _ := strconv.ParseFloat(strconv.FormatFloat(v, 'f', 6, 64), 64)
	return r
}

// ShowPairs prints counts in order.
func ShowPairs(m map[Pair]float64) string {
	var ks []Pair
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].A < ks[j].A || ks[i].A == ks[j].A && ks[i].B < ks[j].B })
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%d-%d:%.6g ", k.A, k.B, m[k])
	}
	return b.String()
}

// Texts enumerates all sequences of up to max tokens from the alphabet.
func Seqs(n, max int, f func([]int)) {
	var rec func(cur []int)
	for l := 0; l <= max; l++ {
		rec = func(cur []int) {
			if len(cur) == l {
				f(cur)
				return
			}
			for i := 0; i < n; i++ {
				rec(append(cur[:len(cur):len(cur)], i))
			}
		}
		rec(nil)
	}
}

// Canonical enumerates all sequences of exactly n tokens up to renaming (each new token is the next
// number), with at most k different ones.
func Canonical(n, k int, f func([]int)) {
	var rec func(cur []int, used int)
	rec = func(cur []int, used int) {
		if len(cur) == n {
			f(cur)
			return
		}
		for i := 0; i <= used && i < k; i++ {
			u := used
			if i == used {
				u++
			}
			rec(append(cur[:len(cur):len(cur)], i), u)
		}
	}
	rec(nil, 0)
}

// Name is the i-th word name.
func Name(i int) string {
	if i < 26 {
		return string(rune('a' + i))
	}
	return fmt.Sprintf("w%d", i)
}

// Text writes tokens as words.
func Text(seq []int) string {
	var ws []string
	for _, s := range seq {
		ws = append(ws, Name(s))
	}
	return strings.Join(ws, " ")
}

// DropProb is the probability with which subsampling at threshold t drops a token of the word.
func (c *Corpus) DropProb(id int, t float64) float64 {
	return DropProb(c.Freq[id], len(c.Words), t)
}

// DropProb is max(0, 1-sqrt(t/f)) for f = freq/total; a threshold of zero drops nothing.
func DropProb(freq, total int, t float64) float64 {
	if t == 0 {
		return 0
	}
	r := t / (float64(freq) / float64(total))
	if r >= 1-1e-12 {
		return 0
	}
	return 1 - math.Sqrt(r)
}
