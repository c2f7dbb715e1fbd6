//go:build go1.22

// C26: search returns exactly the k most similar words.
package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/ynqa/wego/pkg/embedding"
	"github.com/ynqa/wego/pkg/search"
	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
)

func emb(w string, v []float64) embedding.Embedding {
	var s float64
	for _, x := range v {
		s += x * x
	}
	return embedding.Embedding{Word: w, Dim: len(v), Vector: append([]float64{}, v...), Norm: math.Sqrt(s)}
}

func norm(v []float64) float64 { return emb("", v).Norm }

const eps = 1e-12

// verdict compares a result with the reference; ignore: words that are not candidates.
func verdict(embs []embedding.Embedding, query []float64, k int, ignore map[string]bool, got search.Neighbors, err error) (string, string) {
	if err != nil {
		return "error", fmt.Sprintf("fails: %v", err)
	}
	if k <= 0 {
		if len(got) != 0 {
			return "k", fmt.Sprintf("k=%d gives %d results", k, len(got))
		}
		return "", ""
	}
	type cand struct {
		w        string
		sim, tol float64
	}
	var sure, all []cand
	for _, e := range embs {
		if ignore[e.Word] {
			continue
		}
		s, tol := ref.Cosine(query, e.Vector), eps
		if plain(query, e.Vector) {
			tol *= math.Abs(s)
		}
		if s > tol {
			sure = append(sure, cand{e.Word, s, tol})
		}
		if s > -tol {
			all = append(all, cand{e.Word, s, tol})
		}
	}
	// candidates whose similarity is zero up to rounding may be taken for positive or not, except exact zeros.
	for i := 0; i < len(all); i++ {
		zero := false
		if math.Abs(all[i].sim) <= eps {
			zero = all[i].sim == 0
		}
		if zero {
			all = append(all[:i], all[i+1:]...)
			i--
		}
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].sim > all[j].sim })
	lo, hi := len(sure), len(all)
	if lo > k {
		lo = k
	}
	if hi > k {
		hi = k
	}
	if len(got) < lo || len(got) > hi {
		return "size", fmt.Sprintf("%d results, want %d (%v)", len(got), lo, got)
	}
	left := map[string][]cand{}
	for _, c := range all {
		left[c.w] = append(left[c.w], c)
	}
	for i, n := range got {
		if n.Word == "" {
			return "empty", fmt.Sprintf("result %d is empty (%v)", i+1, got)
		}
		if n.Rank != uint(i)+1 {
			return "rank", fmt.Sprintf("result %d has rank %d", i+1, n.Rank)
		}
		if math.Abs(n.Similarity-all[i].sim) > all[i].tol {
			return "order", fmt.Sprintf("result %d is %q with similarity %g, want similarity %g (%v)", i+1, n.Word, n.Similarity, all[i].sim, got)
		}
		ok := false
		for j, s := range left[n.Word] {
			if math.Abs(s.sim-n.Similarity) <= s.tol {
				left[n.Word] = append(append([]cand{}, left[n.Word][:j]...), left[n.Word][j+1:]...)
				ok = true
				break
			}
		}
		if !ok {
			return "word", fmt.Sprintf("result %d is %q with similarity %g, which is no (further) candidate", i+1, n.Word, n.Similarity)
		}
	}
	return "", ""
}

// plain: every product has the same sign, so that nothing cancels and even a tiny similarity is what it seems.
func plain(a, b []float64) bool {
	pos, neg := false, false
	for i := range a {
		p := a[i] * b[i]
		pos, neg = pos || p > 0, neg || p < 0
		if p != 0 && math.Abs(p) < 1e-290 {
			return false
		}
	}
	return pos != neg
}

func first(embs []embedding.Embedding, w string) ([]float64, bool) {
	for _, e := range embs {
		if e.Word == w {
			return e.Vector, true
		}
	}
	return nil, false
}

// words of the patterns: distinct, and with the same word twice.
var namings = [][]string{{"a", "b", "c", "d", "e", "f"}, {"a", "b", "a", "c", "b", "d"}, {"us", "US", "u", "Us", "\u00e9", "\u00c9"}}

func main() {
	h.Main(func(c *h.C) {
		check := func(k *h.K, vecs [][]float64, names []string, queries [][]float64, ks []int) bool {
			var embs []embedding.Embedding
			for i, v := range vecs {
				embs = append(embs, emb(names[i], v))
			}
			s, err := search.New(embs...)
			if err != nil {
				k.Fail("new", "vectors %v: %v", vecs, err)
				return false
			}
			bad := func(what string, kk int, key, msg string) bool {
				if msg != "" {
					k.Fail(key, "words %v vectors %v: %s, k=%d: %s", names[:len(vecs)], vecs, what, kk, msg)
					return true
				}
				k.One(1, "")
				return false
			}
			seen := map[string]bool{}
			for _, kk := range ks {
				for i := range vecs {
					if seen[names[i]] && kk == 0 {
						continue
					}
					seen[names[i]] = true
					q, _ := first(embs, names[i])
					got, err := s.SearchInternal(names[i], kk)
					key, msg := verdict(embs, q, kk, map[string]bool{names[i]: true}, got, err)
					if bad("word "+names[i], kk, key, msg) {
						return false
					}
				}
				if kk > 0 {
					for _, w := range []string{"zz", "", "A", "ab"} {
						if got, err := s.SearchInternal(w, kk); err == nil {
							k.Fail("unknown", "vectors %v: searching for the unknown word %q gives %v", vecs, w, got)
							return false
						}
					}
				}
				for _, q := range queries {
					got, err := s.SearchVector(append([]float64{}, q...), kk)
					key, msg := verdict(embs, q, kk, nil, got, err)
					if bad(fmt.Sprintf("query %v", q), kk, key, msg) {
						return false
					}
				}
			}
			// ignored words.
			if len(vecs) > 0 && len(queries) > 0 {
				for m := 0; m < 1<<len(vecs) && m < 16; m++ {
					var ig []string
					set := map[string]bool{"zz": true}
					for i := range vecs {
						if m>>i&1 == 1 {
							ig = append(ig, names[i])
							set[names[i]] = true
						}
					}
					ig = append(ig, "zz")
					q := queries[m%len(queries)]
					got, err := s.Search(embedding.Embedding{Vector: q, Norm: norm(q)}, 3, ig...)
					key, msg := verdict(embs, q, 3, set, got, err)
					if bad(fmt.Sprintf("query %v without %v", q, ig), 3, key, msg) {
						return false
					}
				}
			}
			// queries of another dimension.
			if len(vecs) > 0 {
				d := len(vecs[0])
				for _, l := range []int{0, d - 1, d + 1, 2*d + 1} {
					if l == d || l < 0 {
						continue
					}
					q := make([]float64, l)
					for i := range q {
						q[i] = 1
					}
					if got, err := s.SearchVector(q, 2); err == nil {
						k.Fail("dimension", "a query of dimension %d against vectors of dimension %d gives %v", l, d, got)
						return false
					}
				}
			}
			return true
		}
		grid := func(dim int, vals []float64) (res [][]float64) {
			ref.Seqs(len(vals), dim, func(q []int) {
				if len(q) == dim {
					var v []float64
					for _, i := range q {
						v = append(v, vals[i])
					}
					res = append(res, v)
				}
			})
			return
		}
		type space struct {
			dim  int
			vals []float64
			n    int
		}
		spaces := []space{{1, []float64{-2, -1, 0, 1, 3}, 4}, {2, []float64{-1, 0, 1}, 3}, {2, []float64{-1, 0.5, 2}, 3}, {3, []float64{0, 1}, 3}, {2, []float64{0, 1}, 5},
			{2, []float64{0, 1e-10, 1}, 3}, {2, []float64{-1e-12, 1e-100, 1e20}, 3}}
		if c.Thorough {
			spaces = append(spaces, space{2, []float64{-1, 0, 1}, 4}, space{3, []float64{-1, 0, 1}, 3}, space{2, []float64{0, 1}, 7}, space{4, []float64{0, 1}, 3}, space{2, []float64{-2, -1, 0, 1, 2}, 3})
		}
		for _, sp := range spaces {
			g := grid(sp.dim, sp.vals)
			ref.Seqs(len(g), 2, func(q []int) {
				q = append([]int{}, q...)
				c.Case(func() string {
					return fmt.Sprintf("dimension %d values %v: sets that begin with %v", sp.dim, sp.vals, q)
				}, func(k *h.K) {
					run := func(q []int) {
						var vecs [][]float64
						for _, i := range q {
							vecs = append(vecs, g[i])
						}
						for ni, names := range namings {
							if ni > 0 && len(q) < 2 {
								continue
							}
							ks := []int{-3, 0}
							for kk := 1; kk <= len(q)+1; kk++ {
								ks = append(ks, kk)
							}
							ks = append(ks, 100)
							if len(names) < len(vecs) {
								names = append(append([]string{}, names...), "p", "q", "r", "s")
							}
							if !check(k, vecs, names, g, ks) {
								return
							}
						}
						k.States(1)
					}
					if len(q) < 2 {
						run(q)
						return
					}
					ref.Seqs(len(g), sp.n-2, func(r []int) {
						if !k.Failed() {
							run(append(append([]int{}, q...), r...))
						}
					})
				})
			})
		}
		// every insertion order of distinct similarities.
		n := 6
		if c.Thorough {
			n = 8
		}
		var perms func(cur []int, used int)
		perms = func(cur []int, used int) {
			if len(cur) == n {
				p := append([]int{}, cur...)
				c.Case(func() string { return fmt.Sprintf("vectors by decreasing similarity in the order %v", p) }, func(k *h.K) {
					// far apart, and so close that only the last digits differ.
					for _, unit := range []float64{0.2, 1e-5} {
						var embs []embedding.Embedding
						q := []float64{1, 0}
						for i, x := range p {
							a := unit * float64(x+1)
							embs = append(embs, emb(ref.Name(i), []float64{math.Cos(a) * float64(x+1), math.Sin(a) * float64(x+1)}))
						}
						s, err := search.New(embs...)
						if err != nil {
							k.Fail("new", "%v", err)
							return
						}
						for kk := 1; kk <= n+2; kk++ {
							got, err := s.SearchVector(q, kk)
							if key, msg := verdict(embs, q, kk, nil, got, err); msg != "" {
								k.Fail(key, "order %v, %g apart, k=%d: %s", p, unit, kk, msg)
								return
							}
							k.One(1, fmt.Sprint(p, unit))
						}
					}
				})
				return
			}
			for i := 0; i < n; i++ {
				if used>>i&1 == 0 {
					perms(append(cur[:len(cur):len(cur)], i), used|1<<i)
				}
			}
		}
		perms(nil, 0)
		// larger sets.
		max := 120
		if c.Thorough {
			max = 600
		}
		sizes := []int{255, 256, 257, 1000, 1023, 1024, 1025, 4097, 10001, 70000}
		if c.Thorough {
			sizes = append(sizes, 300000, 1100000)
		}
		for size := max; size >= 0; size-- {
			sizes = append(sizes, size)
		}
		for _, size := range sizes {
			c.Case(func() string { return fmt.Sprintf("%d vectors", size) }, func(k *h.K) {
				for _, dim := range []int{2, 7} {
					var embs []embedding.Embedding
					for i := 0; i < size; i++ {
						v := make([]float64, dim)
						for j := range v {
							v[j] = math.Sin(float64(i*(j+3)*7 + j*j + size))
						}
						embs = append(embs, emb(ref.Name(i), v))
					}
					s, err := search.New(embs...)
					if err != nil {
						k.Fail("new", "%v", err)
						return
					}
					for _, kk := range []int{-1, 0, 1, 2, 3, 5, 10, 16, size / 2, size - 1, size, size + 1, 5000, 1 << 40, math.MaxInt} {
						if size > 2000 && kk > 100 {
							continue // insertion is quadratic
						}
						q := make([]float64, dim)
						for j := range q {
							q[j] = math.Cos(float64(j + kk))
						}
						got, err := s.SearchVector(q, kk)
						if key, msg := verdict(embs, q, kk, nil, got, err); msg != "" {
							k.Fail(key, "%d vectors of dimension %d, k=%d: %s", size, dim, kk, msg)
							return
						}
						if size > 0 {
							w := ref.Name(size / 2)
							got, err := s.SearchInternal(w, kk)
							if key, msg := verdict(embs, embs[size/2].Vector, kk, map[string]bool{w: true}, got, err); msg != "" {
								k.Fail(key, "%d vectors of dimension %d, word %s, k=%d: %s", size, dim, w, kk, msg)
								return
							}
						}
						k.One(2, fmt.Sprint(size, dim, kk))
					}
				}
			})
		}
	})
}
