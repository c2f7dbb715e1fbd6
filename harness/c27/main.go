//go:build go1.22

// C27: searching never changes the searcher and is safe concurrently.
package main

import (
	"fmt"
	"math"
	"os"
	"reflect"

	"github.com/ynqa/wego/pkg/embedding"
	"github.com/ynqa/wego/pkg/search"
	"github.com/ynqa/wego/pkg/search/console"
	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
	"github.com/ynqa/wego/verifrt/vs"
)

var sets = [][][]float64{
	{{1, 0}, {1, 1}, {0, 1}, {-1, 0}},
	{{1, 0}, {0.5, 0}, {3, 0.1}, {1, 1}},
	{{1, 2, 3}, {3, 2, 1}, {0, 0, 0}, {1, 1, 1}, {-1, 0, 5}},
}

func items(set int) embedding.Embeddings {
	var res embedding.Embeddings
	for i, v := range sets[set] {
		var s float64
		for _, x := range v {
			s += x * x
		}
		res = append(res, embedding.Embedding{Word: ref.Name(i), Dim: len(v), Vector: append([]float64{}, v...), Norm: math.Sqrt(s)})
	}
	return res
}

type op struct {
	name string
	run  func(s *search.Searcher) (search.Neighbors, error)
}

// query is reused by the caller between searches: a search must neither keep nor change it.
func ops(set int) []op {
	d := len(sets[set][0])
	q := func(f func(i int) float64) []float64 {
		r := make([]float64, d)
		for i := range r {
			r[i] = f(i)
		}
		return r
	}
	q1, q2, q3 := q(func(i int) float64 { return 1 }), q(func(i int) float64 { return float64(2*i) - 1 }), q(func(i int) float64 { return 0 })
	vec := func(v []float64, k int) op {
		return op{fmt.Sprintf("vector %v k=%d", v, k), func(s *search.Searcher) (search.Neighbors, error) { return s.SearchVector(v, k) }}
	}
	word := func(w string, k int) op {
		return op{fmt.Sprintf("word %s k=%d", w, k), func(s *search.Searcher) (search.Neighbors, error) { return s.SearchInternal(w, k) }}
	}
	full := func(v []float64, k int, ig ...string) op {
		var n float64
		for _, x := range v {
			n += x * x
		}
		return op{fmt.Sprintf("vector %v k=%d without %v", v, k, ig), func(s *search.Searcher) (search.Neighbors, error) {
			return s.Search(embedding.Embedding{Vector: v, Norm: math.Sqrt(n)}, k, ig...)
		}}
	}
	return []op{word("a", 2), word("a", 10), word("b", 1), word("d", 3), word("nope", 2), vec(q1, 3), vec(q1, 1), vec(q2, 3), vec(q3, 3), vec(q1, 0), vec([]float64{1, 2, 3, 4}, 2),
		full(q1, 4, "b"), full(q1, 2, "a", "c"), full(q2, 2, "nope")}
}

func text(n search.Neighbors, err error) string {
	if err != nil {
		return "error"
	}
	return fmt.Sprintf("%v", n)
}

// converse runs a console on the searcher.
func converse(dir string, s *search.Searcher, lines string) (err error) {
	if input == nil {
		if input, err = os.CreateTemp(dir, "stdin"); err != nil {
			panic(err)
		}
	}
	input.Truncate(0)
	input.Seek(0, 0)
	input.WriteString(lines)
	input.Seek(0, 0)
	stdin := os.Stdin
	os.Stdin = input
	defer func() { os.Stdin = stdin }()
	h.Capture(dir, func() {
		var c *console.Console
		if c, err = console.New(s, 3); err == nil {
			err = c.Run()
		}
	})
	return
}

var input *os.File

func main() {
	os.Setenv("TERM", "dumb")
	h.Main(func(c *h.C) {
		depth := 2
		if c.Thorough {
			depth = 3
		}
		// many stored vectors: pairs of searches, then lines of a console.
		sizes := []int{16, 65, 130, 257, 1025, 5000, 70000}
		if c.Thorough {
			sizes = append(sizes, 300000)
		}
		for _, n := range sizes {
			many := func() embedding.Embeddings {
				var res embedding.Embeddings
				for i := 0; i < n; i++ {
					x := float64(i*i%n) / float64(n)
					v := []float64{1 - x, x * x, float64(i%7) / 7}
					res = append(res, embedding.Embedding{Word: ref.Name(i), Dim: 3, Vector: v, Norm: math.Sqrt(v[0]*v[0] + v[1]*v[1] + v[2]*v[2])})
				}
				return res
			}
			var list []op
			ks := []int{1, 10, 100, n}
			if n > 2000 {
				ks = ks[:3]
			}
			for _, k := range ks {
				for _, w := range []int{0, 1, n / 2, n - 1, n} {
					w, k := ref.Name(w), k
					list = append(list, op{fmt.Sprintf("word %s k=%d", w, k), func(s *search.Searcher) (search.Neighbors, error) { return s.SearchInternal(w, k) }})
				}
				q := []float64{1, 2, 3}
				list = append(list, op{fmt.Sprintf("vector k=%d", k), func(s *search.Searcher) (search.Neighbors, error) { return s.SearchVector(q, k) }})
			}
			first := make([]string, len(list))
			get := func(i int) string {
				if first[i] == "" {
					s, err := search.New(many()...)
					if err != nil {
						panic(err)
					}
					first[i] = text(list[i].run(s))
				}
				return first[i]
			}
			for a := range list {
				c.Case(func() string { return fmt.Sprintf("%d stored vectors: %s, then others", n, list[a].name) }, func(k *h.K) {
					s, err := search.New(many()...)
					if err != nil {
						k.Fail("new", "%v", err)
						return
					}
					was := many()
					step := 1
					if n > 2000 {
						step = 5
					}
					seq := []int{a}
					for b := (a + 1) % step; b < len(list); b += step {
						seq = append(seq, b, a)
					}
					for _, i := range seq {
						if g := text(list[i].run(s)); g != get(i) {
							k.Fail("result", "%s gives %.200s, on a new searcher %.200s", list[i].name, g, get(i))
							return
						}
						if !reflect.DeepEqual(append(embedding.Embeddings{}, s.Items...), was) {
							k.Fail("items", "%s changes the stored vectors", list[i].name)
							return
						}
					}
					lines := []string{ref.Name(0), ref.Name(n - 1), ref.Name(n/2) + " + " + ref.Name(n-1), ref.Name(1) + " - " + ref.Name(0), ref.Name(n), ref.Name(n/3) + " * " + ref.Name(n/3)}
					for _, l := range lines {
						if err := converse(c.Scratch, s, l+"\n"); err != nil {
							k.Fail("console", "the console ends with %v", err)
							return
						}
						if !reflect.DeepEqual(append(embedding.Embeddings{}, s.Items...), was) {
							k.Fail("items", "the console line %q changes the stored vectors", l)
							return
						}
					}
					if g := text(list[a].run(s)); g != get(a) {
						k.Fail("result", "after the console %s gives %.200s, on a new searcher %.200s", list[a].name, g, get(a))
						return
					}
					k.One(len(seq)+len(lines), fmt.Sprint(n, a))
				})
			}
		}
		for set := range sets {
			all := ops(set)
			want := make([]string, len(all))
			for i, o := range all {
				s, err := search.New(items(set)...)
				if err != nil {
					panic(err)
				}
				want[i] = text(o.run(s))
			}
			ref.Seqs(len(all), depth, func(q []int) {
				q = append([]int{}, q...)
				if len(q) == 0 {
					return
				}
				c.Case(func() string {
					s := fmt.Sprintf("set %d:", set)
					for _, i := range q {
						s += " " + all[i].name + ";"
					}
					return s
				}, func(k *h.K) {
					for _, last := range []bool{false, true} {
						its := items(set)
						s, err := search.New(its...)
						if err != nil {
							k.Fail("new", "%v", err)
							return
						}
						seq := q
						if last {
							// all single operations after the sequence.
							for i := range all {
								seq = append(append([]int{}, seq...), i)
							}
						}
						var handed []search.Neighbors
						var copies []search.Neighbors
						for _, i := range seq {
							n, err := all[i].run(s)
							if g := text(n, err); g != want[i] {
								k.Fail("result", "%s gives %s, on a new searcher %s", all[i].name, g, want[i])
								return
							}
							handed = append(handed, n)
							copies = append(copies, append(search.Neighbors{}, n...))
							h.Capture(c.Scratch, func() { n.Describe() })
							// what the caller does with a result is no business of the searcher.
							if len(n) > 0 && last {
								for j := range n {
									n[j].Word, n[j].Similarity, n[j].Rank = "changed", -1, 77
								}
								copies[len(copies)-1] = append(search.Neighbors{}, n...)
							}
							if !reflect.DeepEqual(append(embedding.Embeddings{}, s.Items...), items(set)) {
								k.Fail("items", "%s changes the stored vectors", all[i].name)
								return
							}
							for j := range handed {
								if len(handed[j]) != len(copies[j]) || len(copies[j]) > 0 && !reflect.DeepEqual(handed[j], copies[j]) {
									k.Fail("handed", "%s changes the result of an earlier search from %v to %v", all[i].name, copies[j], handed[j])
									return
								}
							}
							k.Transitions(1)
						}
						k.One(0, fmt.Sprint(set, seq))
					}
				})
			})
			// console lines between searches, and sessions of consoles that share the searcher.
			lines := []string{"a", "b", "zz", "a + b", "b - a", "a - a", "c + c", "c - zz", "zz + c", "a * b", "a + b + c", "", "1"}
			ref.Seqs(len(lines), depth, func(q []int) {
				q = append([]int{}, q...)
				if len(q) == 0 {
					return
				}
				c.Case(func() string {
					var l []string
					for _, i := range q {
						l = append(l, lines[i])
					}
					return fmt.Sprintf("set %d: console lines %q between searches", set, l)
				}, func(k *h.K) {
					s, err := search.New(items(set)...)
					if err != nil {
						k.Fail("new", "%v", err)
						return
					}
					handed, err := all[5].run(s)
					kept := append(search.Neighbors{}, handed...)
					if err != nil {
						k.Fail("result", "%s: %v", all[5].name, err)
						return
					}
					for _, one := range []bool{true, false} {
						in := ""
						for n, i := range q {
							in += lines[i] + "\n"
							if !one && n < len(q)-1 {
								continue
							}
							if err := converse(c.Scratch, s, in); err != nil {
								k.Fail("console", "the console ends with %v", err)
								return
							}
							in = ""
							if !reflect.DeepEqual(append(embedding.Embeddings{}, s.Items...), items(set)) {
								k.Fail("items", "the console line %q changes the stored vectors", lines[i])
								return
							}
						}
						for i, o := range all {
							if g := text(o.run(s)); g != want[i] {
								k.Fail("result", "after the console %s gives %s, on a new searcher %s", o.name, g, want[i])
								return
							}
						}
						if !reflect.DeepEqual(handed, kept) {
							k.Fail("handed", "the console changes the result of an earlier search from %v to %v", kept, handed)
							return
						}
						k.One(len(q), fmt.Sprint(set, q))
					}
				})
			})
			// concurrent searches, every interleaving of the memory accesses.
			pick := [][]int{{0, 0}, {0, 1}, {0, 5}, {5, 7}, {5, 5}, {11, 12}, {4, 0}, {8, 2}, {0, 5, 11}, {0, 1, 2}}
			for _, p := range pick {
				c.Case(func() string { return fmt.Sprintf("set %d: concurrent %v", set, p) }, func(k *h.K) {
					k.Explore(vs.Opts{MaxPreempt: -1, Cache: true, NumPoints: true}, func() any {
						s, err := search.New(items(set)...)
						if err != nil {
							return err.Error()
						}
						done := make(chan int, len(p))
						got := make([]string, len(p))
						for t, i := range p {
							t, i := t, i
							vs.Go(func() {
								got[t] = text(all[i].run(s))
								vs.C(done).Send(t)
							}, "search")
						}
						for range p {
							vs.Recv(done)
						}
						for t, i := range p {
							if got[t] != want[i] {
								return fmt.Sprintf("%s gives %s, alone %s", all[i].name, got[t], want[i])
							}
						}
						for i, o := range all {
							if g := text(o.run(s)); g != want[i] {
								return fmt.Sprintf("afterwards %s gives %s, on a new searcher %s", o.name, g, want[i])
							}
						}
						return ""
					}, func(r vs.Report) (string, string) {
						if m := r.Result.(string); m != "" {
							return "concurrent", m
						}
						for rc := range r.X.Races {
							return "race", "concurrent searches access the same memory, one of them writing: " + rc.A + " / " + rc.B
						}
						return "", ""
					})
				})
			}
		}
	})
}
