//go:build go1.22

// C14: the Huffman tree is an optimal prefix code and its paths are shared safely.
package main

import (
	"fmt"
	"sort"

	"github.com/ynqa/wego/pkg/corpus/dictionary"
	"github.com/ynqa/wego/pkg/corpus/dictionary/node"
	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
	"github.com/ynqa/wego/verifrt/vs"
)

func dic(freq []int) *dictionary.Dictionary {
	d := dictionary.New()
	for i := range freq {
		d.Add(ref.Name(i))
	}
	for i, f := range freq {
		for j := 1; j < f; j++ {
			d.Add(ref.Name(i))
		}
	}
	return d
}

// optimum is the least possible sum of frequency times depth.
func optimum(freq []int) int {
	f := append([]int{}, freq...)
	sum := 0
	for len(f) > 1 {
		sort.Ints(f)
		m := f[0] + f[1]
		sum += m
		f = append(f[2:], m)
	}
	return sum
}

// optimumLarge finds the same with two queues.
func optimumLarge(freq []int) int {
	f := append([]int{}, freq...)
	sort.Ints(f)
	var g []int
	sum := 0
	next := func() (x int) {
		if len(g) == 0 || len(f) > 0 && f[0] <= g[0] {
			x, f = f[0], f[1:]
		} else {
			x, g = g[0], g[1:]
		}
		return
	}
	for len(f)+len(g) > 1 {
		m := next() + next()
		sum += m
		g = append(g, m)
	}
	return sum
}

func chain(n *node.Node) []*node.Node {
	var p []*node.Node
	for ; n != nil && len(p) < 100000; n = n.Parent {
		p = append(p, n)
	}
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func show(p []*node.Node, all map[*node.Node]int) []int {
	r := []int{}
	for _, n := range p {
		r = append(r, all[n])
	}
	return r
}

func tree(freq []int, depths []int) (key, msg string, states int) {
	d := dic(freq)
	set := d.HuffnamTree(2)
	if len(set) != len(freq) {
		return "leaves", fmt.Sprintf("%d leaves for %d words", len(set), len(freq)), 0
	}
	if len(set) == 0 {
		return "", "", 1
	}
	children := map[*node.Node]map[*node.Node]bool{}
	num := map[*node.Node]int{}
	var root *node.Node
	cost := 0
	paths := make([][]*node.Node, len(set))
	for i, leaf := range set {
		if leaf == nil {
			return "leaves", fmt.Sprintf("word %d has no leaf", i), 0
		}
		p := chain(leaf)
		paths[i] = p
		if root == nil {
			root = p[0]
		}
		if p[0] != root {
			return "root", "there is more than one root", 0
		}
		for j, n := range p {
			if _, ok := num[n]; !ok {
				num[n] = len(num)
			}
			if j > 0 {
				if children[p[j-1]] == nil {
					children[p[j-1]] = map[*node.Node]bool{}
				}
				children[p[j-1]][n] = true
			}
		}
		cost += freq[i] * (len(p) - 1)
	}
	word := map[*node.Node]int{}
	for i, leaf := range set {
		if len(children[leaf]) > 0 {
			return "leaves", fmt.Sprintf("the leaf of word %d has children", i), 0
		}
		if j, ok := word[leaf]; ok {
			return "leaves", fmt.Sprintf("the words %d and %d share a leaf", j, i), 0
		}
		word[leaf] = i
	}
	for _, ch := range children {
		code := map[int]bool{}
		for c := range ch {
			code[c.Code] = true
		}
		if len(ch) != 2 || !code[0] || !code[1] {
			return "codes", fmt.Sprintf("an inner node has %d children with the codes %v", len(ch), code), 0
		}
	}
	least := optimum
	if len(freq) > 500 {
		least = optimumLarge
	}
	if want := least(freq); len(set) > 1 && cost != want {
		return "optimal", fmt.Sprintf("weighted path length %d, the minimum is %d", cost, want), 0
	}
	for r := 0; r < 2; r++ {
		for i, leaf := range set {
			for _, dep := range depths {
				want := paths[i]
				if dep > 0 && dep < len(want) {
					want = want[:dep]
				}
				got := leaf.GetPath(dep)
				if len(got) != len(want) {
					return "path", fmt.Sprintf("path of word %d to depth %d is %v, want %v", i, dep, show(got, num), show(want, num)), 0
				}
				for j := range got {
					if got[j] != want[j] {
						return "path", fmt.Sprintf("path of word %d to depth %d is %v, want %v", i, dep, show(got, num), show(want, num)), 0
					}
				}
			}
		}
	}
	return "", "", len(num)
}

func main() {
	h.Main(func(c *h.C) {
		run := func(freq []int, depths []int) {
			freq = append([]int{}, freq...)
			c.Case(func() string { return fmt.Sprintf("frequencies %.100s depths %v", fmt.Sprint(freq), depths) }, func(k *h.K) {
				key, msg, n := tree(freq, depths)
				if msg != "" {
					k.Fail(key, "frequencies %.200s: %s", fmt.Sprint(freq), msg)
				}
				k.States(n)
				k.Transitions(2 * len(freq) * len(depths))
				k.Traces(1)
			})
		}
		n, max := 5, 6
		if c.Thorough {
			n, max = 7, 7
		}
		orders := [][]int{{0, 1, 2, 3, 4, 9}, {9, 3, 2, 1, 0, -1}, {2, 0, 2, 1, 100}}
		for l := 0; l <= n; l++ {
			i := 0
			var rec func(cur []int)
			rec = func(cur []int) {
				if len(cur) == l {
					run(cur, orders[i%len(orders)])
					i++
					return
				}
				for f := 1; f <= max; f++ {
					rec(append(cur[:len(cur):len(cur)], f))
				}
			}
			rec(nil)
		}
		sizes := 130
		if c.Thorough {
			sizes = 400
		}
		all := []int{500, 1000, 1024, 1025, 3000, 5000, 20000, 66000}
		if c.Thorough {
			all = append(all, 140000)
		}
		for s := 1; s <= sizes; s++ {
			all = append(all, s)
		}
		for _, s := range all {
			for pat := 0; pat < 5; pat++ {
				if s > 5000 && (pat == 1 || pat == 2) && (!c.Thorough || s > 20000) {
					continue
				}
				f := make([]int, s)
				a, b := 1, 1
				for i := range f {
					switch pat {
					case 0:
						f[i] = 1
					case 1:
						f[i] = i + 1
					case 2:
						f[i] = s - i
					case 3: // deep trees
						f[i] = a
						if i >= 22 && s > 500 {
							f[i] = 1 + i%3
						}
						if i < 22 {
							a, b = b, a+b
						}
					case 4:
						f[i] = 1 + (i*i*7+i)%11
					}
				}
				run(f, []int{0, 1, s / 2, s - 1, s, s + 1, 40})
			}
		}
		// concurrent look-ups: every interleaving of the individual memory accesses.
		type look struct{ leaf, depth int }
		plans := [][][]look{
			{{{0, 0}}, {{0, 0}}},
			{{{0, 1}}, {{0, 0}}},
			{{{0, 0}, {0, 2}}, {{0, 0}}},
			{{{0, 0}}, {{1, 0}}},
			{{{0, 0}, {1, 0}}, {{1, 0}, {0, 0}}},
			{{{0, 2}, {0, 0}}, {{0, 0}, {0, 2}}},
			{{{0, 0}}, {{0, 0}}, {{0, 0}}},
			{{{0, 0}}, {{0, 1}}, {{1, 0}}},
		}
		for _, freq := range [][]int{{1, 1}, {1, 2, 3}, {1, 1, 1, 1}, {5, 1, 2, 1}} {
			for pi, plan := range plans {
				c.Case(func() string { return fmt.Sprintf("frequencies %v concurrent look-ups %v", freq, plan) }, func(k *h.K) {
					pre := -1
					if len(plan) > 2 || pi > 3 {
						pre = 3
						if c.Thorough {
							pre = 5
						}
					}
					k.Explore(vs.Opts{MaxPreempt: pre, Cache: true, NumPoints: true}, func() any {
						set := dic(freq).HuffnamTree(1)
						done := make(chan int, len(plan))
						bad := make([]string, len(plan))
						for t, ls := range plan {
							t, ls := t, ls
							vs.Go(func() {
								for _, l := range ls {
									want := chain(set[l.leaf])
									if l.depth > 0 && l.depth < len(want) {
										want = want[:l.depth]
									}
									got := set[l.leaf].GetPath(l.depth)
									ok := len(got) == len(want)
									for j := 0; ok && j < len(got); j++ {
										ok = got[j] == want[j]
									}
									if !ok {
										bad[t] = fmt.Sprintf("goroutine %d: path of word %d to depth %d has %d nodes, want %d, or they differ", t, l.leaf, l.depth, len(got), len(want))
									}
								}
								vs.C(done).Send(t)
							}, fmt.Sprintf("look-up %d", t))
						}
						for range plan {
							vs.Recv(done)
						}
						for l := range set {
							if g, w := set[l].GetPath(0), chain(set[l]); len(g) != len(w) {
								bad[0] += fmt.Sprintf(" afterwards the path of word %d has %d nodes, want %d", l, len(g), len(w))
							}
						}
						for _, b := range bad {
							if b != "" {
								return b
							}
						}
						return ""
					}, func(r vs.Report) (string, string) {
						if s := r.Result.(string); s != "" {
							return "concurrent", s
						}
						for rc := range r.X.Races {
							if !rc.Numeric {
								return "race", "look-ups race: " + rc.A + " / " + rc.B
							}
						}
						return "", ""
					})
				})
			}
		}
	})
}
