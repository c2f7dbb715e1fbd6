//go:build go1.22

// C02: disk-backed and in-memory corpora are equivalent.
package main

import (
	"fmt"
	"io"
	"slices"
	"strings"

	"github.com/ynqa/wego/pkg/corpus"
	"github.com/ynqa/wego/verifrt/cp"
	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
)

type conf struct {
	lower    bool
	min, max int
	window   int
	count    string
	batch    int
}

// same compares what both corpora make of one text.
func same(k *h.K, s string, cf conf, mk func() io.ReadSeeker) {
	m, err1 := cp.Load(true, mk(), cf.lower, cf.max, cf.min, cf.window, cf.count)
	d, err2 := cp.Load(false, mk(), cf.lower, cf.max, cf.min, cf.window, cf.count)
	bad := func(f string, a ...any) {
		k.Fail("differs", "%q with %+v: %s", cp.Clip(s), cf, fmt.Sprintf(f, a...))
	}
	if (err1 == nil) != (err2 == nil) {
		bad("memory fails with %v, disk with %v", err1, err2)
		return
	}
	if err1 != nil {
		k.One(1, "error")
		return
	}
	r := ref.NewCorpus(s, cf.lower, cf.max, cf.min)
	state := func() bool {
		if m.Len() != d.Len() || m.Len() != len(r.Words) {
			bad("length %d in memory, %d from disk", m.Len(), d.Len())
			return false
		}
		md, dd := m.Dictionary(), d.Dictionary()
		if md.Len() != dd.Len() {
			bad("vocabulary of %d words in memory, %d from disk", md.Len(), dd.Len())
			return false
		}
		for id := 0; id < md.Len(); id++ {
			a, _ := md.Word(id)
			b, _ := dd.Word(id)
			i, ok := dd.ID(a)
			if a != b || i != id || !ok || md.IDFreq(id) != dd.IDFreq(id) || md.WordFreq(a) != dd.WordFreq(a) {
				bad("word %d is %q (%d times) in memory, %q (%d times) from disk", id, a, md.IDFreq(id), b, dd.IDFreq(id))
				return false
			}
		}
		if cf.window >= 0 {
			a, e1 := cp.Cooc(m)
			b, e2 := cp.Cooc(d)
			if e1 != nil || e2 != nil {
				bad("%v %v", e1, e2)
				return false
			}
			if x := cp.SameCooc(b, a); x != "" {
				bad("co-occurrence from disk, compared with memory: %s", x)
				return false
			}
		}
		return true
	}
	if !state() {
		return
	}
	md := m.Dictionary()
	for pass := 0; pass < 2; pass++ {
		a, _ := cp.Tokens(m, true, 0, 0)
		b, err := cp.Tokens(d, false, cf.batch, m.Len())
		if err != nil || !slices.Equal(a, b) {
			bad("training tokens %v in memory, %v from disk in pass %d (%v)", a, b, pass, err)
			return
		}
		// reading the text changes nothing.
		if !state() {
			return
		}
		if pass == 0 {
			k.One(m.Len(), fmt.Sprint(a, md.Len(), cf.count, cf.window))
		}
	}
	var _ corpus.Corpus = m
}

func main() {
	h.Main(func(c *h.C) {
		names := []string{"a", "A", "b", "c"}
		max := 5
		if c.Thorough {
			max = 7
		}
		ref.Seqs(len(names), max, func(q []int) {
			var ws []string
			for _, i := range q {
				ws = append(ws, names[i])
			}
			s := strings.Join(ws, " ")
			c.Case(func() string { return "text " + s }, func(k *h.K) {
				for _, lower := range []bool{false, true} {
					for _, lim := range [][2]int{{-1, -1}, {0, 0}, {2, -1}, {-1, 1}, {2, 2}, {1, 2}, {3, 1}} {
						for window := -1; window <= len(q)+2; window++ {
							window := window
							if window == len(q)+2 {
								window = 1 << 62
							}
							for _, count := range []string{"inc", "prox", "bad"} {
								if window < 0 && count != "inc" {
									continue
								}
								if window != 1 && count == "bad" {
									continue
								}
								same(k, s, conf{lower, lim[0], lim[1], window, count, 1 + (window+1)&3}, func() io.ReadSeeker { return strings.NewReader(s) })
								if k.Failed() {
									return
								}
							}
						}
					}
				}
			})
		})
		// unusual bytes and chunked delivery.
		pieces := []string{"a", "É", "é", " ", "\u2003", "\n", "\xff", "İ", "\xe2\x80"}
		max = 5
		if c.Thorough {
			max = 6
		}
		ref.Seqs(len(pieces), max, func(q []int) {
			q = append([]int(nil), q...)
			get := func() string {
				s := ""
				for _, i := range q {
					s += pieces[i]
				}
				return s
			}
			c.Case(func() string { return fmt.Sprintf("text %q", get()) }, func(k *h.K) {
				s := get()
				for v := 0; v < 2; v++ {
					same(k, s, conf{v == 1, -1, -1, 2, "prox", 2}, func() io.ReadSeeker { return &cp.Reader{S: s, One: v == 1} })
				}
			})
		})
		// sizes across buffer limits and batch sizes.
		for _, words := range []int{100, 1365, 1366, 1367, 2000, 21845, 21846, 21847} {
			for _, step := range []int{0, 1000, 4096} {
				for _, window := range []int{1, 5, 11} {
					c.Case(func() string { return fmt.Sprintf("%d words step %d window %d", words, step, window) }, func(k *h.K) {
						var b strings.Builder
						for i := 0; i < words; i++ {
							b.WriteString([]string{"ab ", "cd\n", "EF ", "Ab\t", "gh "}[(i*i+i/7)%5])
						}
						for _, batch := range []int{1, 7, 4096, words - 1, words, words + 1} {
							for _, min := range []int{-1, words / 5} {
								same(k, b.String(), conf{batch == 7, min, -1, window, "prox", batch}, func() io.ReadSeeker { return &cp.Reader{S: b.String(), Max: step} })
							}
						}
					})
				}
			}
		}
	})
}
