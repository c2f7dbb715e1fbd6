//go:build go1.22

// C25: loading vectors accepts exactly well-formed files.
package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/ynqa/wego/pkg/embedding"
	"github.com/ynqa/wego/pkg/search"
	"github.com/ynqa/wego/verifrt/cp"
	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
)

type entry struct {
	word string
	vec  []float64
}

// parse is the reference: entries, or an error.
func parse(text string) (res []entry, bad string) {
	lines := strings.Split(text, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	for _, l := range lines {
		if strings.HasPrefix(l, " ") {
			continue
		}
		f := ref.Words(l, false)
		if len(f) < 2 {
			return nil, fmt.Sprintf("line %q has no value", l)
		}
		e := entry{word: f[0]}
		for _, s := range f[1:] {
			v, err := strconv.ParseFloat(s, 64)
			if err != nil {
				return nil, fmt.Sprintf("%q is not a number", s)
			}
			e.vec = append(e.vec, v)
		}
		res = append(res, e)
	}
	return res, ""
}

func same(embs embedding.Embeddings, want []entry) string {
	if len(embs) != len(want) {
		return fmt.Sprintf("%d vectors, want %d", len(embs), len(want))
	}
	for i, w := range want {
		e := embs[i]
		if e.Word != w.word {
			return fmt.Sprintf("vector %d belongs to %q, want %q", i, cp.Clip(e.Word), cp.Clip(w.word))
		}
		if e.Dim != len(w.vec) || len(e.Vector) != len(w.vec) {
			return fmt.Sprintf("vector of %q has dimension %d and %d values, want %d", e.Word, e.Dim, len(e.Vector), len(w.vec))
		}
		var s float64
		for j, v := range w.vec {
			if e.Vector[j] != v {
				return fmt.Sprintf("value %d of %q is %g, want %g", j, e.Word, e.Vector[j], v)
			}
			s += v * v
		}
		if !ref.Near(e.Norm, math.Sqrt(s)) {
			return fmt.Sprintf("norm of %q is %g, want %g", e.Word, e.Norm, math.Sqrt(s))
		}
	}
	return ""
}

// load compares one load with the reference.
func load(r *cp.Reader, want []entry, bad string) (key, msg string) {
	embs, err := embedding.Load(r)
	readErr := r.FailRead > 0 && r.Reads >= r.FailRead
	if bad != "" || readErr {
		why := bad
		if readErr {
			why = "reading fails"
		}
		if err == nil {
			return "accepted", fmt.Sprintf("loading reports success (%d vectors) although %s", len(embs), why)
		}
		if len(embs) > 0 {
			return "partial", fmt.Sprintf("loading reports the error %v and returns %d vectors", err, len(embs))
		}
		return "", ""
	}
	if err != nil {
		return "rejected", fmt.Sprintf("loading a well-formed file fails: %v", err)
	}
	if m := same(embs, want); m != "" {
		return "content", m
	}
	if mixed(want) {
		if _, err := search.New(embs...); err == nil {
			return "mixed", "vectors of different dimension are accepted for searching"
		}
	} else if _, err := search.New(embs...); err != nil {
		return "searcher", fmt.Sprintf("vectors of one dimension are refused for searching: %v", err)
	}
	return "", ""
}

func mixed(want []entry) bool {
	for _, w := range want {
		if len(w.vec) != len(want[0].vec) {
			return true
		}
	}
	return false
}

// odd tells whether a line begins with white space other than a blank, about which nothing is specified.
func odd(text string) bool {
	for _, l := range strings.Split(text, "\n") {
		if l != "" && strings.ContainsAny(l[:1], "\t\v\f\r") || strings.HasPrefix(l, "\u00a0") || strings.HasPrefix(l, "\u2003") {
			return true
		}
		if n := strings.TrimSuffix(l, "\r"); strings.HasSuffix(n, "\r") || strings.Contains(n, "\r") {
			return true // bare carriage returns
		}
	}
	return false
}

var pieces = []string{"a", "1", " ", "\n", "x", "-2.5", "\t", "\r\n", "1e400", "\u2003", "é"}

func main() {
	h.Main(func(c *h.C) {
		test := func(k *h.K, text string, deep bool) bool {
			if odd(text) {
				return true
			}
			want, bad := parse(text)
			out := bad
			for i, w := range want {
				if i < 100 {
					out += fmt.Sprint(w.word, w.vec)
				}
			}
			try := func(r *cp.Reader) bool {
				if key, msg := load(r, want, bad); msg != "" {
					k.Fail(key, "file %q (%v): %s", cp.Clip(text), r, msg)
					return false
				}
				k.One(1, out)
				return true
			}
			if !try(&cp.Reader{S: text}) {
				return false
			}
			if !deep {
				return true
			}
			if !try(&cp.Reader{S: text, One: true}) || !try(&cp.Reader{S: text, One: true, EOFLast: true}) || !try(&cp.Reader{S: text, Max: 3, Zero: true}) || !try(&cp.Reader{S: text, EOFLast: true}) {
				return false
			}
			errs, turn := cp.Errs, cp.Mix(text)
			for i := 1; i <= len(text)+1; i++ {
				if !try(&cp.Reader{S: text, One: true, FailRead: i, Err: errs[(turn+i)%len(errs)]}) {
					return false
				}
				if i <= len(text) && !try(&cp.Reader{S: text, One: true, FailRead: i, FailPart: true}) {
					return false
				}
				if !try(&cp.Reader{S: text, Max: 4, FailRead: i, FailPart: i%2 == 0, Err: errs[(turn+i+5)%len(errs)]}) {
					return false
				}
			}
			return true
		}
		n := 5
		if c.Thorough {
			n = 6
		}
		ref.Seqs(len(pieces), 2, func(q []int) {
			q = append([]int{}, q...)
			c.Case(func() string { return fmt.Sprintf("files that begin with pieces %v", q) }, func(k *h.K) {
				base := ""
				for _, i := range q {
					base += pieces[i]
				}
				if len(q) < 2 {
					test(k, base, true)
					return
				}
				ref.Seqs(len(pieces), n-2, func(s []int) {
					if k.Failed() {
						return
					}
					t := base
					for _, i := range s {
						t += pieces[i]
					}
					test(k, t, len(q)+len(s) <= 4)
				})
			})
		})
		// longer files made of whole lines.
		lines := []string{"a 1 2\n", "b -1 0.5 \n", "a 3 4\n", "c 1\n", " skipped\n", " 1 2\n", "d\n", "\n", "e 1 x\n", "f 1e3\t2\r\n", "日本 0 0\n", "g 0x1p-2 1\n", "h 1,5 2\n", "i +1 .5\n"}
		m := 4
		if c.Thorough {
			m = 5
		}
		ref.Seqs(len(lines), 1, func(q []int) {
			if len(q) == 0 {
				return
			}
			first := q[0]
			for second := range lines {
				c.Case(func() string { return fmt.Sprintf("files that begin with lines %q %q", lines[first], lines[second]) }, func(k *h.K) {
					ref.Seqs(len(lines), m-2, func(s []int) {
						if k.Failed() {
							return
						}
						t := lines[first] + lines[second]
						for _, i := range s {
							t += lines[i]
						}
						test(k, t, len(s) == 0)
						test(k, strings.TrimSuffix(t, "\n"), false)
					})
				})
			}
		})
		// line and file sizes across buffer limits.
		for _, size := range []int{4090, 4095, 4096, 4097, 8192, 65530, 65534, 65535, 65536, 65537, 65600, 131071, 131072, 131073, 300000, 1<<20 + 1, 5000000} {
			for _, end := range []string{"", "\n", "\r\n", "\nb 1\n", " \nb 1 2", "\nb x\n"} {
				c.Case(func() string { return fmt.Sprintf("a line of %d bytes followed by %q", size, end) }, func(k *h.K) {
					t := "a" + strings.Repeat(" 1.5", (size-2)/4)
					t += strings.Repeat(" ", size-len(t))
					want, bad := parse(t + end)
					for _, r := range []*cp.Reader{{S: t + end}, {S: t + end, Max: 1000}, {S: t + end, Max: 4096, FailRead: 1}, {S: t + end, Max: 4096, FailRead: len(t) / 4096}, {S: t + end, Max: 4096, FailRead: len(t)/4096 + 1}} {
						if key, msg := load(r, want, bad); msg != "" {
							k.Fail(key, "%v: %s", r, msg)
							return
						}
						k.One(1, fmt.Sprint(size, end))
					}
				})
			}
		}
		// every form of number in every position, and what only looks like one; NaN and infinities are left open.
		forms := []string{"1", "+1", "-0", "1.", ".5", "-.5", "007", "1e5", "1E+5", "1e-5", "0.1e1", "123456789012345678901234567890", "0.1000000000000000055511151231257827", "1e308", "-1.7976931348623157e308", "4.9e-324", "1e-400", "16777217", "9007199254740993", "0.30000000000000004", "0x1p-2",
			"1e309", "-1e999", "1e", "e1", "--1", "+-1", "1-", "1f", "1,5", "1.2.3", "0x", "0b1", "0o7", "1_000", "१", "１", "1e1.5", ".", "-", "+", "1\u200b", "\ufeff1", "1\x00", "one", "1;", "$1", "1%", "()", "0x1"}
		for _, f := range forms {
			c.Case(func() string { return fmt.Sprintf("the value %q", f) }, func(k *h.K) {
				for _, t := range []string{"w F\n", "w F", "w 1 F\n", "w F 2 \n", "v 1\nw F\n", "w F\nv 1\n", "F F\n", "w\tF\r\n", " F\nw 1\n", "F 1\n", "w 0 F F 3\n"} {
					test(k, strings.ReplaceAll(t, "F", f), f == "1" || f == "1e309" || f == "one")
				}
			})
		}
		// all short strings of what numbers are made of.
		all := func(alphabet string, n int) {
			var rec func(k *h.K, s string)
			rec = func(k *h.K, s string) {
				if k.Failed() {
					return
				}
				// whether NaN and infinities are numbers is left open.
				if v, err := strconv.ParseFloat(s, 64); err != nil || v-v == 0 {
					test(k, "w "+s+"\nv 1", false)
				}
				if len(s) < n {
					for i := range alphabet {
						rec(k, s+alphabet[i:i+1])
					}
				}
			}
			for i := range alphabet {
				for j := range alphabet {
					p := alphabet[i:i+1] + alphabet[j:j+1]
					c.Case(func() string { return fmt.Sprintf("values that begin with %q", p) }, func(k *h.K) { rec(k, p) })
				}
			}
		}
		if c.Thorough {
			all("+-.019eEx_p,f", 5)
			all("0x1p-._", 7)
			all("iInNfFaAtTyY+", 4)
		} else {
			all("+-.019eEx_", 4)
			all("0x1p-._", 5)
		}
		// unusual words.
		for _, w := range []string{"#", "#a", "//", "\"a", "\"a\"", "'", "%d", "\\", "-", "1", "1e5", "\ufeff", "\ufeffa", "\u200b", "\u00ad", "\x00", "\x01", "\xff", "\xe2\x80", "a\x00b", "</s>", "日本", "e\u0301", "ſ", "A", "a,b", "a:b", "NaN", "inf"} {
			c.Case(func() string { return fmt.Sprintf("the word %q", w) }, func(k *h.K) {
				for _, t := range []string{"W 1 2\n", "W 1 2", "a 1 2\nW 1 2\na 1 2", "W 1 2\nW 3 4\n", "W\n", "W \n", "a 1\nW", " W 1\na 1\n", "2 2\nW 1 2\na 3 4\n"} {
					test(k, strings.ReplaceAll(t, "W", w), false)
				}
			})
		}
		for _, count := range []int{1, 2, 100, 1000, 5000, 65535, 65536, 65537, 140000, 1100000} {
			c.Case(func() string { return fmt.Sprintf("%d lines", count) }, func(k *h.K) {
				var b strings.Builder
				for i := 0; i < count; i++ {
					fmt.Fprintf(&b, "w%d %d %d.5\n", i, i, -i)
					if i%7 == 3 {
						b.WriteString(" comment\n")
					}
				}
				test(k, b.String(), false)
				test(k, b.String()+"bad\n", false)
				test(k, "bad\n"+b.String(), false)
			})
		}
	})
}
