//go:build go1.22

// C23: saved vectors load back unchanged.
package main

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/ynqa/wego/pkg/corpus/dictionary"
	"github.com/ynqa/wego/pkg/embedding"
	"github.com/ynqa/wego/pkg/model/modelutil/matrix"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
	"github.com/ynqa/wego/pkg/util/verbose"
	"github.com/ynqa/wego/verifrt/cp"
	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
)

func save(ws []string, rows [][]float64, dim int) (string, error) {
	d := dictionary.New()
	d.Add(ws...)
	m := matrix.New(len(rows), dim, func(r int, v []float64) { copy(v, rows[r]) })
	var b bytes.Buffer
	err := vector.Save(&b, d, m, verbose.New(false), 1000)
	return b.String(), err
}

func trip(ws []string, rows [][]float64, dim int) (key, msg string) {
	text, err := save(ws, rows, dim)
	if err != nil {
		return "save", fmt.Sprintf("saving fails: %v", err)
	}
	lines := strings.Split(text, "\n")
	if len(lines) != len(ws)+1 || lines[len(ws)] != "" {
		return "lines", fmt.Sprintf("%d words are saved as %d lines (%q)", len(ws), len(lines)-1, cp.Clip(text))
	}
	for i, w := range ws {
		l := strings.TrimSuffix(lines[i], " ")
		f := strings.Split(l, " ")
		if f[0] != w || len(f) != dim+1 {
			return "lines", fmt.Sprintf("line %d is %q, want the word %q and %d values", i, cp.Clip(l), cp.Clip(w), dim)
		}
		for j, s := range f[1:] {
			if v, err := strconv.ParseFloat(s, 64); err != nil || v != ref.SixDigits(rows[i][j]) {
				return "value", fmt.Sprintf("value %d of %q is saved as %q, want %f", j, cp.Clip(w), s, rows[i][j])
			}
		}
	}
	embs, err := embedding.Load(strings.NewReader(text))
	if err != nil {
		return "load", fmt.Sprintf("loading the saved text fails: %v", err)
	}
	if len(embs) != len(ws) {
		return "load", fmt.Sprintf("%d words saved, %d loaded", len(ws), len(embs))
	}
	for i, e := range embs {
		if e.Word != ws[i] || e.Dim != dim || len(e.Vector) != dim {
			return "load", fmt.Sprintf("entry %d is %q of dimension %d, want %q of dimension %d", i, cp.Clip(e.Word), e.Dim, cp.Clip(ws[i]), dim)
		}
		for j, v := range e.Vector {
			if v != ref.SixDigits(rows[i][j]) {
				return "value", fmt.Sprintf("value %d of %q is loaded as %g, saved from %g", j, cp.Clip(e.Word), v, rows[i][j])
			}
		}
	}
	return "", ""
}

var vals = []float64{0, 1, -1, 0.5, -0.125, 1e-6, 4.9e-7, 5.1e-7, -5e-7, 1.0000005, 123456.7890125, -99999999.9999999, 1e15, 1e21, -1e100,
	math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.Copysign(0, -1), 1.0 / 3, 0.9999995, 0.99999949}

var words = []string{"a", "b", "-", "+", "1.5", "NaN", "#", "\"q\"", "日本", "é", "a\u200bb", "\ufeffx", "\x00", "\xff\xfe", "%f", "%!d", "\\n", "x=y", "a,b", ".", "0", strings.Repeat("l", 4096), strings.Repeat("m", 65536), strings.Repeat("n", 70001)}

func value(i, j int) float64 {
	v := vals[(i*7+j*3+i*j)%len(vals)]
	if math.Abs(v) > 1e12 && j > 1 {
		return float64(i-j) / 7
	}
	return v
}

func fill(n, dim int) (ws []string, rows [][]float64) {
	for i := 0; i < n; i++ {
		ws = append(ws, ref.Name(i))
		r := make([]float64, dim)
		for j := range r {
			r[j] = value(i, j)
		}
		rows = append(rows, r)
	}
	return
}

func main() {
	h.Main(func(c *h.C) {
		run := func(name string, ws []string, rows [][]float64, dim int) {
			c.Case(func() string { return name }, func(k *h.K) {
				if key, msg := trip(ws, rows, dim); msg != "" {
					k.Fail(key, "%s: %s", name, msg)
				}
				k.One(2*len(ws)*dim, name)
			})
		}
		// all 2x2 matrices, 1x1..1x3 and 3x1.
		nv := 11
		if c.Thorough {
			nv = len(vals)
		}
		for a := range vals[:nv] {
			for b := range vals[:nv] {
				c.Case(func() string { return fmt.Sprintf("matrices that begin with %g %g", vals[a], vals[b]) }, func(k *h.K) {
					for x := range vals[:nv] {
						for y := range vals {
							rows := [][]float64{{vals[a], vals[b]}, {vals[x], vals[y]}}
							if key, msg := trip([]string{"a", "b"}, rows, 2); msg != "" {
								k.Fail(key, "%v: %s", rows, msg)
								return
							}
							k.One(8, fmt.Sprint(rows))
						}
					}
				})
			}
		}
		for _, v := range vals {
			for _, d := range []int{1, 3} {
				rows := [][]float64{{v, -v, v}, {1, v, 2}}
				for i := range rows {
					rows[i] = rows[i][:d]
				}
				run(fmt.Sprintf("value %g in dimension %d", v, d), []string{"x", "y"}, rows, d)
			}
		}
		// every power of two, and numbers next to and between them.
		for lo := -40; lo < 1024; lo += 16 {
			c.Case(func() string { return fmt.Sprintf("numbers from 2^%d", lo) }, func(k *h.K) {
				var row []float64
				for e := lo; e < lo+16 && e < 1024; e++ {
					x := math.Ldexp(1, e)
					for _, v := range []float64{x, math.Nextafter(x, 0), math.Nextafter(x, 2*x), x + math.Ldexp(x, -51), x / 3 * 2, x + math.Ldexp(x, -44), x * 1.1, x * 1.7} {
						if !math.IsInf(v, 0) {
							row = append(row, v, -v)
						}
					}
				}
				if key, msg := trip([]string{"w", "v"}, [][]float64{row, row}, len(row)); msg != "" {
					k.Fail(key, "%s", msg)
				}
				k.One(2*len(row), fmt.Sprint(lo))
			})
		}
		// all vocabularies of up to 3 unusual words.
		for i, a := range words {
			run(fmt.Sprintf("word %q", cp.Clip(a)), []string{a}, [][]float64{{0.25, -3}}, 2)
			for j, b := range words {
				if i == j {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("words %q %q and others", cp.Clip(a), cp.Clip(b)) }, func(k *h.K) {
					if key, msg := trip([]string{a, b}, [][]float64{{1}, {-2.5}}, 1); msg != "" {
						k.Fail(key, "%s", msg)
						return
					}
					for l, d := range words {
						if l == i || l == j || len(a)+len(b)+len(d) > 9000 && !c.Thorough {
							continue
						}
						if key, msg := trip([]string{a, b, d}, [][]float64{{1}, {-2.5}, {0}}, 1); msg != "" {
							k.Fail(key, "%s", msg)
							return
						}
						k.One(6, cp.Clip(a)+cp.Clip(b)+cp.Clip(d))
					}
				})
			}
		}
		// sizes.
		dims, rowsMax := 300, 300
		if c.Thorough {
			dims, rowsMax = 2000, 3000
		}
		for d := 1; d <= dims; d++ {
			ws, rows := fill(1+d%3, d)
			run(fmt.Sprintf("%d words dimension %d", len(ws), d), ws, rows, d)
		}
		for n := 0; n <= rowsMax; n++ {
			ws, rows := fill(n, 1+n%2)
			run(fmt.Sprintf("%d words dimension %d", n, 1+n%2), ws, rows, 1+n%2)
		}
		for _, d := range []int{400, 450, 455, 460, 512, 1000, 1024, 4096, 7270, 7275, 7280, 7281, 7282, 7285, 7290, 7300, 8192, 15000, 30000} {
			ws, rows := fill(2, d)
			for _, r := range rows {
				for j := range r {
					r[j] = float64(j%10) / 8
				}
			}
			run(fmt.Sprintf("2 words dimension %d", d), ws, rows, d)
		}
		// lines of several megabytes.
		for _, d := range []int{240000, 480000, 1000000} {
			ws, rows := fill(2, d)
			for _, r := range rows {
				for j := range r {
					r[j] = float64(j%10) / 8
				}
			}
			run(fmt.Sprintf("2 words dimension %d", d), ws, rows, d)
		}
		run("a word of 9000000 bytes", []string{"a", strings.Repeat("x", 9000000), "b"}, [][]float64{{1}, {2}, {3}}, 1)
		for _, n := range []int{511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 6000, 10000, 65535, 65536, 65537} {
			ws, rows := fill(n, 2)
			run(fmt.Sprintf("%d words dimension 2", n), ws, rows, 2)
		}
		// rows and vocabulary of different size.
		for n := 0; n <= 5; n++ {
			for m := 0; m <= 11; m++ {
				if n == m {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("%d words, %d rows", n, m) }, func(k *h.K) {
					ws, _ := fill(n, 1)
					_, rows := fill(m, 2)
					if _, err := save(ws, rows, 2); err == nil {
						k.Fail("mismatch", "saving %d words with %d rows succeeds", n, m)
					}
					k.One(1, "")
				})
			}
		}
	})
}
