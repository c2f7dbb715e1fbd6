//go:build go1.22

// C28: the console evaluates each line independently and reports every failure.
package main

import (
	"fmt"
	"math"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/ynqa/wego/pkg/embedding"
	"github.com/ynqa/wego/pkg/search"
	"github.com/ynqa/wego/pkg/search/console"
	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
)

type item struct {
	word string
	vec  []float64
}

type line struct {
	text string
	kind byte // w: word, s: sum or difference, x: neither, e: exit, b: empty, ?: only independence
	x, y string
	op   byte
}

func word(w string) line { return line{text: w, kind: 'w', x: w} }
func two(x string, op byte, y string) line {
	return line{text: fmt.Sprintf("%s %c %s", x, op, y), kind: 's', x: x, y: y, op: op}
}
func bad(s string) line   { return line{text: s, kind: 'x'} }
func alone(s string) line { return line{text: s, kind: '?'} }

var sets = [][]item{
	{{"a", []float64{1, 0}}, {"b", []float64{0.9, 0.3}}, {"c", []float64{0.2, 1}}, {"d", []float64{-1, 0.5}}, {"é", []float64{0.5, 0.55}}, {"_x1", []float64{0.1, -0.7}}},
	{{"zeta", []float64{0.3, 0.1, -0.2}}, {"d", []float64{-0.3, -0.1, 0.5}}, {"b", []float64{1, 2, 3.5}}, {"a", []float64{-1, 2, 0.25}}, {"Word", []float64{5, -2, 1}},
		{"c", []float64{0, 0, 1}}, {"é", []float64{0, 1, 0}}, {"w7", []float64{1, 1, 1}}, {"w8", []float64{1, 1.5, -1}}, {"w9", []float64{-3, -1, -1}}, {"w10", []float64{0.01, 0.02, 0.01}}, {"w11", []float64{100, 3, 77}}, {"w12", []float64{-5, 3, 9}}},
	{{"a", []float64{2}}},
	{{"b", []float64{0.5, 1}}, {"a", []float64{0, 0}}, {"c", []float64{1, 0.1}}},
	{{"1", []float64{1.03, 0.51}}, {"quit", []float64{0.31, 0.97}}, {"a", []float64{0.73, 0.19}}, {"2", []float64{1.01, 1.09}}, {"f(a)", []float64{2.07, 1.33}}, {"exit", []float64{0.11, 0.23}}, {"b", []float64{0.43, 0.91}}, {"q", []float64{-1.07, 0.53}}, {"\"a\"", []float64{1.13, 3.01}}, {"help", []float64{3.11, 1.17}}, {"nil", []float64{3.07, 2.23}}},
}

var scratch string

func main() {
	os.Setenv("TERM", "dumb")
	// a console that never ends must not fill the disk.
	lim := syscall.Rlimit{Cur: 64 << 20, Max: 64 << 20}
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
	h.Main(func(c *h.C) {
		scratch = c.Scratch
		full := []line{
			word("a"), word("b"), word("c"), word("é"), word("zz"), word("A"), word("_"),
			two("a", '+', "b"), two("a", '-', "b"), two("b", '-', "a"), two("a", '-', "a"), two("b", '+', "b"), two("c", '+', "é"), two("d", '-', "c"),
			word("a_"), word("_a"), word("aa"), word("ab"), word("a1"), word("ä"), two("a_", '+', "b"), two("b", '-', "a_"), two("_a", '-', "b"), two("b", '+', "aa"),
			two("a", '+', "zz"), two("zz", '-', "a"), two("zz", '+', "yy"), two("zz", '-', "zz"),
			word("quit"), word("q"), word("help"), word("nil"), word("Exit"), word("bye"), word("clear"), word("history"), word("true"), word("len"), word("C"), two("quit", '+', "q"), two("nil", '-', "help"), bad("quit + 1"), bad("1 + 2"), bad("f(a) + b"), bad("b - 1"), bad("1 - \"a\""), bad("a + \"a\""), bad("\\q"), bad(":q"), bad(":wq"), bad("?"),
			bad("a * b"), bad("a / b"), bad("a + b + c"), bad("a - b - c"), bad("a +"), bad("+ a"), bad("- a"), bad("1"), bad("a b"), bad("a , b"), bad("a + 1"), bad("1 + a"), bad("1 + 2"),
			bad(`"a"`), bad("f(a)"), bad("a == b"), bad("a && b"), bad("a.b"), bad("a[0]"), bad("!a"), bad("func"), bad("a + +"), bad("@#$"), bad("a + (b - c)"), bad("a & b"), bad("a << b"), bad("a = b"), bad("a := b"), bad("a + b c"), bad("'a'"), bad("zz * a"), bad("zz + a + b"),
			bad("a | b"), bad("a ^ b"), bad("a % b"), bad("a &^ b"), bad("a >> b"), bad("a || b"), bad("a != b"), bad("a < b"), bad("a <= b"), bad("a > b"), bad("a >= b"), bad("a -- b"), bad("a ++ b"), bad("a += b"),
			bad("-a + b"), bad("a + -b"), bad("a + !b"), bad("a + &b"), bad("a - *b"), bad("a() + b"), bad("a + b()"), bad("a + b.c"), bad("a[b] + c"), bad("a - b[0]"), bad("a + \"b\""), bad("func() {}"), bad("[]a{}"), bad("a{} + b"), bad("a, b + c"),
			alone("(a)"), alone("a+b"), alone(" a"), alone("a "), alone(" exit"), alone("exit + a"), alone("EXIT"), alone(" "), alone("\t"), alone("a // b"), alone("a;"), alone("a + (b)"), alone("(a + b)"), alone("\x00"), alone("\xff"),
			{text: "", kind: 'b'}, {text: "exit", kind: 'e'},
		}
		few := []line{word("a"), word("b"), word("zz"), two("a", '+', "b"), two("a", '-', "a"), two("c", '-', "b"), two("a", '+', "zz"), two("zz", '+', "b"), bad("a * b"), bad("a +"), bad("1"), {text: "", kind: 'b'}, {text: "exit", kind: 'e'}, bad("a + b + c")}
		short := 4
		if c.Thorough {
			short = 5
		}
		for s := range sets {
			for _, k := range []int{10, 1, 2, 3, 0, -1, 100, 1<<63 - 1} {
				for i := range full {
					c.Case(func() string { return fmt.Sprintf("words %s k=%d line %q first", names(s), k, full[i].text) }, func(x *h.K) {
						session(x, s, k, []line{full[i]})
						if k != 10 && k != 2 {
							return
						}
						for _, l := range full {
							session(x, s, k, []line{full[i], l})
						}
					})
				}
				if k != 10 && k != 2 {
					continue
				}
				for i := range few {
					for j := range few {
						c.Case(func() string {
							return fmt.Sprintf("words %s k=%d lines %q %q first", names(s), k, few[i].text, few[j].text)
						}, func(x *h.K) {
							ref.Seqs(len(few), short-2, func(q []int) {
								if len(q) == 0 {
									return
								}
								ls := []line{few[i], few[j]}
								for _, y := range q {
									ls = append(ls, few[y])
								}
								session(x, s, k, ls)
							})
						})
					}
				}
			}
			// input that cannot be read.
			for b := range broken {
				c.Case(func() string { return fmt.Sprintf("words %s, the input is %s", names(s), broken[b].name) }, func(x *h.K) {
					cut(x, s, 3, b, nil)
					if b < 3 {
						return
					}
					for _, l := range full {
						cut(x, s, 3, b, []line{l})
					}
					ref.Seqs(len(few), 3, func(q []int) {
						var ls []line
						for _, y := range q {
							ls = append(ls, few[y])
							if few[y].kind == 'e' {
								break
							}
						}
						cut(x, s, 3, b, ls)
					})
				})
			}
			// long lines.
			for _, n := range []int{100, 255, 256, 257, 1023, 1025, 4095, 4096, 4097, 10000, 65535, 65536, 65537, 200000} {
				if n > 70000 && !c.Thorough && s > 0 {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("words %s, lines of %d characters", names(s), n) }, func(x *h.K) {
					blank, long := strings.Repeat(" ", n), strings.Repeat("a", n)
					sum := two("a", '+', "b")
					sum.text = "a " + blank + "+ b"
					dif := two("b", '-', "a")
					dif.text = "b - " + blank + "a"
					// what follows the blanks counts.
					rest := bad("a + b" + blank + "* a")
					for _, l := range []line{word(long), sum, dif, rest, two("a", '+', long), two(long, '-', "b"), bad("a" + blank + "b")} {
						session(x, s, 3, []line{word("a"), l, two("a", '+', "b"), word("b")})
					}
				})
			}
			// a long session.
			c.Case(func() string { return fmt.Sprintf("words %s, every line three times", names(s)) }, func(x *h.K) {
				var ls []line
				for i := 0; i < 3; i++ {
					for _, l := range full {
						if l.kind != 'e' {
							ls = append(ls, l)
						}
					}
				}
				session(x, s, 3, ls)
			})
		}
	})
}

func names(s int) string {
	var w []string
	for _, i := range sets[s] {
		w = append(w, i.word)
	}
	return strings.Join(w, ",")
}

func searcher(s int) *search.Searcher {
	var b strings.Builder
	for _, i := range sets[s] {
		b.WriteString(i.word)
		for _, v := range i.vec {
			fmt.Fprintf(&b, " %f", v)
		}
		b.WriteString("\n")
	}
	embs, err := embedding.Load(strings.NewReader(b.String()))
	if err != nil {
		panic(err)
	}
	sr, err := search.New(embs...)
	if err != nil {
		panic(err)
	}
	return sr
}

var input *os.File

// broken are inputs that deliver the text, if they can, and then fail on every read.
var broken = []struct {
	name string
	open func(text string) *os.File
}{
	{"a directory", func(string) *os.File { return must(os.Open(scratch)) }},
	{"a file that is only open for writing", func(string) *os.File {
		return must(os.OpenFile(scratch+"/only-write", os.O_CREATE|os.O_WRONLY, 0600))
	}},
	{"a file that is closed", func(string) *os.File { f := must(os.Open(scratch)); f.Close(); return f }},
	{"a pipe that fails after the lines", func(text string) *os.File {
		var p [2]int
		if err := syscall.Pipe(p[:]); err != nil {
			panic(err)
		}
		if _, err := syscall.Write(p[1], []byte(text)); err != nil {
			panic(err)
		}
		// the writing end stays open: an empty pipe is not at its end, it has nothing to read.
		writers = append(writers, p[1])
		f := os.NewFile(uintptr(p[0]), "pipe")
		syscall.SetNonblock(p[0], true)
		return f
	}},
}

var writers []int

func must(f *os.File, err error) *os.File {
	if err != nil {
		panic(err)
	}
	return f
}

// cut runs lines and then a failing input.
func cut(x *h.K, s, k, b int, lines []line) {
	text := ""
	for _, l := range lines {
		text += l.text + "\n"
	}
	in := broken[b].open(text)
	defer func() {
		in.Close()
		for _, w := range writers {
			syscall.Close(w)
		}
		writers = nil
	}()
	want := ""
	if len(lines) > 0 {
		empty, err := raw(s, k, nil)
		if err != nil {
			x.Fail("session", "a session without lines ends with the error %v", err)
			return
		}
		for _, l := range lines {
			o, ok := fresh(x, s, k, l, empty)
			if !ok {
				return
			}
			want += o
		}
	}
	got, err := rawFrom(in, s, k)
	ended := len(lines) > 0 && lines[len(lines)-1].kind == 'e'
	switch {
	case ended && err != nil:
		x.Fail("input", "the console ends with the error %v after exit", err)
	case !ended && err == nil:
		x.Fail("input", "%s: the console reports success although its input cannot be read", broken[b].name)
	case !strings.HasPrefix(got, want):
		x.Fail("history", "%s: the lines %s print\n%s\none by one they print\n%s", broken[b].name, show(lines), clip(got), clip(want))
	}
	x.One(len(lines)+1, fmt.Sprint(s, k, b, lines))
}

// raw runs the lines in a new console.
func raw(s, k int, lines []line) (string, error) { return rawEnds(s, k, lines, "\n", true) }

// rawEnds runs the lines, which end with end, the last one only if last is set.
func rawEnds(s, k int, lines []line, end string, last bool) (string, error) {
	if input == nil {
		var err error
		if input, err = os.CreateTemp(scratch, "stdin"); err != nil {
			panic(err)
		}
	}
	input.Truncate(0)
	input.Seek(0, 0)
	var text strings.Builder
	for i, l := range lines {
		text.WriteString(l.text)
		if i < len(lines)-1 || last {
			text.WriteString(end)
		}
	}
	input.WriteString(text.String())
	input.Seek(0, 0)
	return rawFrom(input, s, k)
}

func rawFrom(in *os.File, s, k int) (string, error) {
	stdin := os.Stdin
	os.Stdin = in
	defer func() { os.Stdin = stdin }()
	var err error
	out := h.Capture(scratch, func() {
		var c *console.Console
		if c, err = console.New(searcher(s), k); err != nil {
			return
		}
		err = c.Run()
	})
	return address.ReplaceAllString(out, "0x"), err
}

var (
	address = regexp.MustCompile(`0x[0-9a-f]+`)

	memo = map[string]string{}
	row  = regexp.MustCompile(`(?m)^\s*(\d+)\s*\|\s*(\S+)\s*\|\s*([-+\d.eNaIinf]+)\s*$`)
	head = regexp.MustCompile(`(?mi)^\s*RANK\s*\|\s*WORD\s*\|\s*SIMILARITY\s*$|^[-+\s]*$`)
)

// fresh is the output of one line in a console of its own, without what an empty session prints at the end.
func fresh(x *h.K, s, k int, l line, empty string) (string, bool) {
	key := fmt.Sprint(s, k, l.text)
	if o, ok := memo[key]; ok {
		return o, true
	}
	o, err := raw(s, k, []line{l})
	if err != nil {
		x.Fail("session", "the console ends with the error %v after the line %q", err, l.text)
		return "", false
	}
	if l.kind == 'e' {
		memo[key] = o
		return o, true
	}
	if !strings.HasSuffix(o, empty) {
		x.Fail("session", "the line %q gives %q, an empty session %q", l.text, o, empty)
		return "", false
	}
	o = o[:len(o)-len(empty)]
	if msg := judge(s, k, l, strings.TrimPrefix(o, empty)); msg != "" {
		x.Fail("line", "the line %.200q: %s; output %.1500q", l.text, msg, o)
		return "", false
	}
	memo[key] = o
	return o, true
}

type near struct {
	word string
	sim  float64
}

// judge compares the output of one line with the statement.
func judge(s, k int, l line, out string) string {
	rows := row.FindAllStringSubmatch(out, -1)
	find := func(w string) []float64 {
		for _, i := range sets[s] {
			if i.word == w {
				return i.vec
			}
		}
		return nil
	}
	failure := func() string {
		if len(rows) > 0 {
			return "a result is printed, although it is no valid query"
		}
		if strings.TrimSpace(head.ReplaceAllString(out, "")) == "" {
			return "no error message is printed"
		}
		return ""
	}
	var q []float64
	switch l.kind {
	case '?':
		return ""
	case 'b':
		if strings.TrimSpace(strings.ReplaceAll(out, ">>", "")) != "" {
			return "an empty line prints something"
		}
		return ""
	case 'x':
		return failure()
	case 'w':
		if q = find(l.x); q == nil {
			return failure()
		}
	case 's':
		a, b := find(l.x), find(l.y)
		if a == nil || b == nil {
			return failure()
		}
		for i := range a {
			if l.op == '+' {
				q = append(q, a[i]+b[i])
			} else {
				q = append(q, a[i]-b[i])
			}
		}
	}
	var want []near
	for _, i := range sets[s] {
		if i.word == l.x || i.word == l.y {
			continue
		}
		if c := ref.Cosine(q, i.vec); c > 0 {
			want = append(want, near{i.word, c})
		}
	}
	sort.SliceStable(want, func(i, j int) bool { return want[i].sim > want[j].sim })
	all := want
	if len(want) > max(k, 0) {
		want = want[:max(k, 0)]
	}
	if len(rows) != len(want) {
		return fmt.Sprintf("%d words are listed, want %v", len(rows), want)
	}
	seen := map[string]bool{}
	for i, r := range rows {
		sim, err := strconv.ParseFloat(r[3], 64)
		ok := false
		for _, w := range all {
			ok = ok || w.word == r[2] && math.Abs(w.sim-sim) <= 1e-6 // words of equal similarity come in any order
		}
		if r[1] != fmt.Sprint(i+1) || !ok || seen[r[2]] || err != nil || math.Abs(sim-want[i].sim) > 1e-6 {
			return fmt.Sprintf("row %d is %q, want %v", i+1, r[0], want[i])
		}
		seen[r[2]] = true
	}
	return ""
}

func session(x *h.K, s, k int, lines []line) {
	if x.Failed() {
		return
	}
	empty, ok := memo[fmt.Sprint("empty", s, k)]
	if !ok {
		o, err := raw(s, k, nil)
		if err != nil {
			x.Fail("session", "a session without lines ends with the error %v", err)
			return
		}
		empty = o
		memo[fmt.Sprint("empty", s, k)] = o
	}
	want := ""
	ended := false
	for _, l := range lines {
		o, ok := fresh(x, s, k, l, empty)
		if !ok {
			return
		}
		if !ended {
			want += o
		}
		ended = ended || l.kind == 'e'
	}
	if !ended {
		want += empty
	}
	got, err := raw(s, k, lines)
	if err != nil {
		x.Fail("session", "the console ends with the error %v after %s", err, show(lines))
		return
	}
	if got != want {
		x.Fail("history", "the lines %s print\n%s\none by one they print\n%s", show(lines), clip(got), clip(want))
		return
	}
	if len(lines) == 1 || len(lines) == 2 {
		for _, end := range []string{"\n", "\r\n"} {
			for _, last := range []bool{false, true} {
				if end == "\n" && last || lines[len(lines)-1].text == "" {
					continue
				}
				if got, err := rawEnds(s, k, lines, end, last); err != nil || got != want {
					x.Fail("ends", "the lines %s, with ends %q (last line ended: %v), print\n%s\none by one they print\n%s (error %v)", show(lines), end, last, clip(got), clip(want), err)
					return
				}
			}
		}
	}
	x.One(len(lines), fmt.Sprint(s, k, lines))
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

func show(ls []line) string {
	var r []string
	for _, l := range ls {
		r = append(r, fmt.Sprintf("%.200q", l.text))
	}
	return strings.Join(r, ", ")
}
