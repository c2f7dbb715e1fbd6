//go:build go1.22

// C29: command-line runs never destroy files and leave output only on success.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/spf13/cobra"

	"github.com/ynqa/wego/cmd/model/glove"
	"github.com/ynqa/wego/cmd/model/lexvec"
	"github.com/ynqa/wego/cmd/model/word2vec"
	"github.com/ynqa/wego/cmd/query"
	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
	"github.com/ynqa/wego/verifrt/vs"
)

const nobody = 65534

var (
	bin, scratch string
	unprivileged bool
	nrun         int
	models       = []string{"word2vec", "glove", "lexvec"}
)

// common keeps runs short.
var common = []string{"--min-count", "0", "--iter", "1", "--goroutines", "2", "-d", "3", "-w", "2", "--batch", "4"}

func main() {
	h.Main(func(c *h.C) {
		bin, scratch = c.Bin, c.Scratch
		if bin == "" {
			panic("no -bin")
		}
		os.Chmod(scratch, 0o711)
		probe := exec.Command(bin, "--help")
		probe.SysProcAttr = credential()
		var p *os.PathError
		if err := probe.Run(); err == nil || !errors.As(err, &p) {
			unprivileged = true
		} else {
			c.Text("containment", "the commands could not be run as another user: "+err.Error())
		}
		single(c)
		faults(c)
		queries(c)
		histories(c)
		together(c)
		injected(c)
	})
}

func credential() *syscall.SysProcAttr {
	return &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
}

// W is a directory in which commands run.
type W struct {
	k   *h.K
	dir string
}

func newW(k *h.K) *W {
	nrun++
	w := &W{k, filepath.Join(scratch, fmt.Sprintf("w%d", nrun))}
	if err := os.Mkdir(w.dir, 0o755); err != nil {
		panic(err)
	}
	w.own("")
	return w
}

func (w *W) path(p string) string { return filepath.Join(w.dir, p) }

func (w *W) own(p string) {
	if unprivileged {
		os.Lchown(w.path(p), nobody, nobody)
	}
}

func (w *W) mkdir(p string, mode os.FileMode) {
	if err := os.Mkdir(w.path(p), 0o755); err != nil {
		panic(err)
	}
	w.own(p)
	os.Chmod(w.path(p), mode)
}

func (w *W) write(p, content string, mode os.FileMode) {
	if err := os.WriteFile(w.path(p), []byte(content), 0o644); err != nil {
		panic(err)
	}
	w.own(p)
	os.Chmod(w.path(p), mode)
}

func (w *W) remove() {
	filepath.Walk(w.dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() {
			os.Chmod(p, 0o755)
		}
		return nil
	})
	os.RemoveAll(w.dir)
}

// tree is everything in the directory.
func (w *W) tree() map[string]string {
	t := map[string]string{}
	filepath.Walk(w.dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(w.dir, p)
		switch {
		case fi.IsDir():
			t[rel] = "directory"
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			t[rel] = "link to " + l
		case fi.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			t[rel] = "file " + string(b)
		default:
			t[rel] = fi.Mode().String()
		}
		return nil
	})
	return t
}

type result struct {
	code     int
	out, err string
	late     bool
}

func (r result) String() string {
	return fmt.Sprintf("exit status %d, %q", r.code, clip(r.err, 160))
}

// run runs wego; limit is put before it in a shell, if there is one.
func (w *W) run(stdin, limit string, args ...string) result {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	var cmd *exec.Cmd
	if limit == "" {
		cmd = exec.CommandContext(ctx, bin, args...)
	} else {
		cmd = exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", limit + `; exec "$0" "$@"`, bin}, args...)...)
	}
	cmd.Dir = w.dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + w.dir, "TMPDIR=" + w.dir, "TERM=dumb"}
	if unprivileged {
		cmd.SysProcAttr = credential()
	}
	if stdin != "" {
		cmd.Stdin = strings.NewReader(stdin)
	}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.WaitDelay = time.Second
	err := cmd.Run()
	r := result{out: out.String(), err: errb.String(), late: ctx.Err() != nil}
	if err != nil {
		r.code = cmd.ProcessState.ExitCode()
		if r.code == 0 {
			r.code = -2
		}
	}
	if limit == "" && crash.MatchString(r.err) {
		w.k.Fail("crash", "wego %.200q crashes: %s", args, clip(r.err, 300))
	}
	return r
}

// crash matches what the Go runtime says when a program panics.
var crash = regexp.MustCompile(`(?ms)^(panic|fatal error): .*^goroutine \d+ `)

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type row struct {
	word string
	vec  []float64
}

// vectors reads a saved file.
func vectors(text string) (rows []row, msg string) {
	if text == "" {
		return nil, ""
	}
	if !strings.HasSuffix(text, "\n") {
		return nil, "the last line has no end"
	}
	for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		f := strings.Split(strings.TrimSuffix(l, " "), " ")
		r := row{word: f[0]}
		for _, s := range f[1:] {
			v, err := strconv.ParseFloat(s, 64)
			if err != nil || math.IsNaN(v) || math.IsInf(v, 0) {
				return nil, fmt.Sprintf("the line %q is malformed", clip(l, 80))
			}
			r.vec = append(r.vec, v)
		}
		rows = append(rows, r)
	}
	return
}

// wellFormed compares a saved file with the corpus.
func wellFormed(text, corpus string, lower bool, dim int) string {
	rows, msg := vectors(text)
	if msg != "" {
		return msg
	}
	rc := ref.NewCorpus(corpus, lower, -1, 0)
	if len(rows) != len(rc.Dic) {
		return fmt.Sprintf("%d lines for %d words", len(rows), len(rc.Dic))
	}
	for i, r := range rows {
		if r.word != rc.Dic[i] {
			return fmt.Sprintf("line %d is for %q, want %q", i+1, r.word, rc.Dic[i])
		}
		if len(r.vec) != dim {
			return fmt.Sprintf("line %d has %d values, want %d", i+1, len(r.vec), dim)
		}
	}
	return ""
}

var corpora = []string{
	"a b c a b d e a b c",
	"The quick, brown fox -- the\tlazy\n\ndog. The dog? ünïcode Ünïcode 世界 the\n",
	"",
	" \n\t ",
	"one",
	strings.Repeat("w", 70000) + " x " + strings.Repeat("w", 70000) + " y",
}

// training is one invocation of a training command.
type training struct {
	model string
	in    string // what is at the input path
	out   string // what is at the output path
	opts  []string
	valid bool // the options are in order
	lower bool
	dim   int
	limit string
}

func (t training) String() string {
	return fmt.Sprintf("%s input: %s, output: %s, options %q %s", t.model, clip(t.in, 40), t.out, t.opts, t.limit)
}

// do runs the training in a new directory and compares what it leaves.
func do(k *h.K, t training) (saved string) {
	if k.Failed() {
		return
	}
	w := newW(k)
	defer w.remove()
	in, out := "in.txt", "out.txt"
	input := true
	corpus := t.in
	stdin := ""
	switch t.in {
	case "missing":
		input = false
	case "directory":
		w.mkdir("in.txt", 0o755)
		input = false
	case "unreadable":
		w.write("in.txt", corpora[0], 0)
		input = false
	case "in a missing directory":
		in, input = "nodir/in.txt", false
	case "read-only":
		w.mkdir("ro", 0o755)
		w.write("ro/in.txt", corpora[0], 0o444)
		os.Chmod(w.path("ro"), 0o555)
		in, corpus = "ro/in.txt", corpora[0]
	case "pipe":
		stdin, in, corpus = corpora[0], "/dev/stdin", corpora[0]
	default:
		w.write("in.txt", t.in, 0o644)
	}
	output := true
	switch t.out {
	case "absent":
	case "in missing directories":
		out = "x/y/out.txt"
	case "in a directory":
		w.mkdir("x", 0o755)
		out = "./x/../x/out.txt"
	case "file":
		w.write("out.txt", "precious\n", 0o644)
		output = false
	case "empty file":
		w.write("out.txt", "", 0o644)
		output = false
	case "read-only file":
		w.write("out.txt", "precious\n", 0o444)
		output = false
	case "large file":
		w.write("out.txt", strings.Repeat("a 0.1 0.2 0.3\n", 2000), 0o600)
		output = false
	case "directory":
		w.mkdir("out.txt", 0o755)
		output = false
	case "full directory":
		w.mkdir("out.txt", 0o755)
		w.write("out.txt/precious", "precious", 0o644)
		output = false
	case "below a file":
		w.write("x", "precious", 0o644)
		out, output = "x/out.txt", false
	case "read-only directory":
		w.mkdir("x", 0o555)
		out, output = "x/out.txt", false
	case "link to a file":
		w.write("precious", "precious", 0o644)
		os.Symlink("precious", w.path("out.txt"))
		output = false
	case "input":
		out = in
		if input || t.in == "directory" || t.in == "unreadable" {
			output = false
		}
	case "device":
		out, output = "/dev/full", false
	case "no name":
		out, output = "", false
	case "default":
		in, out = "example/input.txt", "example/word_vectors.txt"
		w.mkdir("example", 0o755)
		w.write(in, t.in, 0o644)
	case "default, there is one":
		in, out, output = "example/input.txt", "example/word_vectors.txt", false
		w.mkdir("example", 0o755)
		w.write(in, t.in, 0o644)
		w.write(out, "precious", 0o644)
	default:
		panic(t.out)
	}
	w.write("other.txt", "something else\n", 0o644)
	before := w.tree()
	args := append([]string{t.model, "-i", in, "-o", out}, common...)
	if strings.HasPrefix(t.out, "default") {
		args = append(args[:1:1], common...)
	}
	prof := strings.Contains(fmt.Sprint(t.opts), "--prof")
	r := w.run(stdin, t.limit, append(args, t.opts...)...)
	after := w.tree()
	if strings.HasPrefix(t.limit, "ulimit -n") && strings.HasPrefix(r.err, "runtime: ") {
		k.Note("limits too low for the Go runtime (left out)", 1)
		return
	}
	if r.late {
		k.Fail("end", "the command does not come to an end: %v", t)
		return
	}
	key := filepath.Clean(out)
	content, exists := after[key]
	for p, c := range before {
		if after[p] != c {
			k.Fail("destroyed", "%v: %s was %q and is %q afterwards (%v)", t, p, clip(c, 60), clip(after[p], 60), r)
			return
		}
	}
	_, existed := before[key]
	for p, c := range after {
		if _, ok := before[p]; ok || c == "directory" {
			continue
		}
		if p != key && !(p == "cpu.prof" && prof) {
			k.Fail("left", "%v: the file %s is left (%v)", t, p, r)
			return
		}
	}
	must := input && output && t.valid
	if r.code == 0 && !must && t.in != "pipe" {
		k.Fail("status", "%v: the command succeeds (%q)", t, r.err)
		return
	}
	if r.code != 0 && must && t.limit == "" && t.in != "pipe" {
		k.Fail("status", "%v: the command fails: %v", t, r)
		return
	}
	if r.code != 0 {
		if exists && !existed {
			k.Fail("left", "%v: the command fails (%v) and leaves %q", t, r, clip(content, 100))
		}
		k.One(1, fmt.Sprint(t, r.code))
		return
	}
	saved, ok := strings.CutPrefix(content, "file ")
	if !ok {
		k.Fail("missing", "%v: the command succeeds and leaves %q as its output", t, clip(content, 100))
		return
	}
	if msg := wellFormed(saved, corpus, t.lower, t.dim); msg != "" {
		k.Fail("content", "%v: the command succeeds, but in its output %s: %q", t, msg, clip(saved, 200))
		return
	}
	k.One(1, fmt.Sprint(t, r.code))
	return saved
}

type option struct {
	args  []string
	valid bool
	only  string
}

var options = []option{
	{nil, true, ""},
	{[]string{"--in-memory"}, true, ""},
	{[]string{"--to-lower"}, true, ""},
	{[]string{"--verbose", "--log-batch", "1"}, true, ""},
	{[]string{"--vec-type", "agg"}, true, ""},
	{[]string{"--vec-type", "single"}, true, ""},
	{[]string{"--iter", "0"}, true, ""},
	{[]string{"--goroutines", "7"}, true, ""},
	{[]string{"--min-count", "100"}, true, ""},
	{[]string{"--max-count", "1"}, true, ""},
	{[]string{"--model", "skipgram", "--optimizer", "hs"}, true, "word2vec"},
	{[]string{"--model", "cbow", "--optimizer", "ns"}, true, "word2vec"},
	{[]string{"--solver", "adagrad", "--cnt", "prox"}, true, "glove"},
	{[]string{"--rel", "logco"}, true, "lexvec"},
	{[]string{"--vec-type", "sum"}, false, ""},
	{[]string{"--vec-type", ""}, false, ""},
	{[]string{"--vec-type", "Single"}, false, ""},
	{[]string{"-d", "0"}, false, ""},
	{[]string{"-d", "-3"}, false, ""},
	{[]string{"-d", "three"}, false, ""},
	{[]string{"-w", "0"}, false, ""},
	{[]string{"--goroutines", "0"}, false, ""},
	{[]string{"--goroutines", "-1"}, false, ""},
	{[]string{"--batch", "0"}, false, "word2vec"}, // GloVe has no use for it
	{[]string{"--batch", "-1"}, false, "lexvec"},
	{[]string{"--verbose", "--log-batch", "0"}, false, ""},
	{[]string{"--no-such-flag"}, false, ""},
	{[]string{"--iter"}, false, ""},
	{[]string{"--initlr", "x"}, false, ""},
	{[]string{"--update-lr-batch", "0"}, false, "word2vec"},
	{[]string{"--model", "bow"}, false, "word2vec"},
	{[]string{"--optimizer", "sgd"}, false, "word2vec"},
	{[]string{"--solver", "adam"}, false, "glove"},
	{[]string{"--cnt", "dec"}, false, "glove"},
	{[]string{"--rel", "npmi"}, false, "lexvec"},
	{[]string{"--update-lr-batch", "-5"}, false, "lexvec"},
	// what a command has and another does not.
	{[]string{"--solver", "sgd"}, false, "word2vec"},
	{[]string{"--optimizer", "ns"}, false, "glove"},
	{[]string{"--model", "cbow"}, false, "lexvec"},
}

// single runs every training command once, with everything that can be in its way.
func single(c *h.C) {
	ins := append([]string{"read-only", "missing", "directory", "in a missing directory", "pipe"}, corpora...)
	outs := []string{"absent", "in missing directories", "in a directory", "file", "empty file", "read-only file", "large file", "directory", "full directory",
		"below a file", "link to a file", "input", "device", "no name"}
	if unprivileged {
		ins = append(ins, "unreadable")
		outs = append(outs, "read-only directory")
	}
	for _, m := range models {
		for _, o := range options {
			if o.only != "" && o.only != m {
				continue
			}
			t := training{model: m, opts: o.args, valid: o.valid, dim: 3, lower: strings.Contains(strings.Join(o.args, " "), "lower")}
			for _, in := range ins {
				c.Case(func() string {
					return fmt.Sprintf("one command: %s %q input %q, every output", m, o.args, clip(in, 40))
				}, func(k *h.K) {
					for _, out := range outs {
						t.in, t.out = in, out
						do(k, t)
					}
				})
			}
		}
		// pairs of options.
		for i, a := range options {
			c.Case(func() string { return fmt.Sprintf("one command: %s %q with another option", m, a.args) }, func(k *h.K) {
				for j, b := range options {
					if i == j || a.only != "" && a.only != m || b.only != "" && b.only != m || overlap(a.args, b.args) || !k.Thorough() && (i+j)%3 != 0 {
						continue
					}
					args := append(append([]string{}, a.args...), b.args...)
					s := strings.Join(args, " ")
					valid := a.valid && b.valid
					if strings.Contains(s, "--batch ") && strings.Contains(s, "--in-memory") {
						continue // the batch size does not matter
					}
					do(k, training{model: m, opts: args, valid: valid, dim: 3, lower: strings.Contains(s, "lower"), in: corpora[0], out: "absent"})
				}
			})
		}
		c.Case(func() string { return fmt.Sprintf("one command: %s, default files, profile", m) }, func(k *h.K) {
			for _, in := range corpora {
				for _, out := range []string{"default", "default, there is one"} {
					do(k, training{model: m, valid: true, dim: 3, in: in, out: out})
				}
			}
			for _, out := range []string{"absent", "file", "input"} {
				do(k, training{model: m, valid: true, dim: 3, in: corpora[0], out: out, opts: []string{"--prof"}})
				do(k, training{model: m, dim: 3, in: corpora[0], out: out, opts: []string{"--prof", "-w", "0"}})
			}
		})
		c.Case(func() string { return fmt.Sprintf("one command: %s, the profile is its input or output", m) }, func(k *h.K) {
			const precious = "a b c a b precious\n"
			for _, at := range []string{"cpu.prof", "./cpu.prof", "x/../cpu.prof", "link", "hard link", "linked", "absolute"} {
				for _, part := range []string{"input", "output", "new output"} {
					for _, opts := range [][]string{nil, {"--in-memory"}, {"-w", "0"}} {
						w := newW(k)
						w.mkdir("x", 0o755)
						w.write("in.txt", corpora[0], 0o644)
						in, out, file := "in.txt", "out.txt", at
						prof := "cpu.prof"
						if at == "linked" { // the name of the profile leads to the other file.
							file, prof = "precious.txt", "precious.txt"
						}
						if part != "new output" {
							w.write(prof, precious, 0o644)
						} else if strings.Contains(at, "link") {
							w.remove()
							continue
						}
						switch at {
						case "link":
							os.Symlink("cpu.prof", w.path(file))
						case "hard link":
							os.Link(w.path("cpu.prof"), w.path(file))
						case "linked":
							os.Symlink(file, w.path("cpu.prof"))
						case "absolute":
							file = w.path("cpu.prof")
						}
						if part == "input" {
							in = file
						} else {
							out = file
						}
						before := w.tree()
						r := w.run("", "", append(append([]string{m, "-i", in, "-o", out, "--prof"}, common...), opts...)...)
						after := w.tree()
						what := fmt.Sprintf("%s --prof %q, %s %s", m, opts, part, at)
						for p, c := range before {
							if after[p] != c {
								k.Fail("destroyed", "%s: %s was %q and is %q afterwards (%v)", what, p, clip(c, 60), clip(after[p], 60), r)
							}
						}
						if part == "output" && r.code == 0 {
							k.Fail("status", "%s: the command succeeds", what)
						}
						if content, ok := strings.CutPrefix(after[filepath.Base(out)], "file "); part != "output" && ok != (r.code == 0) {
							k.Fail("left", "%s: %v, the output is %q", what, r, clip(content, 100))
						} else if part != "output" && ok {
							corpus := corpora[0]
							if part == "input" {
								corpus = precious
							}
							if msg := wellFormed(content, corpus, false, 3); msg != "" {
								k.Fail("content", "%s: the command succeeds, but in its output %s: %q", what, msg, clip(content, 200))
							}
						}
						w.remove()
						k.One(1, fmt.Sprint(what, r.code))
						if k.Failed() {
							return
						}
					}
				}
			}
		})
		for _, d := range []int{1, 2, 10, 101, 1500} {
			c.Case(func() string { return fmt.Sprintf("one command: %s -d %d", m, d) }, func(k *h.K) {
				for _, typ := range []string{"single", "agg"} {
					for _, in := range corpora {
						do(k, training{model: m, opts: []string{"-d", fmt.Sprint(d), "--vec-type", typ}, valid: true, dim: d, in: in, out: "absent"})
					}
				}
			})
		}
	}
}

// overlap tells whether two lists of arguments set the same flag, or one of them ends in the middle.
func overlap(a, b []string) bool {
	for _, x := range a {
		for _, y := range b {
			if strings.HasPrefix(x, "-") && x == y {
				return true
			}
		}
	}
	return len(a) == 1 && a[0] == "--iter"
}

// faults limits the size of files and the number of open files: every limit up to what is needed.
func faults(c *h.C) {
	for _, m := range models {
		for _, d := range []int{3, 40, 400} {
			for _, typ := range []string{"single", "agg"} {
				for _, trap := range []string{"trap '' XFSZ; ", ""} {
					c.Case(func() string {
						return fmt.Sprintf("write faults: %s -d %d --vec-type %s, limit on the size of files %s", m, d, typ, trap)
					}, func(k *h.K) {
						t := training{model: m, in: corpora[0], out: "absent", opts: []string{"-d", fmt.Sprint(d), "--vec-type", typ}, valid: true, dim: d}
						for n := 0; n < 100 && !k.Failed(); n++ {
							t.limit = fmt.Sprintf("%sulimit -f %d", trap, n)
							if s := do(k, t); s != "" {
								if len(s) > n*512 {
									k.Note("limits that did not strike", 1)
								}
								k.Note("write faults", n)
								return
							}
						}
						if !k.Failed() {
							k.Fail("status", "%v: fails however large files may be", t)
						}
					})
				}
			}
		}
		for _, mem := range []bool{true, false} {
			c.Case(func() string { return fmt.Sprintf("limit on open files: %s in memory %v", m, mem) }, func(k *h.K) {
				t := training{model: m, in: corpora[0], out: "absent", valid: true, dim: 3}
				if mem {
					t.opts = []string{"--in-memory"}
				}
				for n := 3; n < 30; n++ {
					t.limit = fmt.Sprintf("ulimit -n %d", n)
					do(k, t)
					t.out = "file"
					do(k, t)
					t.out = "absent"
				}
			})
		}
	}
}

var (
	tableRow = regexp.MustCompile(`(?m)^\s*(\d+)\s*\|\s*(\S+)\s*\|\s*([-+\d.eNaIinf]+)\s*$`)
)

// listed compares the table of the query command with the reference ranking.
func listed(out string, rows []row, word string, k int) string {
	var q []float64
	for _, r := range rows {
		if r.word == word {
			q = r.vec
			break
		}
	}
	type near struct {
		word string
		sim  float64
	}
	var want []near
	for _, r := range rows {
		if r.word == word {
			continue
		}
		if s := ref.Cosine(q, r.vec); s > 0 {
			want = append(want, near{r.word, s})
		}
	}
	sort.SliceStable(want, func(i, j int) bool { return want[i].sim > want[j].sim })
	n := min(max(k, 0), len(want))
	got := tableRow.FindAllStringSubmatch(out, -1)
	if len(got) != n {
		return fmt.Sprintf("%d words are listed, want %d", len(got), n)
	}
	seen := map[string]bool{}
	for i, g := range got {
		sim, err := strconv.ParseFloat(g[3], 64)
		if g[1] != fmt.Sprint(i+1) || err != nil || math.Abs(sim-want[i].sim) > 1e-6 {
			return fmt.Sprintf("row %d is %q, want %v", i+1, g[0], want[i])
		}
		ok := false
		for _, w := range want {
			ok = ok || w.word == g[2] && math.Abs(w.sim-sim) < 1e-6
		}
		if !ok || seen[g[2]] {
			return fmt.Sprintf("row %d is %q, want %v", i+1, g[0], want[i])
		}
		seen[g[2]] = true
	}
	return ""
}

// query runs the query command.
func (w *W) query(file, word string, rank *int) (result, []string) {
	args := []string{"query", "-i", file}
	if rank != nil {
		args = append(args, "-r", fmt.Sprint(*rank))
	}
	args = append(args, word)
	return w.run("", "", args...), args
}

func rankOf(r *int) int {
	if r == nil {
		return 10
	}
	return *r
}

func queries(c *h.C) {
	num := func(n int) *int { return &n }
	ranks := []*int{nil, num(1), num(2), num(3), num(100), num(1 << 40), num(math.MaxInt), num(0), num(-1)}
	// what the training commands leave.
	for _, m := range models {
		for _, in := range corpora[:2] {
			for _, typ := range []string{"single", "agg"} {
				c.Case(func() string { return fmt.Sprintf("%s --vec-type %s %q, then query every word", m, typ, clip(in, 40)) }, func(k *h.K) {
					saved := do(k, training{model: m, in: in, out: "absent", opts: []string{"--vec-type", typ}, valid: true, dim: 3})
					if k.Failed() {
						return
					}
					rows, _ := vectors(saved)
					w := newW(k)
					defer w.remove()
					w.write("v.txt", saved, 0o644)
					for _, r := range rows {
						if strings.HasPrefix(r.word, "-") {
							continue // an option
						}
						for _, rank := range ranks {
							res, args := w.query("v.txt", r.word, rank)
							if res.code != 0 || res.late {
								k.Fail("query", "%q after %s: %v", args, m, res)
								return
							}
							if msg := listed(res.out, rows, r.word, rankOf(rank)); msg != "" {
								k.Fail("query", "%q after %s: %s; vectors %q, output %q", args, m, msg, saved, res.out)
								return
							}
							k.One(1, fmt.Sprint(args, saved))
						}
					}
				})
			}
		}
	}
	// given files.
	var many strings.Builder
	for i := 0; i < 60; i++ {
		fmt.Fprintf(&many, "w%d %f %f \n", i, float64((i*37+5)%61)/61-0.3, float64((i*17+9)%59)/59)
	}
	good := []string{
		"a 1 0\nb 0.9 0.3\nc 0.2 1\nd -1 0.5\n",
		"a 1 0 \nb 0.9 0.3 \nc 0.2 1 \nd -1 0.5 ",
		"a 0 0\nb 1 1\nc 2 2.5\n",
		"a 1\n",
		"A 1 2\na 1 2.5\n,. 1 3\n|| 1 4\nü 2 2\n世 3 1\na-b 1 2.25\n",
		many.String(),
	}
	for _, text := range good {
		c.Case(func() string { return fmt.Sprintf("query %q", clip(text, 60)) }, func(k *h.K) {
			w := newW(k)
			defer w.remove()
			w.write("v.txt", text, 0o444)
			rows, _ := vectors(strings.TrimSuffix(text, "\n") + "\n")
			for _, rank := range ranks {
				for _, r := range append(rows, row{"zz", nil}, row{"", nil}, row{"w", nil}) {
					res, args := w.query("v.txt", r.word, rank)
					if r.vec == nil {
						if res.code == 0 || tableRow.MatchString(res.out) {
							k.Fail("query", "%q: the word is not there, but %v, output %q", args, res, res.out)
							return
						}
						continue
					}
					if res.code != 0 || res.late {
						k.Fail("query", "%q: %v", args, res)
						return
					}
					if msg := listed(res.out, rows, r.word, rankOf(rank)); msg != "" {
						k.Fail("query", "%q: %s; vectors %q, output %q", args, msg, clip(text, 200), res.out)
						return
					}
					k.One(1, fmt.Sprint(args, text))
				}
			}
			if after := w.tree(); after["v.txt"] != "file "+text || len(after) != 2 {
				k.Fail("destroyed", "queries leave %q", after)
			}
		})
	}
	// failures: of the query command and of the console.
	bad := []string{"", " a 1 0\n", "a 1 0\nb 0.9\n", "a 1 x\n", "a\n", "a 1 2\nb\n", "a 1 2\nb 1 2 3\n"}
	for i, text := range append(bad, "missing", "directory", "unreadable") {
		if text == "unreadable" && !unprivileged {
			continue
		}
		c.Case(func() string { return fmt.Sprintf("query and console with a bad file %q", text) }, func(k *h.K) {
			w := newW(k)
			defer w.remove()
			switch text {
			case "missing":
			case "directory":
				w.mkdir("v.txt", 0o755)
			case "unreadable":
				w.write("v.txt", good[0], 0)
			default:
				w.write("v.txt", text, 0o644)
			}
			before := w.tree()
			for _, args := range [][]string{{"query", "-i", "v.txt", "a"}, {"query", "-i", "v.txt", "-r", "3", "b"}, {"console", "-i", "v.txt"}, {"console", "-i", "v.txt", "-r", "2"}} {
				res := w.run("a\na + b\nexit\n", "", args...)
				if res.code == 0 || res.late || tableRow.MatchString(res.out) {
					k.Fail("query", "%q with the file %q: %v, output %q", args, text, res, res.out)
					return
				}
				k.One(1, fmt.Sprint(args, i))
			}
			if fmt.Sprint(w.tree()) != fmt.Sprint(before) {
				k.Fail("destroyed", "queries leave %q", w.tree())
			}
		})
	}
	for _, args := range [][]string{{"query", "-i", "v.txt"}, {"query", "-i", "v.txt", "a", "b"}, {"query", "-i", "v.txt", "-r", "x", "a"}, {"query", "-i", "v.txt", "--no-such-flag", "a"},
		{"query", "a"}, {"console"}, {"console", "-i", "v.txt", "-r", "x"}, {}, {"no-such-command"}, {"train", "-i", "v.txt", "-o", "out.txt"}, {"glove"}, {"word2vec"}, {"lexvec"}} {
		c.Case(func() string { return fmt.Sprintf("wrong use %q", args) }, func(k *h.K) {
			w := newW(k)
			defer w.remove()
			w.write("v.txt", good[0], 0o644)
			res := w.run("", "", args...)
			if res.code == 0 || res.late || tableRow.MatchString(res.out) {
				k.Fail("status", "%q: %v, output %q", args, res, res.out)
				return
			}
			if t := w.tree(); len(t) != 2 || t["v.txt"] != "file "+good[0] {
				k.Fail("left", "%q leaves %q", args, t)
			}
			k.One(1, fmt.Sprint(args))
		})
	}
	for _, text := range good {
		c.Case(func() string { return fmt.Sprintf("console %q", clip(text, 60)) }, func(k *h.K) {
			w := newW(k)
			defer w.remove()
			w.write("v.txt", text, 0o444)
			rows, _ := vectors(strings.TrimSuffix(text, "\n") + "\n")
			// the default file.
			w.mkdir("example", 0o755)
			w.write("example/word_vectors.txt", text, 0o644)
			if res := w.run("", "", "query", rows[0].word); res.code != 0 || listed(res.out, rows, rows[0].word, 10) != "" {
				k.Fail("query", "query without a file: %v, output %q", res, res.out)
				return
			}
			for _, rank := range ranks {
				for _, end := range []string{"exit\n", "", "exit\nb\n"} {
					args := []string{"console", "-i", "v.txt"}
					if rank != nil {
						args = append(args, "-r", fmt.Sprint(*rank))
					}
					res := w.run(rows[0].word+"\n"+end, "", args...)
					if res.code != 0 || res.late {
						k.Fail("console", "%q: %v", args, res)
						return
					}
					if msg := listed(res.out, rows, rows[0].word, rankOf(rank)); msg != "" && (rows[0].word == "a" || rows[0].word == "w0") {
						k.Fail("console", "%q: %s; vectors %q, output %q", args, msg, clip(text, 200), res.out)
						return
					}
					k.One(1, fmt.Sprint(args, end, text))
				}
			}
		})
	}
}

// histories runs every sequence of commands in one directory and compares it with a model of the files.
func histories(c *h.C) {
	type op struct {
		name string
		args []string
		out  string // output, if the command is a training
		ok   bool
		dim  int
		low  bool
		in   string
	}
	tr := func(name, model, in, out string, ok bool, dim int, lower bool, opts ...string) op {
		args := append([]string{model, "-i", in, "-o", out}, common...)
		return op{name, append(append(args, "-d", fmt.Sprint(dim)), opts...), out, ok, dim, lower, in}
	}
	ops := []op{
		tr("word2vec to o1", "word2vec", "in.txt", "o1", true, 2, false),
		tr("glove to o1", "glove", "in.txt", "o1", true, 3, false),
		tr("lexvec to o2", "lexvec", "in.txt", "o2", true, 4, true, "--to-lower"),
		tr("invalid word2vec to o1", "word2vec", "in.txt", "o1", false, 2, false, "--vec-type", "no"),
		tr("invalid lexvec to o2", "lexvec", "in.txt", "o2", false, 4, false, "--rel", "no"),
		tr("glove from o1 to o3", "glove", "o1", "o3", true, 2, false),
		tr("word2vec from o2 to o2", "word2vec", "o2", "o2", true, 2, false),
		{name: "query o1", args: []string{"query", "-i", "o1", "b"}},
		{name: "console o2", args: []string{"console", "-i", "o2"}},
		{name: "delete o1"},
	}
	n := 3
	if c.Thorough {
		n = 4
	}
	for i := range ops {
		for j := range ops {
			c.Case(func() string {
				return fmt.Sprintf("histories of %d commands: %s, %s, ...", n, ops[i].name, ops[j].name)
			}, func(k *h.K) {
				ref.Seqs(len(ops), n-2, func(q []int) {
					if len(q) != n-2 || k.Failed() {
						return
					}
					w := newW(k)
					defer w.remove()
					in := "b a c a b d A b"
					w.write("in.txt", in, 0o644)
					model := map[string]string{".": "directory", "in.txt": "file " + in}
					for _, o := range append([]int{i, j}, q...) {
						o := ops[o]
						if o.name == "delete o1" {
							os.Remove(w.path("o1"))
							delete(model, "o1")
							continue
						}
						var r result
						if o.args[0] == "console" {
							r = w.run("b\nexit\n", "", o.args...)
						} else {
							r = w.run("", "", o.args...)
						}
						if r.late {
							k.Fail("end", "%s does not come to an end", o.name)
							return
						}
						src, have := model[o.in]
						_, there := model[o.out]
						want := o.ok && have && !there
						if o.out == "" {
							src, want = model[o.args[2]], model[o.args[2]] != ""
						}
						if (r.code == 0) != want {
							k.Fail("status", "%s: %v, but it should succeed: %v; files before %q", o.name, r, want, model)
							return
						}
						src = strings.TrimPrefix(src, "file ")
						now := w.tree()
						if want && o.out != "" {
							f, ok := strings.CutPrefix(now[o.out], "file ")
							msg := "there is no file"
							if ok {
								msg = wellFormed(f, src, o.low, o.dim)
							}
							if msg != "" {
								k.Fail("content", "%s succeeds, but in its output %s: %q", o.name, msg, clip(f, 200))
								return
							}
							model[o.out] = now[o.out]
						} else if want {
							rows, _ := vectors(src)
							if msg := listed(r.out, rows, "b", 10); msg != "" {
								k.Fail("query", "%s: %s; vectors %q, output %q", o.name, msg, src, r.out)
								return
							}
						}
						if fmt.Sprint(now) != fmt.Sprint(model) {
							k.Fail("destroyed", "%s (%v) leaves %q, want %q", o.name, r, now, model)
							return
						}
					}
					k.One(n, fmt.Sprint(i, j, q))
				})
			})
		}
	}
}

// together explores two commands that run at the same time, with every file operation a scheduling point.
func together(c *h.C) {
	mk := map[string]func() *cobra.Command{"word2vec": word2vec.New, "glove": glove.New, "lexvec": lexvec.New}
	type side struct {
		model string
		opts  []string
		dim   int
	}
	variants := []struct {
		name string
		opts []string
	}{{"valid", nil}, {"invalid", []string{"--vec-type", "no"}}, {"rejected", []string{"-w", "0"}}}
	o := vs.Opts{MaxPreempt: 2, Deviate: true, Cache: true, MaxSteps: 200000}
	if c.Thorough {
		o.MaxPreempt = 3
	}
	for i, a := range models {
		for _, b := range models[i+1:] {
			for _, va := range variants {
				for _, vb := range variants {
					for _, out := range []string{"out.txt", "x/out.txt"} {
						for _, same := range []bool{true, false} {
							if !same && (va.name != "valid" || vb.name != "valid") {
								continue
							}
							sides := []side{{a, va.opts, 2}, {b, vb.opts, 3}}
							c.Case(func() string {
								return fmt.Sprintf("at the same time: %s (%s) and %s (%s) to %s (the same: %v), departures<=%d", a, va.name, b, vb.name, out, same, o.MaxPreempt)
							}, func(k *h.K) {
								dir := filepath.Join(scratch, "together")
								text := "b a b"
								outs := [2]string{filepath.Join(dir, out), filepath.Join(dir, out)}
								if !same {
									outs[1] += "2"
								}
								body := func() any {
									os.RemoveAll(dir)
									os.Mkdir(dir, 0o755)
									os.WriteFile(filepath.Join(dir, "in.txt"), []byte(text), 0o644)
									var errs [2]error
									for i, s := range sides {
										vs.Go(func() {
											cmd := mk[s.model]()
											cmd.SilenceUsage, cmd.SilenceErrors = true, true
											cmd.SetOut(io.Discard)
											cmd.SetErr(io.Discard)
											cmd.SetArgs(append([]string{"-i", filepath.Join(dir, "in.txt"), "-o", outs[i], "--in-memory", "--min-count", "0", "--iter", "0", "--goroutines", "1", "-d", fmt.Sprint(s.dim), "-w", "1"}, s.opts...))
											errs[i] = cmd.Execute()
										}, s.model)
									}
									vs.Quiesce()
									return errs
								}
								k.Explore(o, body, func(r vs.Report) (string, string) {
									errs := r.Result.([2]error)
									files := [2]string{}
									for i := range outs {
										files[i] = "none"
										if b, err := os.ReadFile(outs[i]); err == nil {
											files[i] = "file " + string(b)
										}
									}
									k.Outcome(fmt.Sprint(errs[0] == nil, errs[1] == nil, files[0] == "none", files[1] == "none"))
									if b, err := os.ReadFile(filepath.Join(dir, "in.txt")); err != nil || string(b) != text {
										return "destroyed", fmt.Sprintf("the input is %q afterwards", b)
									}
									good := 0
									for i, s := range sides {
										if errs[i] != nil {
											continue
										}
										good++
										if s.opts != nil {
											return "status", s.model + " succeeds with invalid options"
										}
										f, ok := strings.CutPrefix(files[i], "file ")
										if !ok {
											return "missing", fmt.Sprintf("%s succeeds, but there is no output (the other: %v)", s.model, errs[1-i])
										}
										if msg := wellFormed(f, text, false, s.dim); msg != "" {
											return "content", fmt.Sprintf("%s succeeds, but in its output %s: %q", s.model, msg, clip(f, 200))
										}
									}
									switch {
									case same && good == 2:
										return "status", "both commands succeed with the same output"
									case same && good == 0 && files[0] != "none":
										return "left", fmt.Sprintf("both commands fail and leave %q", files[0])
									case same && good == 0 && sides[0].opts == nil && sides[1].opts == nil:
										return "status", fmt.Sprintf("both commands fail: %v, %v", errs[0], errs[1])
									case !same && good < 2:
										return "status", fmt.Sprintf("a command fails: %v, %v", errs[0], errs[1])
									}
									return "", ""
								})
							})
						}
					}
				}
			}
		}
	}
}

// injected makes every file operation of a command fail, and every pair of them. A file that was written loses
// its second half when closing or flushing it fails, as a full or remote disk does.
func injected(c *h.C) {
	mk := map[string]func() *cobra.Command{"word2vec": word2vec.New, "glove": glove.New, "lexvec": lexvec.New, "query": query.New}
	fault := errors.New("input/output error")
	for _, m := range append([]string{"query"}, models...) {
		for _, opts := range [][]string{nil, {"--vec-type", "no"}, {"-w", "0"}, {"--in-memory", "--vec-type", "agg"}} {
			for _, out := range []string{"absent", "file", "nested"} {
				for _, text := range []string{"b a b", ""} {
					if m == "query" && (out != "absent" || opts != nil || text == "") {
						continue
					}
					c.Case(func() string {
						return fmt.Sprintf("failing file operations: %s %q output %s text %q", m, opts, out, text)
					}, func(k *h.K) {
						dir := filepath.Join(scratch, "injected")
						in, dst := filepath.Join(dir, "in.txt"), filepath.Join(dir, "out.txt")
						if m == "query" {
							text = "a 1 2\nb 2 1\n"
						}
						if out == "nested" {
							dst = filepath.Join(dir, "x/y/out.txt")
						}
						// once runs the command with the operations first and second failing, and tells how many operations there were.
						once := func(first, second int) (count int, msg string) {
							os.RemoveAll(dir)
							os.Mkdir(dir, 0o755)
							os.WriteFile(in, []byte(text), 0o644)
							if out == "file" {
								os.WriteFile(dst, []byte("precious"), 0o644)
							}
							var err error
							var hit []string
							kept := false
							vs.SysCount = 0
							vs.SysHook = func(n int, name string, file any) (error, bool) {
								if n != first && n != second {
									return nil, true
								}
								hit = append(hit, name)
								if strings.HasPrefix(name, "Remove") {
									kept = true // nothing can be done then
								}
								f, _ := file.(*os.File)
								if f == nil || name != "Close" && name != "Sync" {
									return fault, false
								}
								if fi, err := f.Stat(); err == nil && f.Name() == dst && fi.Size() > 0 {
									os.Truncate(dst, fi.Size()/2)
								}
								return fault, true
							}
							r := k.Once(vs.Opts{MaxSteps: 1000000}, func() any {
								cmd := mk[m]()
								cmd.SilenceUsage, cmd.SilenceErrors = true, true
								cmd.SetOut(io.Discard)
								cmd.SetErr(io.Discard)
								if m == "query" {
									cmd.SetArgs([]string{"-i", in, "a"})
									h.StartCapture(scratch)
									err = cmd.Execute()
									return h.EndCapture()
								}
								cmd.SetArgs(append([]string{"-i", in, "-o", dst, "--min-count", "0", "--iter", "1", "--goroutines", "1", "-d", "2"}, opts...))
								err = cmd.Execute()
								return ""
							})
							count, vs.SysHook = vs.SysCount, nil
							what := fmt.Sprintf("%s with failing %v", m, hit)
							if b := h.Bad(r); b != "" {
								return count, what + ": " + b
							}
							now := "none"
							if b, err := os.ReadFile(dst); err == nil {
								now = "file " + string(b)
							}
							k.Outcome(fmt.Sprint(m, hit, err == nil, now))
							k.Note("file operations made to fail", len(hit))
							if b, err := os.ReadFile(in); err != nil || string(b) != text {
								return count, fmt.Sprintf("%s: the input is %q afterwards", what, b)
							}
							switch {
							case m == "query":
								if table := listed(r.Result.(string), []row{{"a", []float64{1, 2}}, {"b", []float64{2, 1}}}, "a", 10); err == nil && table != "" {
									return count, fmt.Sprintf("%s succeeds: %s", what, table)
								} else if err != nil && len(hit) == 0 {
									return count, fmt.Sprintf("%s fails: %v", what, err)
								}
							case out == "file":
								if now != "file precious" {
									return count, fmt.Sprintf("%s: the file that was there is %q afterwards", what, now)
								} else if err == nil {
									return count, what + " succeeds although there is a file"
								}
							case err != nil:
								if now != "none" && !kept {
									return count, fmt.Sprintf("%s fails (%v) and leaves %q", what, err, now)
								} else if len(hit) == 0 && (len(opts) == 0 || opts[0] == "--in-memory") {
									return count, fmt.Sprintf("%s fails: %v", what, err)
								}
							case len(opts) > 0 && opts[0] != "--in-memory":
								return count, what + " succeeds with invalid options"
							default:
								f, ok := strings.CutPrefix(now, "file ")
								if !ok {
									return count, what + " succeeds, but there is no output"
								}
								if msg := wellFormed(f, text, false, 2); msg != "" {
									return count, fmt.Sprintf("%s succeeds, but in its output %s: %q", what, msg, clip(f, 200))
								}
							}
							k.Traces(1)
							return count, ""
						}
						total, msg := once(-1, -1)
						for i := -1; i < total && msg == ""; i++ {
							n := i + 2
							for j := i + 1; j < n && msg == ""; j++ {
								n, msg = once(i, j)
							}
						}
						if msg != "" {
							k.Fail("fault", "%s", msg)
						}
					})
				}
			}
		}
	}
}
