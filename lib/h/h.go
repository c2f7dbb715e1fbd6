//go:build go1.22

// Package h is the frame of every harness: it enumerates cases, shards them over processes, counts what
// was covered and records violations in a form that can be replayed.
package h

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/ynqa/wego/verifrt/vs"
)

// Violation is one failing case.
type Violation struct {
	Index   int      `json:"index"`
	Case    string   `json:"case"`
	Key     string   `json:"key"`
	Msg     string   `json:"msg"`
	Choices []int    `json:"choices,omitempty"`
	Racy    []string `json:"racy,omitempty"`
	Trace   []string `json:"trace,omitempty"`
	Times   int      `json:"same_on_replay,omitempty"`
}

// Result is what one process reports.
type Result struct {
	Cases       int            `json:"cases"`
	States      int            `json:"states"`
	Transitions int            `json:"transitions"`
	Traces      int            `json:"traces"`
	Execs       int            `json:"executions"`
	Pruned      int            `json:"pruned"`
	MaxPoints   int            `json:"max_choice_points"`
	Distinct    int            `json:"distinct_outcomes"`
	Exhaustive  bool           `json:"exhaustive"`
	Samples     []string       `json:"samples"`
	Notes       map[string]int `json:"notes"`
	Text        map[string]string
	Violations  []Violation `json:"violations"`
	Skipped     int         `json:"skipped"`
	Capped      int         `json:"capped"`
	Wall        float64     `json:"wall"`
}

// C is the context of a run.
type C struct {
	Thorough bool
	Seed     uint64
	Scratch  string
	Bin      string // built wego binary, if the check needs one
	shard    int
	shards   int
	claims   *os.File // shared counter from which processes take blocks of cases
	block    int
	lo, hi   int
	only     int
	index    int
	deadline time.Time
	res      Result
	outcomes map[uint64]struct{}
	curFile  *os.File
	started  atomic.Int64
	curName  atomic.Value
	maxViol  int
	verbose  bool
	outPath  string
	stopped  bool
}

// K is one case.
type K struct {
	c    *C
	idx  int
	name string
	bad  bool
}

// Main runs a harness.
func Main(body func(c *C)) {
	c := &C{outcomes: map[uint64]struct{}{}, maxViol: 3}
	tier := flag.String("tier", "quick", "")
	shard := flag.String("shard", "0/1", "")
	prof := flag.String("prof", "", "")
	claim := flag.String("claim", "", "file shared by the processes of a run")
	flag.IntVar(&c.block, "block", 1, "cases to take at once")
	dl := flag.Float64("deadline", 60, "seconds")
	flag.StringVar(&c.outPath, "out", "", "")
	flag.IntVar(&c.only, "only", -1, "run this case only")
	flag.StringVar(&c.Scratch, "scratch", "", "")
	flag.StringVar(&c.Bin, "bin", "", "")
	seed := flag.Uint64("seed", 1, "")
	stall := flag.Float64("stall", 120, "seconds after which a case counts as not terminating")
	flag.BoolVar(&c.verbose, "v", false, "")
	flag.Parse()
	c.Thorough = *tier == "thorough"
	c.Seed = *seed
	a, b, _ := strings.Cut(*shard, "/")
	c.shard, _ = strconv.Atoi(a)
	c.shards, _ = strconv.Atoi(b)
	if *claim != "" {
		c.claims, _ = os.OpenFile(*claim, os.O_RDWR|os.O_CREATE, 0o644)
	}
	start := time.Now()
	c.deadline = start.Add(time.Duration(*dl * float64(time.Second)))
	c.res.Exhaustive = true
	c.res.Notes = map[string]int{}
	c.res.Text = map[string]string{}
	runtime.GOMAXPROCS(1)
	if c.Scratch == "" {
		d, err := os.MkdirTemp("", "verif-h")
		if err != nil {
			panic(err)
		}
		c.Scratch = d
		defer os.RemoveAll(d)
	}
	if c.outPath != "" {
		c.curFile, _ = os.Create(c.outPath + ".cur")
	}
	go func() {
		for {
			time.Sleep(time.Second)
			if s := c.started.Load(); s != 0 && time.Since(time.Unix(0, s)).Seconds() > *stall {
				name, _ := c.curName.Load().(string)
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				os.WriteFile(c.outPath+".stacks", buf, 0o644)
				c.res.Violations = append(c.res.Violations, Violation{Index: c.index - 1, Case: name, Key: "no-termination",
					Msg: fmt.Sprintf("does not come to an end (%.0f s without an end for a case of milliseconds)%s", *stall, wegoFrame(string(buf)))})
				c.res.Exhaustive = false
				c.write(start)
				os.Exit(0)
			}
		}
	}()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	body(c)
	c.started.Store(0)
	c.write(start)
}

func wegoFrame(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "github.com/ynqa/wego/pkg/") {
			return ", in " + strings.TrimPrefix(l, "github.com/ynqa/wego/")
		}
	}
	return ""
}

func (c *C) write(start time.Time) {
	c.res.Wall = time.Since(start).Seconds()
	c.res.Distinct = len(c.outcomes)
	js, _ := json.MarshalIndent(c.res, "", " ")
	if c.outPath == "" {
		fmt.Fprintln(os.Stderr, string(js))
		return
	}
	os.WriteFile(c.outPath, js, 0o644)
}

// Stop reports that the run should end.
func (c *C) Stop() bool {
	if c.stopped {
		return true
	}
	if time.Now().After(c.deadline) {
		c.res.Exhaustive = false
		c.stopped = true
		return true
	}
	if len(c.res.Violations) >= c.maxViol {
		c.stopped = true
		c.res.Exhaustive = false
		return true
	}
	return false
}

// Note counts something for the evidence.
func (c *C) Note(what string, n int) { c.res.Notes[what] += n }

// Text records a fact for the evidence.
func (c *C) Text(what, val string) { c.res.Text[what] = val }

// NotExhaustive records that part of the bounded space was left out.
func (c *C) NotExhaustive() { c.res.Exhaustive = false }

// Case runs one case if it belongs to this process.
func (c *C) Case(name func() string, f func(k *K)) {
	i := c.index
	c.index++
	if c.only >= 0 {
		if i != c.only {
			return
		}
	} else if !c.mine(i) {
		return
	}
	if c.Stop() {
		c.res.Skipped++
		return
	}
	k := &K{c: c, idx: i, name: name()}
	c.curName.Store(k.name)
	c.started.Store(time.Now().UnixNano())
	if c.curFile != nil {
		b := []byte(fmt.Sprintf("%-20d", i))
		c.curFile.WriteAt(b, 0)
	}
	c.res.Cases++
	before, t0 := c.res, time.Now()
	func() {
		defer func() {
			if p := recover(); p != nil {
				st := string(debug.Stack())
				if fr := panicFrame(st); strings.Contains(fr, "wego/pkg/") {
					k.Fail("panic", "panic: %v in %s", p, fr)
				} else {
					fmt.Fprintf(os.Stderr, "harness panic in case %q: %v\n%s", k.name, p, st)
					os.Exit(4)
				}
			}
		}()
		f(k)
	}()
	if len(c.res.Samples) < 3 && (c.res.Cases == 1 || c.res.Cases == 37 || c.res.Cases == 1009) {
		c.res.Samples = append(c.res.Samples, k.name)
	}
	if c.verbose {
		fmt.Fprintf(os.Stderr, "case %d %s: states %d execs %d %.2f s\n", i, k.name, c.res.States-before.States, c.res.Execs-before.Execs, time.Since(t0).Seconds())
	}
}

// mine tells whether case i belongs to this process.
func (c *C) mine(i int) bool {
	if c.claims == nil {
		return i%c.shards == c.shard
	}
	for i >= c.hi {
		fd := int(c.claims.Fd())
		syscall.Flock(fd, syscall.LOCK_EX)
		b := make([]byte, 20)
		n, _ := c.claims.ReadAt(b, 0)
		at, _ := strconv.Atoi(strings.TrimSpace(string(b[:n])))
		c.claims.WriteAt([]byte(fmt.Sprintf("%-20d", at+c.block)), 0)
		syscall.Flock(fd, syscall.LOCK_UN)
		c.lo, c.hi = at, at+c.block
	}
	return i >= c.lo
}

// panicFrame is the innermost frame of wego or of the harness below the panic.
func panicFrame(st string) string {
	i := strings.LastIndex(st, "panic(")
	if i < 0 {
		i = 0
	}
	for _, l := range strings.Split(st[i:], "\n") {
		if strings.HasPrefix(l, "github.com/ynqa/wego/pkg/") {
			if j := strings.LastIndex(l, "("); j > 0 {
				l = l[:j]
			}
			return l
		}
		if strings.HasPrefix(l, "github.com/ynqa/wego/verifrt/") && !strings.Contains(l, "verifrt/vs") {
			return l
		}
		if strings.HasPrefix(l, "main.") {
			return l
		}
	}
	return ""
}

// Thorough reports the tier.
func (k *K) Thorough() bool { return k.c.Thorough }

// Fail records a violation of the property.
func (k *K) Fail(key, format string, a ...any) {
	if k.bad {
		return
	}
	k.bad = true
	k.c.res.Violations = append(k.c.res.Violations, Violation{Index: k.idx, Case: k.name, Key: key, Msg: fmt.Sprintf(format, a...)})
}

// Note counts something for the evidence.
func (k *K) Note(what string, n int) { k.c.Note(what, n) }

// NotExhaustive records that part of the case was left out.
func (k *K) NotExhaustive() { k.c.res.Exhaustive = false }

// Failed reports whether the case has failed.
func (k *K) Failed() bool { return k.bad }

// States, Transitions and Traces count coverage of directly enumerated cases: distinct states of the
// system reached, operations of the implementation performed, and histories compared with the reference.
func (k *K) States(n int)      { k.c.res.States += n }
func (k *K) Transitions(n int) { k.c.res.Transitions += n }
func (k *K) Traces(n int)      { k.c.res.Traces += n }

// One counts one history of n operations whose outcome is given.
func (k *K) One(n int, outcome string) {
	k.c.res.Transitions += n
	k.c.res.Traces++
	if k.Outcome(outcome) {
		k.c.res.States++
	}
}

// Outcome counts distinct outcomes; it reports whether this one is new to the process.
func (k *K) Outcome(s string) bool {
	f := fnv.New64a()
	io.WriteString(f, s)
	v := f.Sum64()
	if _, ok := k.c.outcomes[v]; ok {
		return false
	}
	k.c.outcomes[v] = struct{}{}
	return true
}

// Explore explores all executions of body within the bounds; check returns a non-empty key and message
// for a violation. Panics, deadlocks and runs without end are violations unless lenient.
func (k *K) Explore(o vs.Opts, body func() any, check func(r vs.Report) (string, string)) vs.Stats {
	c := k.c
	if o.Deadline.IsZero() {
		o.Deadline = c.deadline
	}
	if o.Seed == 0 {
		o.Seed = 1
	}
	verdict := func(r vs.Report) (string, string) {
		if r.X.Panic != "" {
			return "panic", "panic: " + r.X.Panic
		}
		if r.X.Overrun {
			return "endless", "execution exceeds the step bound"
		}
		if r.X.Deadlock != "" {
			if r.X.RootDone {
				return "left-running", "after the return some goroutine can never finish: " + r.X.Deadlock
			}
			return "deadlock", "deadlock: " + r.X.Deadlock
		}
		return check(r)
	}
	var bad vs.Report
	var key, msg string
	st := vs.Explore(o, body, func(r vs.Report) bool {
		c.started.Store(time.Now().UnixNano())
		key, msg = verdict(r)
		if msg != "" {
			bad = r
			return false
		}
		return true
	})
	c.res.States += st.States
	c.res.Transitions += st.Transitions
	c.res.Execs += st.Execs
	c.res.Traces += st.Complete
	c.res.Pruned += st.Pruned
	if st.MaxPoints > c.res.MaxPoints {
		c.res.MaxPoints = st.MaxPoints
	}
	if msg != "" {
		v := Violation{Index: k.idx, Case: k.name, Key: key, Msg: msg, Choices: bad.Choices, Racy: st.RacySites}
		for i := 0; i < 2; i++ {
			r, tr := vs.Replay(o, bad.Choices, st.RacySites, body)
			_, m := verdict(r)
			if m == msg {
				v.Times++
			} else if c.verbose {
				fmt.Fprintln(os.Stderr, "replay differs:", m)
			}
			v.Trace = tr
		}
		if len(v.Trace) > 400 {
			v.Trace = v.Trace[len(v.Trace)-400:]
		}
		k.bad = true
		c.res.Violations = append(c.res.Violations, v)
	} else if !st.Exhaustive {
		c.res.Exhaustive = false
		c.res.Capped++
	}
	return st
}

// Once runs body once on the default schedule.
func (k *K) Once(o vs.Opts, body func() any) vs.Report {
	o.Fixed, o.NoMem = true, true
	o.MaxExecs = 1
	if o.Seed == 0 {
		o.Seed = 1
	}
	var rep vs.Report
	st := vs.Explore(o, body, func(r vs.Report) bool { rep = r; return false })
	k.c.res.Transitions += st.Transitions
	k.c.res.Execs += st.Execs
	return rep
}

// Bad describes an execution that did not end properly ("" if it did).
func Bad(r vs.Report) string {
	switch {
	case r.X == nil:
		return "no execution"
	case r.X.Panic != "":
		return "panic: " + r.X.Panic
	case r.X.Overrun:
		return "execution exceeds the step bound"
	case r.X.Deadlock != "":
		return "deadlock: " + r.X.Deadlock
	}
	return ""
}

var capFile *os.File
var realOut = os.Stdout

// Capture runs f with standard output diverted and returns what was written.
func Capture(dir string, f func()) string {
	StartCapture(dir)
	defer func() { os.Stdout = realOut }()
	f()
	return EndCapture()
}

// StartCapture diverts standard output into a file.
func StartCapture(dir string) {
	if capFile == nil {
		var err error
		if capFile, err = os.CreateTemp(dir, "stdout"); err != nil {
			panic(err)
		}
	}
	capFile.Truncate(0)
	capFile.Seek(0, 0)
	os.Stdout = capFile
}

// EndCapture restores standard output and returns what was written.
func EndCapture() string {
	os.Stdout = realOut
	n, _ := capFile.Seek(0, 1)
	b := make([]byte, n)
	capFile.ReadAt(b, 0)
	return string(b)
}
