//go:build go1.22

// Package vs is the controlled scheduler that the instrumented copy of wego runs on. Exactly one
// goroutine of an execution runs at a time; at every visible operation the explorer decides which
// goroutine goes next, and at every data choice which value is taken.
package vs

import (
	"fmt"
	"os"
	"runtime"
	"strings"
)

// ---------------------------------------------------------------- hashing

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a ^= a >> 33
	a *= 0xff51afd7ed558ccd
	a ^= a >> 33
	a *= 0xc4ceb9fe1a85ec53
	a ^= a >> 33
	return a
}

func hstr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// ---------------------------------------------------------------- vector clocks

type VC []uint32

func (v VC) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *VC) set(i int, c uint32) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i] = c
}

func (v *VC) join(o VC) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, c := range o {
		if c > (*v)[i] {
			(*v)[i] = c
		}
	}
}

func (v VC) clone() VC { return append(VC(nil), v...) }

// ---------------------------------------------------------------- threads

type opKind uint8

const (
	opInvisible opKind = iota // start or resume: local computation up to the next visible operation
	opSimple                  // enabled()/do()
	opChan                    // channel cases
)

type pending struct {
	kind    opKind
	name    string
	enabled func() bool
	do      func()
	cases   []caser
	hasDef  bool
	chosen  int
	idle    bool // enabled when nothing else is
	late    bool // comes last in the default schedule
}

type thread struct {
	id      int
	name    string
	gate    chan struct{}
	h       uint64
	vc      VC
	p       pending
	done    bool
	timer   bool // stands for a timer
	draws   uint64
	spawned uint64
	exited  chan struct{}
	ident   uint64 // identity that does not depend on the schedule
	rnd     uint64 // state of the thread's random stream
	noVC    bool   // accesses to memory are not followed, so no clocks are needed
}

func (t *thread) tick() {
	if !t.noVC {
		t.vc.set(t.id, t.vc.get(t.id)+1)
	}
}

type alt struct {
	t       *thread
	ci      int // case index, -1 default
	partner *thread
	pci     int
}

type point struct {
	n      int
	data   bool
	costs  []int8 // preemption cost of each alternative
	used   int    // preemptions used before this point
	branch bool
	desc   []string
}

// Race is an unordered pair of accesses of which one writes.
type Race struct {
	A, B    string
	Numeric bool
}

// Exec is one execution.
type Exec struct {
	e       *Explorer
	id      uint64
	threads []*thread
	goneH   uint64    // state of the threads that are not followed any more
	live    []*thread // those that are not done
	turn    int       // steps of the last thread since its turn began
	last    *thread   // thread that took the latest visible step
	prefix  []int
	choices []int
	points  []point
	used    int
	pruned  bool
	steps   int
	states  int

	aborting bool
	ended    chan struct{}

	chans  map[uintptr]*chanState
	shadow map[uintptr]*shadowCell
	multi  bool // more than one thread has ever existed
	mem    map[uintptr]*memObj

	Deadlock  string
	Panic     string
	RootDone  bool
	AliveAt   []string // goroutines not finished when the root body returned
	Overrun   bool
	Races     map[Race]int
	diverged  string
	trace     []string
	result    any
	cleanExit bool
}

var cur *Exec
var curT *thread // thread that holds the token

// Active reports whether a controlled execution is running.
func Active() bool { return cur != nil && !cur.aborting }

type abortT struct{}

func (x *Exec) checkAbort() {
	if x.aborting {
		runtime.Goexit()
	}
}

func (x *Exec) newThread(name string, parent *thread) *thread {
	t := &thread{id: len(x.threads), name: name, gate: make(chan struct{}, 1), exited: make(chan struct{}), noVC: x.e.o.NoMem}
	if parent != nil {
		parent.spawned++
		t.ident = mix(parent.ident, parent.spawned)
		t.h = mix(mix(parent.h, 0x5157), parent.spawned)
		t.vc = parent.vc.clone()
		parent.h = mix(parent.h, 0x60)
		parent.tick()
		x.multi = true
	} else {
		t.h = 1
		t.ident = 1
	}
	t.rnd = mix(mix(t.ident, 0x4a4d), x.e.o.Seed)
	if !t.noVC {
		t.vc.set(t.id, 1)
	}
	t.p = pending{kind: opInvisible, name: "start"}
	x.threads = append(x.threads, t)
	x.live = append(x.live, t)
	return t
}

func (x *Exec) launch(t *thread, fn func()) {
	go func() {
		defer close(t.exited)
		<-t.gate
		if x.aborting {
			return
		}
		normal := false
		defer func() {
			if x.aborting {
				return
			}
			if !normal {
				r := recover()
				if r == nil {
					r = "goroutine ended by runtime.Goexit"
				}
				x.Panic = fmt.Sprintf("%s: %v%s", t.name, r, panicSite())
				x.finish(t)
				return
			}
			x.finish(t)
		}()
		fn()
		normal = true
	}()
}

func panicSite() string {
	pcs := make([]uintptr, 40)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "ynqa/wego/pkg") {
			i := strings.LastIndex(f.Function, "/")
			return " in " + f.Function[i+1:]
		}
		if !more {
			return ""
		}
	}
}

// Go starts fn as a new thread of the execution (or as a plain goroutine outside of one).
func Go(fn func(), site string) {
	x := cur
	if x == nil {
		go fn()
		return
	}
	x.checkAbort()
	t := x.newThread(site, curT)
	x.launch(t, fn)
}

func (x *Exec) signalEnd() {
	curT = nil
	close(x.ended)
}

func (x *Exec) finish(t *thread) {
	t.done = true
	if x.e.o.NoMem {
		t.vc, t.p = nil, pending{} // thousands of them may be over
	}
	t.h = mix(t.h, 0xdead)
	if t.id == 0 {
		x.RootDone = true
		for _, o := range x.threads {
			if !o.done && !o.timer {
				x.AliveAt = append(x.AliveAt, o.name)
			}
		}
	}
	if x.Panic != "" {
		x.signalEnd()
		return
	}
	if x.e.o.NoMem && t.id > 0 {
		// thousands of them may be over; what is left of it is its part of the state.
		x.goneH += mix(t.h, 0x77)
		x.threads[t.id] = gone
	}
	x.dispatch(t)
}

// gone stands for threads that have finished.
var gone = func() *thread {
	t := &thread{done: true, name: "finished", exited: make(chan struct{})}
	close(t.exited)
	return t
}()

// dispatch passes the token on; it returns true if self keeps it.
func (x *Exec) dispatch(self *thread) bool {
	t := x.next()
	if t == nil {
		x.signalEnd()
		return false
	}
	curT = t
	if t == self {
		return true
	}
	t.gate <- struct{}{}
	return false
}

// visible announces the pending operation of the current thread and returns when it has been performed.
func (x *Exec) visible(t *thread) {
	if x.dispatch(t) {
		return
	}
	<-t.gate
	x.checkAbort()
}

func (x *Exec) alternatives() []alt {
	var res []alt
	add := func(t *thread) {
		if t.done {
			return
		}
		switch t.p.kind {
		case opSimple:
			if t.p.idle {
				return
			}
			if t.p.enabled == nil || t.p.enabled() {
				res = append(res, alt{t: t, ci: -1})
			}
		case opChan:
			res = x.chanAlts(t, res)
		}
	}
	if x.last != nil && !x.last.p.late {
		add(x.last)
	}
	late := 0
	for _, t := range x.live {
		if x.e.o.Fixed && len(res) > 0 {
			return res // the first one is taken
		}
		if t.p.late {
			late++
		} else if t != x.last {
			add(t)
		}
	}
	if late > 0 {
		for _, t := range x.live {
			if t.p.late {
				add(t)
			}
		}
	}
	if len(res) == 0 {
		for _, t := range x.live {
			if !t.done && t.p.idle && t.p.kind == opSimple {
				return []alt{{t: t, ci: -1}}
			}
		}
	}
	return res
}

// rotate lets the threads take turns.
func (x *Exec) rotate(alts []alt) int {
	q, back := x.e.o.Rotate, false
	if q < 0 {
		q, back = -q, true
	}
	x.turn++
	if x.last == nil {
		return 0
	}
	if alts[0].t == x.last {
		if x.turn < q || len(alts) == 1 {
			return 0
		}
	}
	x.turn = 0
	best, dist := 0, 0
	n := len(x.threads)
	for i, a := range alts {
		d := (a.t.id - x.last.id + n) % n
		if back {
			d = (n - d) % n
		}
		if d == 0 {
			d = n
		}
		if i == 0 || d < dist {
			best, dist = i, d
		}
	}
	return best
}

func (x *Exec) onlyTimers() bool {
	for _, t := range x.live {
		if !t.timer && !t.done {
			return false
		}
	}
	return true
}

func (x *Exec) key() uint64 {
	k := x.goneH
	for _, t := range x.threads {
		if t == gone {
			continue
		}
		k += mix(t.h, 0x77)
	}
	if x.e.o.MaxPreempt >= 0 && x.last != nil {
		k = mix(k, uint64(x.last.id))
	}
	return k
}

// next performs one transition and returns the thread to run, or nil at the end of the execution.
func (x *Exec) next() *thread {
	for {
		// local computation first: it commutes with everything.
		n := 0
		for _, t := range x.live {
			if !t.done {
				x.live[n] = t
				n++
			}
		}
		x.live = x.live[:n]
		for _, t := range x.live {
			if t.p.kind == opInvisible {
				t.p = pending{kind: opInvisible, name: "running", chosen: t.p.chosen}
				return t
			}
		}
		if x.diverged != "" {
			return nil
		}
		if x.onlyTimers() {
			return nil // nobody is left to notice
		}
		alts := x.alternatives()
		if len(alts) == 0 {
			x.pollExternal()
			alts = x.alternatives()
		}
		if len(alts) == 0 {
			var stuck []string
			for _, t := range x.threads {
				if !t.done && !t.timer {
					stuck = append(stuck, t.name+" blocked on "+t.p.name)
				}
			}
			if len(stuck) > 0 {
				x.Deadlock = strings.Join(stuck, "; ")
			}
			return nil
		}
		x.steps++
		if x.steps > x.e.o.MaxSteps {
			x.Overrun = true
			return nil
		}
		c := 0
		if x.e.o.Rotate != 0 {
			c = x.rotate(alts)
		} else if len(alts) > 1 && !x.e.o.Fixed {
			var costs []int8
			lastEnabled := false
			for _, a := range alts {
				if a.t == x.last && !a.t.p.late {
					lastEnabled = true
				}
			}
			for i, a := range alts {
				if lastEnabled && a.t != x.last || x.e.o.Deviate && i > 0 {
					costs = append(costs, 1)
				} else {
					costs = append(costs, 0)
				}
			}
			var ok bool
			c, ok = x.choose(len(alts), costs, false, alts)
			if !ok {
				return nil
			}
			x.used += int(costs[c])
		}
		a := alts[c]
		x.e.transitions++
		if x.e.tracing {
			x.trace = append(x.trace, fmt.Sprintf("%s: %s", a.t.name, x.altName(a)))
		}
		x.last = a.t
		switch a.t.p.kind {
		case opSimple:
			do := a.t.p.do
			if do != nil {
				curT = a.t
				do()
			}
		case opChan:
			x.doChan(a)
		}
		a.t.p.kind = opInvisible
		// the acting thread continues; a partner resumes when invisible operations are run.
		a.t.p.name = "running"
		return a.t
	}
}

func (x *Exec) altName(a alt) string {
	if a.t.p.kind == opChan {
		if a.ci < 0 {
			return "select default"
		}
		n := a.t.p.cases[a.ci].desc()
		if a.partner != nil {
			n += " with " + a.partner.name
		}
		return n
	}
	return a.t.p.name
}

// choose takes a choice among n alternatives.
func (x *Exec) choose(n int, costs []int8, data bool, alts []alt) (int, bool) {
	i := len(x.choices)
	c := 0
	branch := false
	if i < len(x.prefix) {
		c = x.prefix[i]
		if c >= n {
			x.diverged = fmt.Sprintf("replayed choice %d is %d but only %d alternatives exist", i, c, n)
			return 0, false
		}
	} else if !x.pruned {
		if x.e.o.Cache {
			k := x.key()
			if data {
				k = mix(k, 0xda7a+uint64(curT.id))
			}
			if u, ok := x.e.seen[k]; ok && (x.e.o.MaxPreempt < 0 || int(u) <= x.used) {
				x.pruned = true
				x.e.pruned++
				return 0, false
			}
			u := x.used
			if u > 255 {
				u = 255
			}
			x.e.seen[k] = uint8(u)
		}
		x.e.states++
		branch = true
	}
	p := point{n: n, data: data, used: x.used, branch: branch, costs: costs}
	x.points = append(x.points, p)
	x.choices = append(x.choices, c)
	return c, true
}

// DataWeight is the probability of the data choices of the execution if all alternatives are equally likely.
func (x *Exec) DataWeight() float64 {
	w := 1.0
	for _, p := range x.points {
		if p.data {
			w /= float64(p.n)
		}
	}
	return w
}

// Choose is a data choice among n values, all of which are explored.
func Choose(n int) int {
	x := cur
	if x == nil || n <= 1 {
		return 0
	}
	x.checkAbort()
	if n > 1<<20 {
		panic("vs: too many alternatives")
	}
	if !x.e.o.Data {
		return 0
	}
	t := curT
	x.e.transitions++
	c, ok := x.choose(n, nil, true, nil)
	if !ok {
		// pruned or diverged: end the execution from within this thread.
		x.signalEndFrom(t)
	}
	t.h = mix(mix(t.h, 0xc401ce), uint64(c))
	return c
}

func (x *Exec) signalEndFrom(t *thread) {
	x.signalEnd()
	<-t.gate
	runtime.Goexit()
}

// Quiesce waits until no other goroutine can go on.
func Quiesce() {
	x := cur
	if x == nil {
		return
	}
	x.checkAbort()
	t := curT
	t.p = pending{kind: opSimple, name: "wait for the others", idle: true}
	x.visible(t)
	t.p.idle = false
}

// Yield is a scheduling point without an effect.
func Yield() {
	x := cur
	if x == nil {
		runtime.Gosched()
		return
	}
	x.checkAbort()
	t := curT
	t.p = pending{kind: opSimple, name: "yield"}
	x.visible(t)
}

func (x *Exec) pollExternal() {
	x.e.pollExternal(x)
}

// DebugTrace returns the transitions of the execution if tracing is on.
func (x *Exec) DebugTrace() []string { return x.trace }

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "vs: "+format+"\n", a...)
	os.Exit(3)
}

// Rand64 draws from the current thread's random stream; its values depend on the seed of the
// exploration and the thread's identity only. Outside of an execution a global stream is used.
func Rand64() uint64 {
	s := &globalRnd
	if x := cur; x != nil && curT != nil {
		s = &curT.rnd
	}
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

var globalRnd uint64 = 0x12345

// SeedGlobal seeds the stream used outside of executions.
func SeedGlobal(s uint64) { globalRnd = mix(s, 0x61) }

// SeedThread restarts the current stream.
func SeedThread(s uint64) {
	if x := cur; x != nil && curT != nil {
		curT.rnd = mix(mix(curT.ident, 0x4a4d), s)
		return
	}
	globalRnd = mix(s, 0x61)
}

// Float is a number in [0,1).
func Float() float64 { return float64(Rand64()>>11) / (1 << 53) }

// DrawHook, if set, supplies bounded random draws.
var DrawHook func(n int) (int, bool)

// Draw is a bounded draw supplied by the harness.
func Draw(n int) (int, bool) {
	if DrawHook == nil || n < 1 {
		return 0, false
	}
	return DrawHook(n)
}

// Sleep stands in for time.Sleep: time is not modelled.
func Sleep[T any](T) {
	x := cur
	if x == nil {
		runtime.Gosched()
		return
	}
	x.checkAbort()
	t := curT
	t.p = pending{kind: opSimple, name: "sleep", late: true}
	x.visible(t)
	t.p.late = false
}

// Root reports whether the calling goroutine is the one that runs the body of the execution.
func Root() bool { return cur == nil || curT == nil || curT.id == 0 }

// Thread identifies the calling goroutine within the execution.
func Thread() int {
	if cur == nil || curT == nil {
		return 0
	}
	return curT.id
}

// Nanos stands in for time.Time.UnixNano, which is of use for seeds only: another number each time, which
// depends on the execution alone.
func Nanos[T any](T) int64 { return int64(Rand64() >> 2) }

// Coarse stands in for the units in which two moments of a run may be the same.
func Coarse[T any](T) int64 { return 1700000000 }
