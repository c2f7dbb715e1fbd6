//go:build go1.22

package vs

import (
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"
)

// Opts bounds an exploration.
type Opts struct {
	MaxPreempt int  // -1: unbounded
	Deviate    bool // MaxPreempt bounds all departures from the default schedule instead (stay, else lowest thread)
	Fixed      bool // one schedule only: never preempt, lowest thread first
	Rotate     int  // one schedule only: after so many steps of a thread the next one (negative: the one before) takes its turn
	Cache      bool // do not branch again in a visited happens-before state
	Data       bool // enumerate data choices (Choose); otherwise they are 0
	MapOrder   bool // enumerate iteration orders of maps
	MaxExecs   int
	MaxSteps   int
	Deadline   time.Time
	NumPoints  bool // racy accesses to plain numbers are scheduling points, too, not only those to anything else
	NoMem      bool // accesses to memory are not followed
	Seed       uint64
}

// Explorer explores all executions of a body.
type Explorer struct {
	o           Opts
	seen        map[uint64]uint8
	racySites   []bool
	newRacy     map[int]bool
	states      int
	transitions int
	pruned      int
	execs       int
	tracing     bool
	execID      uint64
	long        bool // the last execution was a long one
}

// Stats of an exploration.
type Stats struct {
	Execs, Complete, Pruned, States, Transitions int
	Restarts                                     int
	MaxPoints                                    int
	Exhaustive                                   bool
	RacySites                                    []string
}

// Report of one complete (not pruned) execution.
type Report struct {
	X       *Exec
	Result  any
	Choices []int
}

var execCounter uint64
var heapCheck int

// Explore runs body under every schedule within the bounds. body is run as the root goroutine of each
// execution; check is called after every complete execution and returns false to stop.
func Explore(o Opts, body func() any, check func(Report) bool) Stats {
	if o.MaxSteps == 0 {
		o.MaxSteps = 5000000
	}
	e := &Explorer{o: o, seen: map[uint64]uint8{}, racySites: make([]bool, len(Sites)+1), newRacy: map[int]bool{}}
	var st Stats
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(2 << 30) // collect during an execution only if there is no other way
restart:
	e.seen = map[uint64]uint8{}
	stack := [][]int{nil}
	capped := false
	for len(stack) > 0 {
		if (o.MaxExecs > 0 && st.Execs >= o.MaxExecs) || (!o.Deadline.IsZero() && time.Now().After(o.Deadline)) {
			capped = true
			break
		}
		prefix := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		x := e.run(prefix, body)
		st.Execs++
		if len(x.points) > st.MaxPoints {
			st.MaxPoints = len(x.points)
		}
		if x.diverged != "" {
			fatal("divergence: %s", x.diverged)
		}
		if len(x.choices) < len(prefix) && x.Panic == "" && x.Deadlock == "" && !x.Overrun {
			fatal("divergence: execution took %d of %d replayed choices", len(x.choices), len(prefix))
		}
		if !x.pruned {
			st.Complete++
			if !check(Report{X: x, Result: x.result, Choices: x.choices}) {
				st.States, st.Transitions, st.Pruned = e.states, e.transitions, e.pruned
				st.RacySites = e.racyNames()
				return st
			}
		}
		if len(e.newRacy) > 0 {
			// new racy accesses become scheduling points: start over with them.
			for i := range e.newRacy {
				e.racySites[i] = true
			}
			e.newRacy = map[int]bool{}
			st.Restarts++
			goto restart
		}
		for i := len(x.points) - 1; i >= len(prefix); i-- {
			p := x.points[i]
			if !p.branch {
				continue
			}
			for a := p.n - 1; a >= 1; a-- {
				if p.costs != nil && o.MaxPreempt >= 0 && p.used+int(p.costs[a]) > o.MaxPreempt {
					continue
				}
				np := make([]int, i+1)
				copy(np, x.choices[:i])
				np[i] = a
				stack = append(stack, np)
			}
		}
	}
	st.States, st.Transitions, st.Pruned = e.states, e.transitions, e.pruned
	st.Exhaustive = !capped
	st.RacySites = e.racyNames()
	return st
}

func (e *Explorer) racyNames() (l []string) {
	for s, on := range e.racySites {
		if on {
			l = append(l, siteName(s))
		}
	}
	return
}

// Replay runs one execution with the given choices, tracing its transitions.
func Replay(o Opts, choices []int, racy []string, body func() any) (Report, []string) {
	if o.MaxSteps == 0 {
		o.MaxSteps = 5000000
	}
	o.Cache = false
	e := &Explorer{o: o, seen: map[uint64]uint8{}, racySites: make([]bool, len(Sites)+1), newRacy: map[int]bool{}, tracing: true}
	for i, s := range Sites {
		for _, r := range racy {
			if s == r {
				e.racySites[i] = true
			}
		}
	}
	x := e.run(choices, body)
	return Report{X: x, Result: x.result, Choices: x.choices}, x.trace
}

func (e *Explorer) run(prefix []int, body func() any) *Exec {
	heapCheck++
	if heapCheck%64 == 0 || e.long {
		e.long = false
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 700<<20 {
			runtime.GC()
		}
	}
	execCounter++
	x := &Exec{e: e, id: execCounter, prefix: prefix, ended: make(chan struct{}),
		chans: map[uintptr]*chanState{}, shadow: map[uintptr]*shadowCell{}, mem: map[uintptr]*memObj{}, Races: map[Race]int{}}
	for _, r := range resets {
		r()
	}
	e.execs++
	root := x.newThread("main", nil)
	x.launch(root, func() { x.result = body() })
	cur = x
	curT = root
	root.p.name = "running"
	root.gate <- struct{}{}
	<-x.ended
	// unwind everything that has not finished.
	x.aborting = true
	for _, t := range x.threads {
		select {
		case <-t.exited:
			continue
		default:
		}
		select {
		case t.gate <- struct{}{}:
		default:
		}
		<-t.exited
	}
	cur = nil
	curT = nil
	e.long = x.steps > 3000
	return x
}

var resets []func()

// OnReset registers a function to be run before every execution.
func OnReset(f func()) { resets = append(resets, f) }

// RegG registers a package-level variable: it and everything of wego that is reachable from it is put
// back to its present value before every execution.
func RegG(p any) {
	w := walker{seen: map[walkKey]bool{}}
	w.visit(reflect.ValueOf(p).Elem())
	resets = append(resets, func() {
		for _, f := range w.restore {
			f()
		}
	})
}

type walkKey struct {
	p unsafe.Pointer
	t reflect.Type
}

type walker struct {
	seen    map[walkKey]bool
	restore []func()
}

// visit snapshots the addressable value v.
func (w *walker) visit(v reflect.Value) {
	k := walkKey{v.Addr().UnsafePointer(), v.Type()}
	if w.seen[k] {
		return
	}
	w.seen[k] = true
	snap := reflect.New(v.Type()).Elem()
	snap.Set(v)
	w.restore = append(w.restore, func() { v.Set(snap) })
	w.inside(v)
}

func (w *walker) inside(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() && walkable(v.Type().Elem()) {
			w.visit(v.Elem())
		}
	case reflect.Slice:
		v = v.Slice3(0, v.Cap(), v.Cap())
		if v.Len() > 0 {
			k := walkKey{v.Index(0).Addr().UnsafePointer(), v.Type()}
			if w.seen[k] {
				return
			}
			w.seen[k] = true
			snap := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			reflect.Copy(snap, v)
			w.restore = append(w.restore, func() { reflect.Copy(v, snap) })
			if walkable(v.Type().Elem()) {
				for i := 0; i < v.Len(); i++ {
					w.inside(v.Index(i))
				}
			}
		}
	case reflect.Array:
		if walkable(v.Type().Elem()) {
			for i := 0; i < v.Len(); i++ {
				w.inside(v.Index(i))
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.CanAddr() {
				f = reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem()
			}
			if walkable(f.Type()) {
				w.inside(f)
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		k := walkKey{v.UnsafePointer(), v.Type()}
		if w.seen[k] {
			return
		}
		w.seen[k] = true
		snap := map[any][2]reflect.Value{}
		for it := v.MapRange(); it.Next(); {
			snap[it.Key().Interface()] = [2]reflect.Value{it.Key(), it.Value()}
			w.inside(it.Value())
		}
		w.restore = append(w.restore, func() {
			v.Clear()
			for _, e := range snap {
				v.SetMapIndex(e[0], e[1])
			}
		})
	case reflect.Interface:
		if !v.IsNil() {
			w.inside(v.Elem())
		}
	}
}

func walkable(t reflect.Type) bool {
	p := t.PkgPath()
	return p == "" || strings.Contains(p, "ynqa/wego/")
}

func (e *Explorer) pollExternal(x *Exec) {
	// channels that uninstrumented code may send on or close (timers, contexts) may still come to help.
	has := false
	for _, t := range x.threads {
		if t.done || t.p.kind != opChan {
			continue
		}
		for _, c := range t.p.cases {
			if c.state() != nil && c.state().external {
				has = true
			}
		}
	}
	for i := 0; has && i < 30; i++ {
		time.Sleep(10 * time.Millisecond)
		if len(x.alternatives()) > 0 {
			return
		}
	}
}
