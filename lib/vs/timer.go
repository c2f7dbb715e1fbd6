//go:build go1.22

package vs

import (
	"context"
	"time"
)

// Time is not modelled: a timer that has been set may go off at any later moment. In the default schedule it
// does when nothing else can go on.

// Timer stands in for time.Timer.
type Timer struct {
	C    <-chan time.Time
	ch   chan time.Time
	f    func()
	on   *bool // the timer thread that is set
	real *time.Timer
}

// early is how often a ticker goes off while other goroutines can go on.
const early = 2

// alarm starts a thread that calls f at any later moment as long as on holds.
func alarm(name string, on *bool, repeat bool, f func()) {
	x := cur
	t := x.newThread(name, curT)
	t.timer = true
	x.launch(t, func() {
		for n := 0; ; n++ {
			t.p = pending{kind: opSimple, name: name + " goes off", late: true, idle: repeat && n >= early, enabled: func() bool { return *on }}
			x.visible(t)
			t.p.idle, t.p.late = false, false
			if !repeat {
				*on = false
			}
			f()
			if !repeat || n > 1000 {
				return
			}
		}
	})
}

func (t *Timer) start(repeat bool) {
	on := new(bool)
	*on = true
	t.on = on
	if t.f != nil {
		f := t.f
		alarm("timer", on, repeat, func() { Go(f, "timer") })
		return
	}
	alarm("timer", on, repeat, func() { Select(true, SendCase(t.ch, time.Time{})) })
}

func newTimer(d time.Duration, f func(), repeat bool) *Timer {
	cur.checkAbort()
	t := &Timer{f: f}
	if f == nil {
		t.ch = make(chan time.Time, 1)
		t.C = t.ch
	}
	t.start(repeat)
	return t
}

// NewTimer stands in for time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	if cur == nil {
		r := time.NewTimer(d)
		return &Timer{C: r.C, real: r}
	}
	return newTimer(d, nil, false)
}

// AfterFunc stands in for time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	if cur == nil {
		r := time.AfterFunc(d, f)
		return &Timer{C: r.C, real: r}
	}
	return newTimer(d, f, false)
}

// After stands in for time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Tick stands in for time.Tick.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Stop stands in for the method of time.Timer.
func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	Yield()
	if cur == nil {
		return false
	}
	was := *t.on
	*t.on = false
	if t.ch != nil {
		// nothing is received after Stop.
		if s := cur.chans[chanPtr(t.ch)]; s != nil {
			was = was || len(s.buf) > 0
			s.buf = nil
		}
	}
	return was
}

// Reset stands in for the method of time.Timer.
func (t *Timer) Reset(d time.Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	was := t.Stop()
	if cur != nil {
		t.start(false)
	}
	return was
}

// Ticker stands in for time.Ticker.
type Ticker struct {
	C    <-chan time.Time
	t    *Timer
	real *time.Ticker
}

// NewTicker stands in for time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if cur == nil || d <= 0 {
		r := time.NewTicker(d)
		return &Ticker{C: r.C, real: r}
	}
	t := newTimer(d, nil, true)
	return &Ticker{C: t.C, t: t}
}

// Stop stands in for the method of time.Ticker.
func (t *Ticker) Stop() {
	if t.real != nil {
		t.real.Stop()
		return
	}
	if cur != nil {
		*t.t.on = false
	}
}

// Reset stands in for the method of time.Ticker.
func (t *Ticker) Reset(d time.Duration) {
	if t.real != nil {
		t.real.Reset(d)
		return
	}
	if cur != nil {
		*t.t.on = false
		t.t.start(true)
	}
}

type timed struct {
	context.Context
	late *bool
	dl   time.Time
	why  error
}

func (c *timed) Deadline() (time.Time, bool) { return c.dl, true }
func (c *timed) Err() error {
	if *c.late {
		return context.DeadlineExceeded
	}
	return c.Context.Err()
}

// WithDeadline stands in for context.WithDeadline.
func WithDeadline(parent context.Context, dl time.Time) (context.Context, context.CancelFunc) {
	if cur == nil {
		return context.WithDeadline(parent, dl)
	}
	cur.checkAbort()
	inner, cancel := context.WithCancel(parent)
	on, late := new(bool), new(bool)
	*on = true
	alarm("deadline", on, false, func() {
		if inner.Err() == nil {
			*late = true
			cancel()
		}
	})
	return &timed{inner, late, dl, nil}, func() {
		*on = false
		cancel()
	}
}

// WithTimeout stands in for context.WithTimeout.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, time.Now().Add(d))
}
