//go:build go1.22

// Package vsync stands in for package sync in instrumented code.
package vsync

import (
	"sync"

	"github.com/ynqa/wego/verifrt/vs"
)

type Locker = sync.Locker

type Mutex struct {
	o      vs.Obj
	locked bool
	real   sync.Mutex
}

func (m *Mutex) fresh() {
	if m.o.Fresh() {
		m.locked = false
	}
}

func (m *Mutex) Lock() {
	if !vs.On() {
		m.real.Lock()
		return
	}
	m.fresh()
	vs.Point("lock mutex", func() bool { return !m.locked }, func() {
		m.locked = true
		m.o.Order()
		m.o.Acquire()
	})
}

func (m *Mutex) TryLock() bool {
	if !vs.On() {
		return m.real.TryLock()
	}
	m.fresh()
	ok := false
	vs.Point("try lock mutex", nil, func() {
		m.o.Order()
		if !m.locked {
			m.locked, ok = true, true
			m.o.Acquire()
		}
	})
	return ok
}

func (m *Mutex) Unlock() {
	if !vs.On() {
		m.real.Unlock()
		return
	}
	m.fresh()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.o.Order()
	m.o.ReleaseSet()
}

type RWMutex struct {
	o, ro   vs.Obj
	writer  bool
	readers int
	real    sync.RWMutex
}

func (m *RWMutex) fresh() {
	m.ro.Fresh()
	if m.o.Fresh() {
		m.writer, m.readers = false, 0
	}
}

func (m *RWMutex) Lock() {
	if !vs.On() {
		m.real.Lock()
		return
	}
	m.fresh()
	vs.Point("lock rwmutex", func() bool { return !m.writer && m.readers == 0 }, func() {
		m.writer = true
		m.o.Order()
		m.o.Acquire()
		m.ro.Acquire()
	})
}

func (m *RWMutex) TryLock() bool {
	if !vs.On() {
		return m.real.TryLock()
	}
	m.fresh()
	ok := false
	vs.Point("try lock rwmutex", nil, func() {
		m.o.Order()
		if !m.writer && m.readers == 0 {
			m.writer, ok = true, true
			m.o.Acquire()
			m.ro.Acquire()
		}
	})
	return ok
}

func (m *RWMutex) Unlock() {
	if !vs.On() {
		m.real.Unlock()
		return
	}
	m.fresh()
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.o.Order()
	m.o.ReleaseSet()
}

func (m *RWMutex) RLock() {
	if !vs.On() {
		m.real.RLock()
		return
	}
	m.fresh()
	vs.Point("rlock rwmutex", func() bool { return !m.writer }, func() {
		m.readers++
		m.o.Add()
		m.o.Acquire()
	})
}

func (m *RWMutex) TryRLock() bool {
	if !vs.On() {
		return m.real.TryRLock()
	}
	m.fresh()
	ok := false
	vs.Point("try rlock rwmutex", nil, func() {
		m.o.Order()
		if !m.writer {
			m.readers++
			ok = true
			m.o.Acquire()
		}
	})
	return ok
}

func (m *RWMutex) RUnlock() {
	if !vs.On() {
		m.real.RUnlock()
		return
	}
	m.fresh()
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.o.Add()
	m.ro.Release()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct {
	o    vs.Obj
	n    int
	real sync.WaitGroup
}

func (w *WaitGroup) fresh() {
	if w.o.Fresh() {
		w.n = 0
	}
}

func (w *WaitGroup) Add(d int) {
	if !vs.On() {
		w.real.Add(d)
		return
	}
	w.fresh()
	do := func() {
		w.n += d
		w.o.Add()
		w.o.Release()
	}
	if d > 0 {
		vs.Point("add to wait group", nil, do)
	} else {
		do()
	}
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vs.Go(func() {
		defer w.Done()
		f()
	}, "WaitGroup.Go")
}

func (w *WaitGroup) Wait() {
	if !vs.On() {
		w.real.Wait()
		return
	}
	w.fresh()
	vs.Point("wait for wait group", func() bool { return w.n == 0 }, func() {
		w.o.Order()
		w.o.Acquire()
	})
}

type Once struct {
	m    Mutex
	done bool
	real sync.Once
}

func (o *Once) Do(f func()) {
	if !vs.On() {
		if o.done {
			return
		}
		o.real.Do(func() {
			o.done = true
			f()
		})
		return
	}
	// state outlives an execution only for objects made before it, as the values they guard do.
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

type Cond struct {
	L       Locker
	o       vs.Obj
	waiting []*waiter
	once    sync.Once
	real    *sync.Cond
}

type waiter struct{ woken bool }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) native() *sync.Cond {
	c.once.Do(func() { c.real = sync.NewCond(c.L) })
	return c.real
}

func (c *Cond) fresh() {
	if c.o.Fresh() {
		c.waiting = nil
	}
}

func (c *Cond) Wait() {
	if !vs.On() {
		c.native().Wait()
		return
	}
	c.fresh()
	w := &waiter{}
	c.waiting = append(c.waiting, w)
	c.o.Order()
	c.L.Unlock()
	vs.Point("wait for condition", func() bool { return w.woken }, func() {
		c.o.Order()
		c.o.Acquire()
	})
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !vs.On() {
		c.native().Signal()
		return
	}
	c.fresh()
	vs.Point("signal condition", nil, func() {
		c.o.Order()
		c.o.Release()
		if len(c.waiting) > 0 {
			c.waiting[0].woken = true
			c.waiting = c.waiting[1:]
		}
	})
}

func (c *Cond) Broadcast() {
	if !vs.On() {
		c.native().Broadcast()
		return
	}
	c.fresh()
	vs.Point("broadcast condition", nil, func() {
		c.o.Order()
		c.o.Release()
		for _, w := range c.waiting {
			w.woken = true
		}
		c.waiting = nil
	})
}

type Pool struct {
	New   func() any
	o     vs.Obj
	items []any
	mu    sync.Mutex
}

func (p *Pool) Get() any {
	var v any
	take := func() {
		if n := len(p.items); n > 0 {
			v = p.items[n-1]
			p.items = p.items[:n-1]
		}
	}
	if !vs.On() {
		p.mu.Lock()
		take()
		p.mu.Unlock()
	} else {
		if p.o.Fresh() {
			p.items = nil
		}
		vs.Point("get from pool", nil, func() {
			p.o.Order()
			p.o.Acquire()
			take()
		})
	}
	if v == nil && p.New != nil {
		v = p.New()
	}
	return v
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	if !vs.On() {
		p.mu.Lock()
		p.items = append(p.items, v)
		p.mu.Unlock()
		return
	}
	if p.o.Fresh() {
		p.items = nil
	}
	vs.Point("put into pool", nil, func() {
		p.o.Order()
		p.o.Release()
		p.items = append(p.items, v)
	})
}

type Map struct {
	o    vs.Obj
	keys []any
	m    map[any]any
	mu   sync.Mutex
}

func (p *Map) op(f func()) {
	if !vs.On() {
		p.mu.Lock()
		f()
		p.mu.Unlock()
		return
	}
	p.o.Fresh()
	vs.Point("use sync.Map", nil, func() {
		p.o.Order()
		p.o.Acquire()
		f()
		p.o.Release()
	})
}

func (p *Map) set(k, v any) {
	if p.m == nil {
		p.m = map[any]any{}
	}
	if _, ok := p.m[k]; !ok {
		p.keys = append(p.keys, k)
	}
	p.m[k] = v
}

func (p *Map) del(k any) {
	if _, ok := p.m[k]; !ok {
		return
	}
	delete(p.m, k)
	for i := range p.keys {
		if p.keys[i] == k {
			p.keys = append(p.keys[:i:i], p.keys[i+1:]...)
			break
		}
	}
}

func (p *Map) Load(k any) (v any, ok bool) {
	p.op(func() { v, ok = p.m[k] })
	return
}
func (p *Map) Store(k, v any) { p.op(func() { p.set(k, v) }) }
func (p *Map) LoadOrStore(k, v any) (act any, loaded bool) {
	p.op(func() {
		if act, loaded = p.m[k]; !loaded {
			act = v
			p.set(k, v)
		}
	})
	return
}
func (p *Map) LoadAndDelete(k any) (v any, ok bool) {
	p.op(func() {
		v, ok = p.m[k]
		p.del(k)
	})
	return
}
func (p *Map) Delete(k any) { p.op(func() { p.del(k) }) }
func (p *Map) Swap(k, v any) (prev any, ok bool) {
	p.op(func() {
		prev, ok = p.m[k]
		p.set(k, v)
	})
	return
}
func (p *Map) CompareAndSwap(k, old, v any) (ok bool) {
	p.op(func() {
		if c, has := p.m[k]; has && c == old {
			p.set(k, v)
			ok = true
		}
	})
	return
}
func (p *Map) CompareAndDelete(k, old any) (ok bool) {
	p.op(func() {
		if c, has := p.m[k]; has && c == old {
			p.del(k)
			ok = true
		}
	})
	return
}
func (p *Map) Range(f func(k, v any) bool) {
	var keys []any
	p.op(func() { keys = append(keys, p.keys...) })
	for _, k := range keys {
		if v, ok := p.Load(k); ok && !f(k, v) {
			return
		}
	}
}
func (p *Map) Clear() {
	p.op(func() { p.m, p.keys = nil, nil })
}
