//go:build go1.22

package vs

import (
	"fmt"
	"reflect"
	"unsafe"
)

// chanState is the modelled state of one channel. The channel object itself carries no data while an
// execution is controlled (other than values that uninstrumented code puts there, e.g. timers).
type chanState struct {
	id       int
	hold     any
	cap      int
	buf      []slot
	closed   bool
	h        uint64
	vc       VC   // clock released by close
	recvVC   []VC // clocks of past receives, for the buffer back edge
	recvGone int  // receives that were dropped from recvVC
	nSent    int
	external bool
	nNative  int // values in the real channel
}

type slot struct {
	v  any
	vc VC
}

type caser interface {
	desc() string
	state() *chanState // nil for a nil channel
	isSend() bool
	value() any // value to be sent
	deliver(v any, ok bool)
	pollReal() (any, bool, bool) // value, ok, something was there
	native() reflect.SelectCase
}

func chanPtr[T any](ch chan T) uintptr {
	return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
}

func getChan[T any](x *Exec, ch chan T, external bool) *chanState {
	if ch == nil {
		return nil
	}
	p := chanPtr(ch)
	s := x.chans[p]
	if s == nil {
		s = &chanState{id: len(x.chans) + 1, hold: ch, cap: cap(ch), h: 0xc4a7}
		x.chans[p] = s
		// values put there before the execution began.
		for i, n := 0, len(ch); i < n; i++ {
			v := <-ch
			s.buf = append(s.buf, slot{v: v})
			s.nSent++
			s.nNative++
			ch <- v
		}
	}
	if external {
		s.external = true
	}
	return s
}

// biCase is a send or receive case on a channel of T.
type biCase[T any] struct {
	ch   chan T
	s    *chanState
	send bool
	v    T
	ok   bool
}

func (c *biCase[T]) desc() string {
	k := "receive from"
	if c.send {
		k = "send to"
	}
	if c.s == nil {
		return k + " nil channel"
	}
	return fmt.Sprintf("%s channel %d", k, c.s.id)
}
func (c *biCase[T]) state() *chanState { return c.s }
func (c *biCase[T]) isSend() bool      { return c.send }
func (c *biCase[T]) value() any        { return c.v }
func (c *biCase[T]) deliver(v any, ok bool) {
	if v == nil {
		var z T
		c.v = z
	} else {
		c.v = v.(T)
	}
	c.ok = ok
}
func (c *biCase[T]) pollReal() (any, bool, bool) {
	select {
	case v, ok := <-c.ch:
		return v, ok, true
	default:
		return nil, false, false
	}
}

// A Case is one communication of a select.
type Case interface{ caser() caser }

// SC and RC are select cases.
type SC[T any] struct{ c *biCase[T] }
type RC[T any] struct{ c *biCase[T] }

func (s SC[T]) caser() caser { return s.c }
func (s RC[T]) caser() caser { return s.c }

// V is the received value.
func (s RC[T]) V() T { return s.c.v }

// VOK is the received value and whether the channel was open.
func (s RC[T]) VOK() (T, bool) { return s.c.v, s.c.ok }

func bi[T any](ch chan<- T) chan T  { return *(*chan T)(unsafe.Pointer(&ch)) }
func biR[T any](ch <-chan T) chan T { return *(*chan T)(unsafe.Pointer(&ch)) }

// SendCase makes a send case.
func SendCase[T any](ch chan<- T, v T) SC[T] {
	c := &biCase[T]{ch: bi(ch), send: true, v: v}
	if cur != nil {
		cur.checkAbort()
		c.s = getChan(cur, c.ch, false)
	}
	return SC[T]{c}
}

// RecvCase makes a receive case.
func RecvCase[T any](ch <-chan T) RC[T] {
	c := &biCase[T]{ch: biR(ch)}
	if cur != nil {
		cur.checkAbort()
		c.s = getChan(cur, c.ch, true)
	}
	return RC[T]{c}
}

// Select performs one of the cases; it returns its index or -1 for the default.
func Select(hasDefault bool, cs ...Case) int {
	x := cur
	if x == nil {
		return nativeSelect(hasDefault, cs)
	}
	x.checkAbort()
	t := curT
	t.p = pending{kind: opChan, name: "select", hasDef: hasDefault}
	for _, c := range cs {
		t.p.cases = append(t.p.cases, c.caser())
	}
	if len(cs) == 1 && !hasDefault {
		t.p.name = t.p.cases[0].desc()
	}
	x.visible(t)
	if t.p.chosen == -2 {
		panic("send on closed channel")
	}
	return t.p.chosen
}

// To is a channel to be sent on.
type To[T any] struct{ ch chan<- T }

// C wraps a channel to be sent on.
func C[T any](ch chan<- T) To[T] { return To[T]{ch} }

// Send is ch <- v.
func (c To[T]) Send(v T) {
	if cur == nil {
		c.ch <- v
		return
	}
	Select(false, SendCase(c.ch, v))
}

// Case is case ch <- v.
func (c To[T]) Case(v T) SC[T] { return SendCase(c.ch, v) }

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	if cur == nil {
		return <-ch
	}
	c := RecvCase(ch)
	Select(false, c)
	return c.V()
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if cur == nil {
		v, ok := <-ch
		return v, ok
	}
	c := RecvCase(ch)
	Select(false, c)
	return c.VOK()
}

// Close closes a channel.
func Close[T any](ch chan<- T) {
	x := cur
	if x == nil {
		close(ch)
		return
	}
	x.checkAbort()
	if ch == nil {
		panic("close of nil channel")
	}
	s := getChan(x, bi(ch), false)
	t := curT
	bad := false
	t.p = pending{kind: opSimple, name: fmt.Sprintf("close channel %d", s.id), do: func() {
		if s.closed {
			bad = true
			return
		}
		s.closed = true
		s.vc = t.vc.clone()
		t.tick()
		t.h = mix(mix(t.h, 0xc105e), s.h)
		s.h = t.h
	}}
	x.visible(t)
	if bad {
		panic("close of closed channel")
	}
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	x := cur
	if x == nil {
		return len(ch)
	}
	x.checkAbort()
	s := getChan(x, biR(ch), false)
	if s == nil {
		return 0
	}
	t := curT
	n := 0
	t.p = pending{kind: opSimple, name: fmt.Sprintf("len of channel %d", s.id), do: func() {
		n = len(s.buf)
		t.h = mix(mix(t.h, 0x1e4), s.h)
		s.h = t.h
	}}
	x.visible(t)
	return n
}

// chanAlts appends the enabled communications of t.
func (x *Exec) chanAlts(t *thread, res []alt) []alt {
	n0 := len(res)
	for ci, c := range t.p.cases {
		s := c.state()
		if s == nil {
			continue
		}
		if c.isSend() {
			if s.closed || len(s.buf) < s.cap {
				res = append(res, alt{t: t, ci: ci})
				continue
			}
			if s.cap == 0 {
				for _, o := range x.live {
					if o == t || o.done || o.p.kind != opChan {
						continue
					}
					for pi, oc := range o.p.cases {
						if oc.state() == s && !oc.isSend() {
							res = append(res, alt{t: t, ci: ci, partner: o, pci: pi})
						}
					}
				}
			}
			continue
		}
		if len(s.buf) > 0 || s.closed {
			res = append(res, alt{t: t, ci: ci})
			continue
		}
		if s.external && s.nNative == 0 {
			if v, ok, there := c.pollReal(); there {
				if ok {
					s.buf = append(s.buf, slot{v: v})
				} else {
					s.closed = true
				}
				res = append(res, alt{t: t, ci: ci})
				continue
			}
		}
		// an unbuffered rendezvous is initiated by the sender, unless the sender is in a select with a
		// default or has further cases: those are covered by the sender's own alternatives as well.
	}
	if t.p.hasDef {
		// the default runs if no communication is ready. A thread that is about to communicate need not
		// have got there yet, so a rendezvous with it does not rule the default out.
		for _, a := range res[n0:] {
			if a.partner == nil {
				return res
			}
		}
		res = append(res, alt{t: t, ci: -1})
	}
	return res
}

// doChan performs a communication.
func (x *Exec) doChan(a alt) {
	t := a.t
	t.p.chosen = a.ci
	t.h = mix(t.h, uint64(a.ci+2))
	if a.ci < 0 {
		h := uint64(0xdef)
		for _, c := range t.p.cases {
			if s := c.state(); s != nil {
				h = mix(h, s.h)
				s.h = mix(s.h, mix(t.h, 0xdef))
			}
		}
		t.h = mix(t.h, h)
		return
	}
	c := t.p.cases[a.ci]
	s := c.state()
	if c.isSend() {
		if s.closed {
			// performed by the thread itself so that the panic has its stack.
			t.p.chosen = -2
			t.h = mix(t.h, 0xbad)
			return
		}
		if a.partner != nil {
			o := a.partner
			o.p.cases[a.pci].deliver(c.value(), true)
			o.p.chosen = a.pci
			h := mix(mix(mix(t.h, o.h), s.h), 0x5e4d+uint64(a.pci))
			t.h = mix(h, 1)
			o.h = mix(h, 2)
			s.h = mix(h, 3)
			tv := t.vc.clone()
			t.vc.join(o.vc)
			o.vc.join(tv)
			t.tick()
			o.tick()
			o.p.kind = opInvisible
			return
		}
		s.buf = append(s.buf, slot{v: c.value(), vc: t.vc.clone()})
		s.nSent++
		// the k-th receive happens before the (k+cap)-th send completes.
		// receives before that one are of no use any more.
		if k := s.nSent - s.cap - 1 - s.recvGone; k >= 0 && k < len(s.recvVC) {
			t.vc.join(s.recvVC[k])
			s.recvVC, s.recvGone = s.recvVC[k:], s.recvGone+k
		}
		t.tick()
		t.h = mix(mix(t.h, 0x5e4e), s.h)
		s.h = t.h
		return
	}
	if len(s.buf) > 0 {
		sl := s.buf[0]
		s.buf = s.buf[1:]
		s.recvVC = append(s.recvVC, t.vc.clone())
		t.vc.join(sl.vc)
		t.tick()
		c.deliver(sl.v, true)
	} else {
		t.vc.join(s.vc)
		c.deliver(nil, false)
	}
	t.h = mix(mix(t.h, 0x4ecf), s.h)
	s.h = t.h
}

func (c *biCase[T]) native() reflect.SelectCase {
	if c.send {
		return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
	}
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}

func nativeSelect(hasDefault bool, cs []Case) int {
	var rc []reflect.SelectCase
	for _, c := range cs {
		rc = append(rc, c.caser().native())
	}
	if hasDefault {
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(rc)
	if i == len(cs) {
		return -1
	}
	if c := cs[i].caser(); !c.isSend() {
		if ok {
			c.deliver(v.Interface(), true)
		} else {
			c.deliver(nil, false)
		}
	}
	return i
}

// Block blocks forever.
func Block() {
	if cur == nil {
		select {}
	}
	Select(false)
}

// ZeroC is the zero element of a channel.
func ZeroC[T any](ch <-chan T) (v T) { return }

// Range1 starts ranging over a channel.
func Range1[T any](ch <-chan T) (<-chan T, T, bool) {
	v, ok := Recv2(ch)
	return ch, v, ok
}
