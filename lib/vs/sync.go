//go:build go1.22

package vs

import "reflect"

// Obj is the exploration state of a synchronisation object. It starts afresh in every execution.
type Obj struct {
	exec uint64
	h    uint64 // ordered history
	sum  uint64 // commutative history since the last ordered operation
	vc   VC
}

// On reports whether the calling code runs inside a controlled execution; it ends the goroutine if the
// execution is over.
func On() bool {
	if cur == nil {
		return false
	}
	cur.checkAbort()
	return true
}

// Fresh binds the object to the current execution; it reports true if it has not been used in it before.
func (o *Obj) Fresh() bool {
	if o.exec == cur.id {
		return false
	}
	*o = Obj{exec: cur.id}
	return true
}

// Point waits until the scheduler lets the current thread perform the operation; do is performed then.
func Point(name string, enabled func() bool, do func()) {
	t := curT
	t.p = pending{kind: opSimple, name: name, enabled: enabled, do: do}
	cur.visible(t)
}

// Order puts the current thread's operation into the object's ordered history.
func (o *Obj) Order() {
	t := curT
	t.h = mix(mix(t.h, o.h), o.sum)
	o.h = t.h
	o.sum = 0
}

// Add puts the current thread's operation into the commutative history.
func (o *Obj) Add() {
	t := curT
	t.h = mix(mix(t.h, 0xadd), o.h)
	o.sum += mix(t.h, 0x3)
}

// Acquire makes everything released into the object happen before what follows.
func (o *Obj) Acquire() { curT.vc.join(o.vc) }

// Release publishes the current thread's past.
func (o *Obj) Release() {
	o.vc.join(curT.vc)
	curT.tick()
}

// ReleaseSet publishes the current thread's past only.
func (o *Obj) ReleaseSet() {
	o.vc = curT.vc.clone()
	curT.tick()
}

var fs Obj

// SysHook may make a file operation fail: it gets the number of the operation, its name and the file it is
// called on, if any, and returns the error; done runs the operation first.
var (
	SysHook  func(n int, name string, file any) (err error, done bool)
	SysCount int
)

// Sys makes a function that looks at or changes files a scheduling point.
func Sys[F any](f F, name string, file ...any) F {
	v := reflect.ValueOf(f)
	t := v.Type()
	return reflect.MakeFunc(t, func(args []reflect.Value) []reflect.Value {
		if On() {
			fs.Fresh()
			Point(name, nil, func() { fs.Order() })
		}
		var fail error
		done := true
		if SysHook != nil && t.NumOut() > 0 && t.Out(t.NumOut()-1) == reflect.TypeFor[error]() {
			var x any
			if len(file) > 0 {
				x = file[0]
			}
			SysCount++
			fail, done = SysHook(SysCount-1, name, x)
		}
		var res []reflect.Value
		if fail == nil || done {
			if t.IsVariadic() {
				res = v.CallSlice(args)
			} else {
				res = v.Call(args)
			}
		}
		if fail != nil {
			res = nil
			for i := 0; i < t.NumOut()-1; i++ {
				res = append(res, reflect.Zero(t.Out(i)))
			}
			res = append(res, reflect.ValueOf(&fail).Elem())
		}
		return res
	}).Interface().(F)
}
