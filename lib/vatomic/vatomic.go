//go:build go1.22

// Package vatomic stands in for package sync/atomic in instrumented code.
package vatomic

import (
	"sync"
	"unsafe"

	"github.com/ynqa/wego/verifrt/vs"
)

var mu sync.Mutex

var objs = map[unsafe.Pointer]*vs.Obj{}

func init() { vs.OnReset(func() { clear(objs) }) }

func op(p unsafe.Pointer, write bool, f func()) {
	if !vs.On() {
		mu.Lock()
		f()
		mu.Unlock()
		return
	}
	o := objs[p]
	if o == nil {
		o = &vs.Obj{}
		objs[p] = o
	}
	o.Fresh()
	vs.Point("atomic operation", nil, func() {
		if write {
			o.Order()
		} else {
			o.Add()
		}
		o.Acquire()
		f()
		if write {
			o.Release()
		}
	})
}

func AddInt32(p *int32, d int32) (r int32) {
	op(unsafe.Pointer(p), true, func() { *p += d; r = *p })
	return
}
func AndInt32(p *int32, d int32) (r int32) {
	op(unsafe.Pointer(p), true, func() { r = *p; *p &= d })
	return
}
func OrInt32(p *int32, d int32) (r int32) {
	op(unsafe.Pointer(p), true, func() { r = *p; *p |= d })
	return
}
func LoadInt32(p *int32) (r int32) { op(unsafe.Pointer(p), false, func() { r = *p }); return }
func StoreInt32(p *int32, v int32) { op(unsafe.Pointer(p), true, func() { *p = v }) }
func SwapInt32(p *int32, v int32) (r int32) {
	op(unsafe.Pointer(p), true, func() { r = *p; *p = v })
	return
}
func CompareAndSwapInt32(p *int32, o, n int32) (ok bool) {
	op(unsafe.Pointer(p), true, func() {
		if *p == o {
			*p, ok = n, true
		}
	})
	return
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) And(d int32) int32              { return AndInt32(&x.v, d) }
func (x *Int32) Or(d int32) int32               { return OrInt32(&x.v, d) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

func AddInt64(p *int64, d int64) (r int64) {
	op(unsafe.Pointer(p), true, func() { *p += d; r = *p })
	return
}
func AndInt64(p *int64, d int64) (r int64) {
	op(unsafe.Pointer(p), true, func() { r = *p; *p &= d })
	return
}
func OrInt64(p *int64, d int64) (r int64) {
	op(unsafe.Pointer(p), true, func() { r = *p; *p |= d })
	return
}
func LoadInt64(p *int64) (r int64) { op(unsafe.Pointer(p), false, func() { r = *p }); return }
func StoreInt64(p *int64, v int64) { op(unsafe.Pointer(p), true, func() { *p = v }) }
func SwapInt64(p *int64, v int64) (r int64) {
	op(unsafe.Pointer(p), true, func() { r = *p; *p = v })
	return
}
func CompareAndSwapInt64(p *int64, o, n int64) (ok bool) {
	op(unsafe.Pointer(p), true, func() {
		if *p == o {
			*p, ok = n, true
		}
	})
	return
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) And(d int64) int64              { return AndInt64(&x.v, d) }
func (x *Int64) Or(d int64) int64               { return OrInt64(&x.v, d) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

func AddUint32(p *uint32, d uint32) (r uint32) {
	op(unsafe.Pointer(p), true, func() { *p += d; r = *p })
	return
}
func AndUint32(p *uint32, d uint32) (r uint32) {
	op(unsafe.Pointer(p), true, func() { r = *p; *p &= d })
	return
}
func OrUint32(p *uint32, d uint32) (r uint32) {
	op(unsafe.Pointer(p), true, func() { r = *p; *p |= d })
	return
}
func LoadUint32(p *uint32) (r uint32) { op(unsafe.Pointer(p), false, func() { r = *p }); return }
func StoreUint32(p *uint32, v uint32) { op(unsafe.Pointer(p), true, func() { *p = v }) }
func SwapUint32(p *uint32, v uint32) (r uint32) {
	op(unsafe.Pointer(p), true, func() { r = *p; *p = v })
	return
}
func CompareAndSwapUint32(p *uint32, o, n uint32) (ok bool) {
	op(unsafe.Pointer(p), true, func() {
		if *p == o {
			*p, ok = n, true
		}
	})
	return
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) And(d uint32) uint32             { return AndUint32(&x.v, d) }
func (x *Uint32) Or(d uint32) uint32              { return OrUint32(&x.v, d) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

func AddUint64(p *uint64, d uint64) (r uint64) {
	op(unsafe.Pointer(p), true, func() { *p += d; r = *p })
	return
}
func AndUint64(p *uint64, d uint64) (r uint64) {
	op(unsafe.Pointer(p), true, func() { r = *p; *p &= d })
	return
}
func OrUint64(p *uint64, d uint64) (r uint64) {
	op(unsafe.Pointer(p), true, func() { r = *p; *p |= d })
	return
}
func LoadUint64(p *uint64) (r uint64) { op(unsafe.Pointer(p), false, func() { r = *p }); return }
func StoreUint64(p *uint64, v uint64) { op(unsafe.Pointer(p), true, func() { *p = v }) }
func SwapUint64(p *uint64, v uint64) (r uint64) {
	op(unsafe.Pointer(p), true, func() { r = *p; *p = v })
	return
}
func CompareAndSwapUint64(p *uint64, o, n uint64) (ok bool) {
	op(unsafe.Pointer(p), true, func() {
		if *p == o {
			*p, ok = n, true
		}
	})
	return
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) And(d uint64) uint64             { return AndUint64(&x.v, d) }
func (x *Uint64) Or(d uint64) uint64              { return OrUint64(&x.v, d) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

func AddUintptr(p *uintptr, d uintptr) (r uintptr) {
	op(unsafe.Pointer(p), true, func() { *p += d; r = *p })
	return
}
func AndUintptr(p *uintptr, d uintptr) (r uintptr) {
	op(unsafe.Pointer(p), true, func() { r = *p; *p &= d })
	return
}
func OrUintptr(p *uintptr, d uintptr) (r uintptr) {
	op(unsafe.Pointer(p), true, func() { r = *p; *p |= d })
	return
}
func LoadUintptr(p *uintptr) (r uintptr) { op(unsafe.Pointer(p), false, func() { r = *p }); return }
func StoreUintptr(p *uintptr, v uintptr) { op(unsafe.Pointer(p), true, func() { *p = v }) }
func SwapUintptr(p *uintptr, v uintptr) (r uintptr) {
	op(unsafe.Pointer(p), true, func() { r = *p; *p = v })
	return
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) (ok bool) {
	op(unsafe.Pointer(p), true, func() {
		if *p == o {
			*p, ok = n, true
		}
	})
	return
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) And(d uintptr) uintptr            { return AndUintptr(&x.v, d) }
func (x *Uintptr) Or(d uintptr) uintptr             { return OrUintptr(&x.v, d) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }

type Bool struct{ v uint32 }

func b32(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}
func (x *Bool) Load() bool                    { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(v bool)                  { StoreUint32(&x.v, b32(v)) }
func (x *Bool) Swap(v bool) bool              { return SwapUint32(&x.v, b32(v)) != 0 }
func (x *Bool) CompareAndSwap(o, n bool) bool { return CompareAndSwapUint32(&x.v, b32(o), b32(n)) }

type Value struct{ v any }

func (x *Value) Load() (r any) { op(unsafe.Pointer(x), false, func() { r = x.v }); return }
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	op(unsafe.Pointer(x), true, func() { x.v = v })
}
func (x *Value) Swap(v any) (r any) { op(unsafe.Pointer(x), true, func() { r = x.v; x.v = v }); return }
func (x *Value) CompareAndSwap(o, n any) (ok bool) {
	op(unsafe.Pointer(x), true, func() {
		if x.v == o {
			x.v, ok = n, true
		}
	})
	return
}

type Pointer[T any] struct{ p *T }

func (x *Pointer[T]) Load() (r *T) { op(unsafe.Pointer(x), false, func() { r = x.p }); return }
func (x *Pointer[T]) Store(v *T)   { op(unsafe.Pointer(x), true, func() { x.p = v }) }
func (x *Pointer[T]) Swap(v *T) (r *T) {
	op(unsafe.Pointer(x), true, func() { r = x.p; x.p = v })
	return
}
func (x *Pointer[T]) CompareAndSwap(o, n *T) (ok bool) {
	op(unsafe.Pointer(x), true, func() {
		if x.p == o {
			x.p, ok = n, true
		}
	})
	return
}

func LoadPointer(p *unsafe.Pointer) (r unsafe.Pointer) {
	op(unsafe.Pointer(p), false, func() { r = *p })
	return
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	op(unsafe.Pointer(p), true, func() { *p = v })
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) (r unsafe.Pointer) {
	op(unsafe.Pointer(p), true, func() { r = *p; *p = v })
	return
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) (ok bool) {
	op(unsafe.Pointer(p), true, func() {
		if *p == o {
			*p, ok = n, true
		}
	})
	return
}
