//go:build go1.22

package vs

import (
	"cmp"
	"fmt"
	"sort"
	"unsafe"
)

// Sites names the memory accesses of the instrumented code; SiteNum tells which touch plain numbers
// only. Both are filled in by a generated file.
var (
	Sites   []string
	SiteNum []bool
)

func siteName(i int) string {
	if i >= 0 && i < len(Sites) {
		return Sites[i]
	}
	return fmt.Sprintf("site %d", i)
}

type epoch struct {
	tid  int32
	site int32
	clk  uint32
}

type shadowCell struct {
	by     int32 // thread of the first access
	shared bool  // accessed by more than one thread
	w      epoch
	reads  []epoch
}

// memObj orders accesses to one racy variable.
type memObj struct {
	wh, rh uint64
}

var cellSlab []shadowCell

func (x *Exec) cell(a uintptr) *shadowCell {
	c := x.shadow[a]
	if c == nil {
		if len(cellSlab) == 0 {
			cellSlab = make([]shadowCell, 256)
		}
		c = &cellSlab[0]
		cellSlab = cellSlab[1:]
		c.w.tid = -1
		c.by = int32(curT.id)
		x.shadow[a] = c
	}
	return c
}

func (x *Exec) race(a, b int32) {
	na := a < 0 || int(a) < len(SiteNum) && SiteNum[a]
	nb := b < 0 || int(b) < len(SiteNum) && SiteNum[b]
	r := Race{A: siteName(int(a)), B: siteName(int(b)), Numeric: na && nb}
	if r.A > r.B {
		r.A, r.B = r.B, r.A
	}
	x.Races[r]++
	if x.e.o.NumPoints || !r.Numeric {
		for _, s := range []int32{a, b} {
			if !x.e.racySites[s] {
				x.e.newRacy[int(s)] = true
			}
		}
	}
}

func (x *Exec) access(a uintptr, write bool, site int) {
	t := curT
	c := x.cell(a)
	clk := t.vc.get(t.id)
	if int(c.by) != t.id {
		c.shared = true
	}
	if c.w.tid >= 0 && int(c.w.tid) != t.id && c.w.clk > t.vc.get(int(c.w.tid)) {
		x.race(c.w.site, int32(site))
	}
	if write {
		for _, r := range c.reads {
			if int(r.tid) != t.id && r.clk > t.vc.get(int(r.tid)) {
				x.race(r.site, int32(site))
			}
		}
		c.w = epoch{int32(t.id), int32(site), clk}
		c.reads = c.reads[:0]
		return
	}
	for i := range c.reads {
		if int(c.reads[i].tid) == t.id {
			c.reads[i] = epoch{int32(t.id), int32(site), clk}
			return
		}
	}
	c.reads = append(c.reads, epoch{int32(t.id), int32(site), clk})
}

// Unordered names the writes to shared memory by other goroutines that nothing orders before this point.
func Unordered() []string {
	x := cur
	if x == nil || curT == nil {
		return nil
	}
	seen := map[string]bool{}
	for _, c := range x.shadow {
		if c.shared && c.w.tid >= 0 && int(c.w.tid) != curT.id && c.w.clk > curT.vc.get(int(c.w.tid)) {
			seen[siteName(int(c.w.site))] = true
		}
	}
	var l []string
	for s := range seen {
		l = append(l, s)
	}
	sort.Strings(l)
	return l
}

func (x *Exec) memHash(a uintptr, write bool) {
	m := x.mem[a]
	if m == nil {
		m = &memObj{wh: 0x3e3}
		x.mem[a] = m
	}
	t := curT
	if write {
		t.h = mix(mix(t.h, m.wh), m.rh)
		m.wh, m.rh = t.h, 0
	} else {
		t.h = mix(mix(t.h, m.wh), 0x4ead)
		m.rh += mix(t.h, 5)
	}
}

// sink keeps everything whose address is recorded on the heap: a stack that moves, or is used again by a
// later goroutine, would make different objects share an address.
var sink unsafe.Pointer
var never bool

func touch(p unsafe.Pointer, size uintptr, write bool, site int) {
	if never {
		sink = p
	}
	x := cur
	if x == nil || x.aborting || !x.multi || x.e.o.NoMem || curT == nil {
		return
	}
	a := uintptr(p)
	if x.e.racySites[site] {
		kind := "read "
		if write {
			kind = "write "
		}
		Point(kind+siteName(site), nil, func() { x.memHash(a, write) })
	}
	if size <= 8 {
		x.access(a, write, site)
		return
	}
	for o := uintptr(0); o < size; o += 8 {
		x.access(a+o, write, site)
	}
}

// R notes a read of *p.
func R[T any](p *T, site int) *T {
	if p != nil {
		touch(unsafe.Pointer(p), unsafe.Sizeof(*p), false, site)
	}
	return p
}

// W notes a write of *p.
func W[T any](p *T, site int) *T {
	if p != nil {
		touch(unsafe.Pointer(p), unsafe.Sizeof(*p), true, site)
	}
	return p
}

// RW notes a read and a write of *p.
func RW[T any](p *T, site int) *T {
	if p != nil {
		touch(unsafe.Pointer(p), unsafe.Sizeof(*p), true, site)
	}
	return p
}

// StateR notes a read of a value whose parts only uninstrumented code sees.
func StateR[T any](p *T, site int) *T {
	if p != nil {
		touch(unsafe.Pointer(p), 1, false, site)
	}
	return p
}

// StateW notes a write of such a value.
func StateW[T any](p *T, site int) *T {
	if p != nil {
		touch(unsafe.Pointer(p), 1, true, site)
	}
	return p
}

// Loc is a location to be assigned.
type Loc[T any] struct {
	p    *T
	site int
}

// At names a location before the assigned value is computed.
func At[T any](p *T, site int) Loc[T] { return Loc[T]{p, site} }

// Set assigns it.
func (l Loc[T]) Set(v T) {
	if l.p != nil {
		touch(unsafe.Pointer(l.p), unsafe.Sizeof(v), true, l.site)
	}
	*l.p = v
}

// RS notes reads of all elements.
func RS[T any, S ~[]T](s S, site int) S {
	if x := cur; x != nil && x.multi && !x.e.o.NoMem {
		for i := range s {
			R(&s[i], site)
		}
	}
	return s
}

// WS notes writes of the first n elements (all if n < 0).
func WS[T any, S ~[]T](s S, n int, site int) S {
	if x := cur; x != nil && x.multi && !x.e.o.NoMem {
		for i := range s {
			if n >= 0 && i >= n {
				break
			}
			W(&s[i], site)
		}
	}
	return s
}

// App notes the writes of appending n elements to s within its capacity.
func App[T any, S ~[]T](s S, n int, site int) S {
	if x := cur; x != nil && x.multi && !x.e.o.NoMem && n > 0 && cap(s)-len(s) >= n {
		t := s[len(s) : len(s)+n]
		for i := range t {
			W(&t[i], site)
		}
	}
	return s
}

func mapAddr[K comparable, V any](m map[K]V) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// MapR notes a read of a map.
func MapR[K comparable, V any, M ~map[K]V](m M, site int) M {
	if m != nil {
		touch(mapAddr(map[K]V(m)), 1, false, site)
	}
	return m
}

// MapW notes a write of a map.
func MapW[K comparable, V any, M ~map[K]V](m M, site int) M {
	if m != nil {
		touch(mapAddr(map[K]V(m)), 1, true, site)
	}
	return m
}

// KeysOf returns the keys of a map in the order of iteration: sorted, or every order if map orders are
// enumerated.
func KeysOf[K comparable, V any, M ~map[K]V](m M, site int) []K {
	MapR(m, site)
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return less(any(keys[i]), any(keys[j])) })
	if x := cur; x != nil && x.e.o.MapOrder {
		for i := 0; i+1 < len(keys); i++ {
			j := i + Choose(len(keys)-i)
			k := keys[j]
			copy(keys[i+1:j+1], keys[i:j])
			keys[i] = k
		}
	}
	return keys
}

// ZeroK is the zero key of a map.
func ZeroK[K comparable, V any, M ~map[K]V](m M) (k K) { return }

// ZeroV is the zero element of a map.
func ZeroV[K comparable, V any, M ~map[K]V](m M) (v V) { return }

// ZeroE is the zero element of a slice.
func ZeroE[T any, S ~[]T](s S) (v T) { return }

// Has reports whether a key is (still) in the map.
func Has[K comparable, V any, M ~map[K]V](m M, k K) bool {
	_, ok := m[k]
	return ok
}

func less(a, b any) bool {
	switch x := a.(type) {
	case string:
		return x < b.(string)
	case int:
		return x < b.(int)
	case uint64:
		return x < b.(uint64)
	case int64:
		return x < b.(int64)
	case uint32:
		return x < b.(uint32)
	case rune:
		return x < b.(rune)
	case float64:
		return cmp.Less(x, b.(float64))
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}
