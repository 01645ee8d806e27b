package rt

import (
	"fmt"
	"reflect"
	"strings"
	"unsafe"
)

// VC is a vector clock.
type VC []uint32

func (v *VC) set(i int, c uint32) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i] = c
}
func (v VC) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}
func (v VC) clone() VC { return append(VC(nil), v...) }
func (v *VC) join(o VC) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, c := range o {
		if c > (*v)[i] {
			(*v)[i] = c
		}
	}
}
func (v *VC) tick(i int) { v.set(i, v.get(i)+1) }
func (v VC) leq(o VC) bool {
	for i, c := range v {
		if c > o.get(i) {
			return false
		}
	}
	return true
}

// SyncVar carries happens-before edges.
type SyncVar struct{ vc VC }

// Acquire joins the sync variable into the current task.
func (x *SyncVar) Acquire() {
	if s := S; s != nil && s.race != nil && s.cur != nil {
		s.cur.vc.join(x.vc)
	}
}

// Release joins the current task into the sync variable.
func (x *SyncVar) Release() {
	if s := S; s != nil && s.race != nil && s.cur != nil {
		x.vc.join(s.cur.vc)
		s.cur.vc.tick(s.cur.ID)
	}
}

// ReleaseStore replaces the sync variable.
func (x *SyncVar) ReleaseStore() {
	if s := S; s != nil && s.race != nil && s.cur != nil {
		x.vc = s.cur.vc.clone()
		s.cur.vc.tick(s.cur.ID)
	}
}

// Reset forgets all edges.
func (x *SyncVar) Reset() { x.vc = nil }

type acc struct {
	task int32
	site int32
	clk  uint32
}

type cell struct {
	w      acc
	r      []acc
	aw, ar []acc // atomic accesses
	hasW   bool
}

type raceState struct {
	cells map[uintptr]*cell
	hits  int
	seen  map[string]bool
}

func newRace() *raceState {
	return &raceState{cells: map[uintptr]*cell{}, seen: map[string]bool{}}
}

var leafCache = map[reflect.Type][]uintptr{}

func leaves(t reflect.Type) []uintptr {
	if l, ok := leafCache[t]; ok {
		return l
	}
	var out []uintptr
	var walk func(t reflect.Type, off uintptr)
	walk = func(t reflect.Type, off uintptr) {
		if len(out) > 256 || t.Size() == 0 {
			return
		}
		if p := t.PkgPath(); strings.HasSuffix(p, "zzverif/sync") || strings.HasSuffix(p, "zzverif/atomic") {
			return
		}
		switch t.Kind() {
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				f := t.Field(i)
				walk(f.Type, off+f.Offset)
			}
		case reflect.Array:
			for i := 0; i < t.Len(); i++ {
				walk(t.Elem(), off+uintptr(i)*t.Elem().Size())
			}
		default:
			out = append(out, off)
		}
	}
	walk(t, 0)
	leafCache[t] = out
	return out
}

func (s *Sim) access(addr uintptr, t reflect.Type, write bool, site int) {
	l := leaves(t)
	for _, o := range l {
		s.accessLeaf(addr+o, write, site)
	}
}

func (s *Sim) ordered(a acc) bool {
	return int(a.task) == s.cur.ID || a.clk <= s.cur.vc.get(int(a.task))
}

func (s *Sim) accessLeaf(addr uintptr, write bool, site int) {
	r := s.race
	c := r.cells[addr]
	if c == nil {
		c = &cell{}
		r.cells[addr] = c
	}
	me := acc{task: int32(s.cur.ID), site: int32(site), clk: s.cur.vc.get(s.cur.ID)}
	if c.hasW && !s.ordered(c.w) {
		s.reportRace(c.w, true, me, write)
	}
	for _, a := range c.aw {
		if !s.ordered(a) {
			s.reportRace(a, true, me, write)
		}
	}
	if write {
		for _, a := range c.r {
			if !s.ordered(a) {
				s.reportRace(a, false, me, write)
			}
		}
		for _, a := range c.ar {
			if !s.ordered(a) {
				s.reportRace(a, false, me, write)
			}
		}
		c.w = me
		c.hasW = true
		c.r = c.r[:0]
		return
	}
	for i := range c.r {
		if c.r[i].task == me.task {
			c.r[i] = me
			return
		}
	}
	c.r = append(c.r, me)
}

// atomicAccess checks function-form atomics against plain accesses of the same
// address.
func (s *Sim) atomicAccess(addr uintptr, write bool) {
	r := s.race
	c := r.cells[addr]
	if c == nil {
		c = &cell{}
		r.cells[addr] = c
	}
	me := acc{task: int32(s.cur.ID), site: -1, clk: s.cur.vc.get(s.cur.ID)}
	if c.hasW && !s.ordered(c.w) {
		s.reportRace(c.w, true, me, write)
	}
	if write {
		for _, a := range c.r {
			if !s.ordered(a) {
				s.reportRace(a, false, me, write)
			}
		}
	}
	l := &c.ar
	if write {
		l = &c.aw
	}
	for i := range *l {
		if (*l)[i].task == me.task {
			(*l)[i] = me
			return
		}
	}
	*l = append(*l, me)
}

func siteStr(i int32) (string, string) {
	if i < 0 || int(i) >= len(Sites) {
		return "atomic", "sync/atomic operation"
	}
	x := Sites[i]
	fn := x.Func
	if k := strings.LastIndex(fn, "/"); k >= 0 {
		fn = fn[k+1:]
	}
	return fn, fmt.Sprintf("%s (%s) at %s", fn, x.Expr, x.Pos)
}

// IgnoreRace, when set, decides whether a racing pair is out of scope.
var IgnoreRace func(fa, fb string) bool

func (s *Sim) reportRace(a acc, aw bool, b acc, bw bool) {
	fa, da := siteStr(a.site)
	fb, db := siteStr(b.site)
	if IgnoreRace != nil && IgnoreRace(fa, fb) {
		return
	}
	k := [2]string{fa, fb}
	if k[0] > k[1] {
		k[0], k[1] = k[1], k[0]
	}
	ops := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	key := "race:" + k[0] + "|" + k[1]
	if s.race.seen[key] {
		return
	}
	s.race.seen[key] = true
	msg := fmt.Sprintf("data race: %s in %s by task %d is unordered with %s in %s by task %d",
		ops(bw), db, b.task, ops(aw), da, a.task)
	if s.OnRace != nil {
		s.OnRace(key, msg)
		return
	}
	s.fail(key, msg)
	s.abort()
}

var sink unsafe.Pointer

// R is a shared read of *p.
//
//go:noinline
func R[T any](p *T, site int) *T {
	if !fine {
		return p
	}
	memPoint(unsafe.Pointer(p), site, false, func() reflect.Type { return reflect.TypeFor[T]() })
	return p
}

// W is a shared write of *p.
//
//go:noinline
func W[T any](p *T, site int) *T {
	if !fine {
		return p
	}
	memPoint(unsafe.Pointer(p), site, true, func() reflect.Type { return reflect.TypeFor[T]() })
	return p
}

func memPoint(p unsafe.Pointer, site int, write bool, tf func() reflect.Type) {
	sink = p
	if p == nil {
		return
	}
	s := S
	if s == nil || s.cur == nil || s.noYield > 0 {
		return
	}
	Point("mem")
	if s.race != nil && !s.cur.killed {
		s.access(uintptr(p), tf(), write, site)
	}
}

var byteType = reflect.TypeFor[byte]()

func mapPtr[M any](m M) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&m)) }

// RM is a read of a map.
func RM[M ~map[K]V, K comparable, V any](m M, site int) M {
	if fine && m != nil {
		memPoint(mapPtr(m), site, false, func() reflect.Type { return byteType })
	}
	return m
}

// WM is a write of a map.
func WM[M ~map[K]V, K comparable, V any](m M, site int) M {
	if fine && m != nil {
		memPoint(mapPtr(m), site, true, func() reflect.Type { return byteType })
	}
	return m
}

// RSlice is a read of every element of a slice.
func RSlice[S1 ~[]T, T any](x S1, site int) S1 {
	if fine && len(x) > 0 {
		s := S
		if s == nil || s.cur == nil || s.noYield > 0 {
			return x
		}
		Point("mem")
		if s.race != nil {
			t := reflect.TypeFor[T]()
			n := len(x)
			if n > 64 {
				n = 64
			}
			for i := 0; i < n; i++ {
				s.access(uintptr(unsafe.Pointer(&x[i])), t, false, site)
			}
		}
	}
	return x
}

// Copy is the builtin copy with both sides reported.
func Copy[D ~[]T, S1 ~[]T, T any](dst D, src S1, sw, sr int) int {
	n := len(dst)
	if len(src) < n {
		n = len(src)
	}
	if n > 0 {
		RSlice(src[:n], sr)
		if fine {
			if s := S; s != nil && s.cur != nil && s.noYield == 0 {
				Point("mem")
				if s.race != nil {
					t := reflect.TypeFor[T]()
					for i := 0; i < n && i < 64; i++ {
						s.access(uintptr(unsafe.Pointer(&dst[i])), t, true, sw)
					}
				}
			}
		}
	}
	return copy(dst, src)
}

// AppendTo reports that n elements are appended to x: a write of the elements
// behind the last if there is room, a read of all of them otherwise.
func AppendTo[S1 ~[]T, T any](x S1, n, site int) S1 {
	if !fine || n == 0 || cap(x) == 0 {
		return x
	}
	s := S
	if s == nil || s.cur == nil || s.noYield > 0 {
		return x
	}
	Point("mem")
	if s.race != nil && !s.cur.killed {
		t := reflect.TypeFor[T]()
		room := x[:cap(x)]
		from, to, write := 0, len(x), false
		if len(x)+n <= cap(x) {
			from, to, write = len(x), len(x)+n, true
		}
		for i := from; i < to && i < from+64; i++ {
			s.access(uintptr(unsafe.Pointer(&room[i])), t, write, site)
		}
	}
	return x
}

// AppendAll is the builtin append of a slice with both sides reported.
func AppendAll[D ~[]T, S1 ~[]T, T any](dst D, src S1, sw, sr int) D {
	RSlice(src, sr)
	return append(AppendTo(dst, len(src), sw), src...)
}

// AtomicSync returns the happens-before variable of an address accessed with
// the function-form atomics.
func AtomicSync(p unsafe.Pointer) *SyncVar {
	s := S
	if s == nil {
		return &SyncVar{}
	}
	v := s.addrSync[uintptr(p)]
	if v == nil {
		v = &SyncVar{}
		s.addrSync[uintptr(p)] = v
	}
	return v
}

// AtomicAccess reports a function-form atomic access to the race detector.
func AtomicAccess(p unsafe.Pointer, write bool) {
	sink = p
	if s := S; s != nil && s.cur != nil && s.race != nil && fine {
		s.atomicAccess(uintptr(p), write)
	}
}
