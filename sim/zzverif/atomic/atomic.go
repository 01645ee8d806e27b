// Package atomic is sync/atomic under the simulated scheduler.
package atomic

import (
	"unsafe"

	"github.com/carlisia/bio-adapt/zzverif/rt"
)

func enter(p unsafe.Pointer, what string, write bool) *rt.SyncVar {
	rt.Point(what)
	rt.AtomicAccess(p, write)
	return rt.AtomicSync(p)
}

func LoadInt32(addr *int32) int32 {
	v := enter(unsafe.Pointer(addr), "atomic.load", false)
	v.Acquire()
	return *addr
}

func StoreInt32(addr *int32, val int32) {
	v := enter(unsafe.Pointer(addr), "atomic.store", true)
	v.ReleaseStore()
	*addr = val
}

func SwapInt32(addr *int32, val int32) int32 {
	v := enter(unsafe.Pointer(addr), "atomic.swap", true)
	v.Acquire()
	v.Release()
	old := *addr
	*addr = val
	return old
}

func CompareAndSwapInt32(addr *int32, old, val int32) bool {
	v := enter(unsafe.Pointer(addr), "atomic.cas", true)
	v.Acquire()
	if *addr != old {
		return false
	}
	v.Release()
	*addr = val
	return true
}

func AddInt32(addr *int32, d int32) int32 {
	v := enter(unsafe.Pointer(addr), "atomic.add", true)
	v.Acquire()
	v.Release()
	*addr += d
	return *addr
}

func AndInt32(addr *int32, mask int32) int32 {
	v := enter(unsafe.Pointer(addr), "atomic.and", true)
	v.Acquire()
	v.Release()
	old := *addr
	*addr &= mask
	return old
}

func OrInt32(addr *int32, mask int32) int32 {
	v := enter(unsafe.Pointer(addr), "atomic.or", true)
	v.Acquire()
	v.Release()
	old := *addr
	*addr |= mask
	return old
}

// Int32 is an atomic int32.
type Int32 struct {
	_ noCopy
	v int32
	meta
}

func (x *Int32) Load() int32 {
	x.in("atomic.load")
	x.sv.Acquire()
	return x.v
}

func (x *Int32) Store(val int32) {
	x.in("atomic.store")
	x.sv.ReleaseStore()
	x.v = val
}

func (x *Int32) Swap(val int32) int32 {
	x.in("atomic.swap")
	x.sv.Acquire()
	x.sv.Release()
	old := x.v
	x.v = val
	return old
}

func (x *Int32) CompareAndSwap(old, val int32) bool {
	x.in("atomic.cas")
	x.sv.Acquire()
	if x.v != old {
		return false
	}
	x.sv.Release()
	x.v = val
	return true
}

func (x *Int32) Add(d int32) int32 {
	x.in("atomic.add")
	x.sv.Acquire()
	x.sv.Release()
	x.v += d
	return x.v
}

func (x *Int32) And(mask int32) int32 {
	x.in("atomic.and")
	x.sv.Acquire()
	x.sv.Release()
	old := x.v
	x.v &= mask
	return old
}

func (x *Int32) Or(mask int32) int32 {
	x.in("atomic.or")
	x.sv.Acquire()
	x.sv.Release()
	old := x.v
	x.v |= mask
	return old
}

func LoadInt64(addr *int64) int64 {
	v := enter(unsafe.Pointer(addr), "atomic.load", false)
	v.Acquire()
	return *addr
}

func StoreInt64(addr *int64, val int64) {
	v := enter(unsafe.Pointer(addr), "atomic.store", true)
	v.ReleaseStore()
	*addr = val
}

func SwapInt64(addr *int64, val int64) int64 {
	v := enter(unsafe.Pointer(addr), "atomic.swap", true)
	v.Acquire()
	v.Release()
	old := *addr
	*addr = val
	return old
}

func CompareAndSwapInt64(addr *int64, old, val int64) bool {
	v := enter(unsafe.Pointer(addr), "atomic.cas", true)
	v.Acquire()
	if *addr != old {
		return false
	}
	v.Release()
	*addr = val
	return true
}

func AddInt64(addr *int64, d int64) int64 {
	v := enter(unsafe.Pointer(addr), "atomic.add", true)
	v.Acquire()
	v.Release()
	*addr += d
	return *addr
}

func AndInt64(addr *int64, mask int64) int64 {
	v := enter(unsafe.Pointer(addr), "atomic.and", true)
	v.Acquire()
	v.Release()
	old := *addr
	*addr &= mask
	return old
}

func OrInt64(addr *int64, mask int64) int64 {
	v := enter(unsafe.Pointer(addr), "atomic.or", true)
	v.Acquire()
	v.Release()
	old := *addr
	*addr |= mask
	return old
}

// Int64 is an atomic int64.
type Int64 struct {
	_ noCopy
	v int64
	meta
}

func (x *Int64) Load() int64 {
	x.in("atomic.load")
	x.sv.Acquire()
	return x.v
}

func (x *Int64) Store(val int64) {
	x.in("atomic.store")
	x.sv.ReleaseStore()
	x.v = val
}

func (x *Int64) Swap(val int64) int64 {
	x.in("atomic.swap")
	x.sv.Acquire()
	x.sv.Release()
	old := x.v
	x.v = val
	return old
}

func (x *Int64) CompareAndSwap(old, val int64) bool {
	x.in("atomic.cas")
	x.sv.Acquire()
	if x.v != old {
		return false
	}
	x.sv.Release()
	x.v = val
	return true
}

func (x *Int64) Add(d int64) int64 {
	x.in("atomic.add")
	x.sv.Acquire()
	x.sv.Release()
	x.v += d
	return x.v
}

func (x *Int64) And(mask int64) int64 {
	x.in("atomic.and")
	x.sv.Acquire()
	x.sv.Release()
	old := x.v
	x.v &= mask
	return old
}

func (x *Int64) Or(mask int64) int64 {
	x.in("atomic.or")
	x.sv.Acquire()
	x.sv.Release()
	old := x.v
	x.v |= mask
	return old
}

func LoadUint32(addr *uint32) uint32 {
	v := enter(unsafe.Pointer(addr), "atomic.load", false)
	v.Acquire()
	return *addr
}

func StoreUint32(addr *uint32, val uint32) {
	v := enter(unsafe.Pointer(addr), "atomic.store", true)
	v.ReleaseStore()
	*addr = val
}

func SwapUint32(addr *uint32, val uint32) uint32 {
	v := enter(unsafe.Pointer(addr), "atomic.swap", true)
	v.Acquire()
	v.Release()
	old := *addr
	*addr = val
	return old
}

func CompareAndSwapUint32(addr *uint32, old, val uint32) bool {
	v := enter(unsafe.Pointer(addr), "atomic.cas", true)
	v.Acquire()
	if *addr != old {
		return false
	}
	v.Release()
	*addr = val
	return true
}

func AddUint32(addr *uint32, d uint32) uint32 {
	v := enter(unsafe.Pointer(addr), "atomic.add", true)
	v.Acquire()
	v.Release()
	*addr += d
	return *addr
}

func AndUint32(addr *uint32, mask uint32) uint32 {
	v := enter(unsafe.Pointer(addr), "atomic.and", true)
	v.Acquire()
	v.Release()
	old := *addr
	*addr &= mask
	return old
}

func OrUint32(addr *uint32, mask uint32) uint32 {
	v := enter(unsafe.Pointer(addr), "atomic.or", true)
	v.Acquire()
	v.Release()
	old := *addr
	*addr |= mask
	return old
}

// Uint32 is an atomic uint32.
type Uint32 struct {
	_ noCopy
	v uint32
	meta
}

func (x *Uint32) Load() uint32 {
	x.in("atomic.load")
	x.sv.Acquire()
	return x.v
}

func (x *Uint32) Store(val uint32) {
	x.in("atomic.store")
	x.sv.ReleaseStore()
	x.v = val
}

func (x *Uint32) Swap(val uint32) uint32 {
	x.in("atomic.swap")
	x.sv.Acquire()
	x.sv.Release()
	old := x.v
	x.v = val
	return old
}

func (x *Uint32) CompareAndSwap(old, val uint32) bool {
	x.in("atomic.cas")
	x.sv.Acquire()
	if x.v != old {
		return false
	}
	x.sv.Release()
	x.v = val
	return true
}

func (x *Uint32) Add(d uint32) uint32 {
	x.in("atomic.add")
	x.sv.Acquire()
	x.sv.Release()
	x.v += d
	return x.v
}

func (x *Uint32) And(mask uint32) uint32 {
	x.in("atomic.and")
	x.sv.Acquire()
	x.sv.Release()
	old := x.v
	x.v &= mask
	return old
}

func (x *Uint32) Or(mask uint32) uint32 {
	x.in("atomic.or")
	x.sv.Acquire()
	x.sv.Release()
	old := x.v
	x.v |= mask
	return old
}

func LoadUint64(addr *uint64) uint64 {
	v := enter(unsafe.Pointer(addr), "atomic.load", false)
	v.Acquire()
	return *addr
}

func StoreUint64(addr *uint64, val uint64) {
	v := enter(unsafe.Pointer(addr), "atomic.store", true)
	v.ReleaseStore()
	*addr = val
}

func SwapUint64(addr *uint64, val uint64) uint64 {
	v := enter(unsafe.Pointer(addr), "atomic.swap", true)
	v.Acquire()
	v.Release()
	old := *addr
	*addr = val
	return old
}

func CompareAndSwapUint64(addr *uint64, old, val uint64) bool {
	v := enter(unsafe.Pointer(addr), "atomic.cas", true)
	v.Acquire()
	if *addr != old {
		return false
	}
	v.Release()
	*addr = val
	return true
}

func AddUint64(addr *uint64, d uint64) uint64 {
	v := enter(unsafe.Pointer(addr), "atomic.add", true)
	v.Acquire()
	v.Release()
	*addr += d
	return *addr
}

func AndUint64(addr *uint64, mask uint64) uint64 {
	v := enter(unsafe.Pointer(addr), "atomic.and", true)
	v.Acquire()
	v.Release()
	old := *addr
	*addr &= mask
	return old
}

func OrUint64(addr *uint64, mask uint64) uint64 {
	v := enter(unsafe.Pointer(addr), "atomic.or", true)
	v.Acquire()
	v.Release()
	old := *addr
	*addr |= mask
	return old
}

// Uint64 is an atomic uint64.
type Uint64 struct {
	_ noCopy
	v uint64
	meta
}

func (x *Uint64) Load() uint64 {
	x.in("atomic.load")
	x.sv.Acquire()
	return x.v
}

func (x *Uint64) Store(val uint64) {
	x.in("atomic.store")
	x.sv.ReleaseStore()
	x.v = val
}

func (x *Uint64) Swap(val uint64) uint64 {
	x.in("atomic.swap")
	x.sv.Acquire()
	x.sv.Release()
	old := x.v
	x.v = val
	return old
}

func (x *Uint64) CompareAndSwap(old, val uint64) bool {
	x.in("atomic.cas")
	x.sv.Acquire()
	if x.v != old {
		return false
	}
	x.sv.Release()
	x.v = val
	return true
}

func (x *Uint64) Add(d uint64) uint64 {
	x.in("atomic.add")
	x.sv.Acquire()
	x.sv.Release()
	x.v += d
	return x.v
}

func (x *Uint64) And(mask uint64) uint64 {
	x.in("atomic.and")
	x.sv.Acquire()
	x.sv.Release()
	old := x.v
	x.v &= mask
	return old
}

func (x *Uint64) Or(mask uint64) uint64 {
	x.in("atomic.or")
	x.sv.Acquire()
	x.sv.Release()
	old := x.v
	x.v |= mask
	return old
}

func LoadUintptr(addr *uintptr) uintptr {
	v := enter(unsafe.Pointer(addr), "atomic.load", false)
	v.Acquire()
	return *addr
}

func StoreUintptr(addr *uintptr, val uintptr) {
	v := enter(unsafe.Pointer(addr), "atomic.store", true)
	v.ReleaseStore()
	*addr = val
}

func SwapUintptr(addr *uintptr, val uintptr) uintptr {
	v := enter(unsafe.Pointer(addr), "atomic.swap", true)
	v.Acquire()
	v.Release()
	old := *addr
	*addr = val
	return old
}

func CompareAndSwapUintptr(addr *uintptr, old, val uintptr) bool {
	v := enter(unsafe.Pointer(addr), "atomic.cas", true)
	v.Acquire()
	if *addr != old {
		return false
	}
	v.Release()
	*addr = val
	return true
}

func AddUintptr(addr *uintptr, d uintptr) uintptr {
	v := enter(unsafe.Pointer(addr), "atomic.add", true)
	v.Acquire()
	v.Release()
	*addr += d
	return *addr
}

func AndUintptr(addr *uintptr, mask uintptr) uintptr {
	v := enter(unsafe.Pointer(addr), "atomic.and", true)
	v.Acquire()
	v.Release()
	old := *addr
	*addr &= mask
	return old
}

func OrUintptr(addr *uintptr, mask uintptr) uintptr {
	v := enter(unsafe.Pointer(addr), "atomic.or", true)
	v.Acquire()
	v.Release()
	old := *addr
	*addr |= mask
	return old
}

// Uintptr is an atomic uintptr.
type Uintptr struct {
	_ noCopy
	v uintptr
	meta
}

func (x *Uintptr) Load() uintptr {
	x.in("atomic.load")
	x.sv.Acquire()
	return x.v
}

func (x *Uintptr) Store(val uintptr) {
	x.in("atomic.store")
	x.sv.ReleaseStore()
	x.v = val
}

func (x *Uintptr) Swap(val uintptr) uintptr {
	x.in("atomic.swap")
	x.sv.Acquire()
	x.sv.Release()
	old := x.v
	x.v = val
	return old
}

func (x *Uintptr) CompareAndSwap(old, val uintptr) bool {
	x.in("atomic.cas")
	x.sv.Acquire()
	if x.v != old {
		return false
	}
	x.sv.Release()
	x.v = val
	return true
}

func (x *Uintptr) Add(d uintptr) uintptr {
	x.in("atomic.add")
	x.sv.Acquire()
	x.sv.Release()
	x.v += d
	return x.v
}

func (x *Uintptr) And(mask uintptr) uintptr {
	x.in("atomic.and")
	x.sv.Acquire()
	x.sv.Release()
	old := x.v
	x.v &= mask
	return old
}

func (x *Uintptr) Or(mask uintptr) uintptr {
	x.in("atomic.or")
	x.sv.Acquire()
	x.sv.Release()
	old := x.v
	x.v |= mask
	return old
}

func LoadPointer(addr *unsafe.Pointer) unsafe.Pointer {
	v := enter(unsafe.Pointer(addr), "atomic.load", false)
	v.Acquire()
	return *addr
}

func StorePointer(addr *unsafe.Pointer, val unsafe.Pointer) {
	v := enter(unsafe.Pointer(addr), "atomic.store", true)
	v.ReleaseStore()
	*addr = val
}

func SwapPointer(addr *unsafe.Pointer, val unsafe.Pointer) unsafe.Pointer {
	v := enter(unsafe.Pointer(addr), "atomic.swap", true)
	v.Acquire()
	v.Release()
	old := *addr
	*addr = val
	return old
}

func CompareAndSwapPointer(addr *unsafe.Pointer, old, val unsafe.Pointer) bool {
	v := enter(unsafe.Pointer(addr), "atomic.cas", true)
	v.Acquire()
	if *addr != old {
		return false
	}
	v.Release()
	*addr = val
	return true
}

type noCopy struct{}

type meta struct {
	epoch uint32
	sv    rt.SyncVar
}

func (m *meta) in(what string) {
	rt.Point(what)
	if e := rt.Epoch(); m.epoch != e {
		m.epoch = e
		m.sv.Reset()
	}
}

// Bool is an atomic bool.
type Bool struct {
	_ noCopy
	v bool
	meta
}

func (x *Bool) Load() bool {
	x.in("atomic.load")
	x.sv.Acquire()
	return x.v
}

func (x *Bool) Store(val bool) {
	x.in("atomic.store")
	x.sv.ReleaseStore()
	x.v = val
}

func (x *Bool) Swap(val bool) bool {
	x.in("atomic.swap")
	x.sv.Acquire()
	x.sv.Release()
	old := x.v
	x.v = val
	return old
}

func (x *Bool) CompareAndSwap(old, val bool) bool {
	x.in("atomic.cas")
	x.sv.Acquire()
	if x.v != old {
		return false
	}
	x.sv.Release()
	x.v = val
	return true
}

// Pointer is an atomic *T.
type Pointer[T any] struct {
	_ [0]*T
	_ noCopy
	v *T
	meta
}

func (x *Pointer[T]) Load() *T {
	x.in("atomic.load")
	x.sv.Acquire()
	return x.v
}

func (x *Pointer[T]) Store(val *T) {
	x.in("atomic.store")
	x.sv.ReleaseStore()
	x.v = val
}

func (x *Pointer[T]) Swap(val *T) *T {
	x.in("atomic.swap")
	x.sv.Acquire()
	x.sv.Release()
	old := x.v
	x.v = val
	return old
}

func (x *Pointer[T]) CompareAndSwap(old, val *T) bool {
	x.in("atomic.cas")
	x.sv.Acquire()
	if x.v != old {
		return false
	}
	x.sv.Release()
	x.v = val
	return true
}

// Value is an atomic any.
type Value struct {
	v any
	meta
}

func (x *Value) Load() any {
	x.in("atomic.load")
	x.sv.Acquire()
	return x.v
}

func (x *Value) chk(val any, op string) {
	if val == nil {
		panic("sync/atomic: " + op + " of nil value into Value")
	}
	if x.v != nil && !sameType(x.v, val) {
		panic("sync/atomic: " + op + " of inconsistently typed value into Value")
	}
}

func (x *Value) Store(val any) {
	x.in("atomic.store")
	x.chk(val, "store")
	x.sv.ReleaseStore()
	x.v = val
}

func (x *Value) Swap(val any) any {
	x.in("atomic.swap")
	x.chk(val, "swap")
	x.sv.Acquire()
	x.sv.Release()
	old := x.v
	x.v = val
	return old
}

func (x *Value) CompareAndSwap(old, val any) bool {
	x.in("atomic.cas")
	x.chk(val, "compare and swap")
	x.sv.Acquire()
	if x.v != old {
		return false
	}
	x.sv.Release()
	x.v = val
	return true
}

func sameType(a, b any) bool {
	type eface struct{ t, _ unsafe.Pointer }
	return (*eface)(unsafe.Pointer(&a)).t == (*eface)(unsafe.Pointer(&b)).t
}
