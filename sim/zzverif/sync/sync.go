// Package sync is sync under the simulated scheduler.
package sync

import (
	"github.com/carlisia/bio-adapt/zzverif/rt"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is sync.Mutex: waiters re-contend after a wake-up, as in Go's normal mode.
type Mutex struct {
	epoch   uint32
	locked  bool
	waiters []*rt.Task
	sv      rt.SyncVar
}

func (m *Mutex) init() {
	if e := rt.Epoch(); m.epoch != e {
		*m = Mutex{epoch: e}
	}
}

func (m *Mutex) Lock() {
	rt.Point("lock")
	m.init()
	if rt.Killed() {
		return
	}
	for m.locked {
		if !rt.Active() {
			panic("sync: would block outside simulation")
		}
		m.waiters = append(m.waiters, rt.Cur())
		rt.Park("mutex")
	}
	m.locked = true
	m.sv.Acquire()
}

func (m *Mutex) TryLock() bool {
	rt.Point("trylock")
	m.init()
	if m.locked || rt.Killed() {
		return false
	}
	m.locked = true
	m.sv.Acquire()
	return true
}

func (m *Mutex) Unlock() {
	rt.Point("unlock")
	m.init()
	if rt.Killed() {
		return
	}
	if !m.locked {
		rt.Fatal("sync: unlock of unlocked mutex")
	}
	m.sv.Release()
	m.locked = false
	if len(m.waiters) > 0 {
		t := m.waiters[0]
		m.waiters = m.waiters[1:]
		rt.Wake(t)
	}
}

// RWMutex is sync.RWMutex: a waiting writer blocks new readers.
type RWMutex struct {
	epoch   uint32
	writer  bool // held by a writer
	pending bool // a writer waits for readers to leave
	readers int
	rwait   []*rt.Task
	wwait   []*rt.Task // writers waiting for the writer slot
	ptask   *rt.Task   // the pending writer
	svW     rt.SyncVar
	svR     rt.SyncVar
}

func (m *RWMutex) init() {
	if e := rt.Epoch(); m.epoch != e {
		*m = RWMutex{epoch: e}
	}
}

func (m *RWMutex) RLock() {
	rt.Point("rlock")
	m.init()
	if rt.Killed() {
		return
	}
	if m.writer || m.pending {
		if !rt.Active() {
			panic("sync: would block outside simulation")
		}
		// admitted by the writer's Unlock, as in Go
		m.rwait = append(m.rwait, rt.Cur())
		rt.Park("rwmutex read lock")
		m.svW.Acquire()
		return
	}
	m.readers++
	m.svW.Acquire()
}

func (m *RWMutex) TryRLock() bool {
	rt.Point("tryrlock")
	m.init()
	if m.writer || m.pending || rt.Killed() {
		return false
	}
	m.readers++
	m.svW.Acquire()
	return true
}

func (m *RWMutex) RUnlock() {
	rt.Point("runlock")
	m.init()
	if rt.Killed() {
		return
	}
	if m.readers <= 0 {
		rt.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.svR.Release()
	m.readers--
	if m.readers == 0 && m.ptask != nil {
		t := m.ptask
		m.ptask = nil
		m.pending = false
		m.writer = true
		rt.Wake(t)
	}
}

func (m *RWMutex) Lock() {
	rt.Point("lock")
	m.init()
	if rt.Killed() {
		return
	}
	for m.writer || m.pending {
		if !rt.Active() {
			panic("sync: would block outside simulation")
		}
		m.wwait = append(m.wwait, rt.Cur())
		rt.Park("rwmutex write lock (another writer)")
	}
	if m.readers > 0 {
		if !rt.Active() {
			panic("sync: would block outside simulation")
		}
		m.pending = true
		m.ptask = rt.Cur()
		rt.Park("rwmutex write lock (readers active)")
	} else {
		m.writer = true
	}
	m.svW.Acquire()
	m.svR.Acquire()
}

func (m *RWMutex) TryLock() bool {
	rt.Point("trylock")
	m.init()
	if m.writer || m.pending || m.readers > 0 || rt.Killed() {
		return false
	}
	m.writer = true
	m.svW.Acquire()
	m.svR.Acquire()
	return true
}

func (m *RWMutex) Unlock() {
	rt.Point("unlock")
	m.init()
	if rt.Killed() {
		return
	}
	if !m.writer {
		rt.Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.svW.Release()
	m.writer = false
	for _, t := range m.rwait {
		m.readers++
		rt.Wake(t)
	}
	m.rwait = nil
	if len(m.wwait) > 0 {
		t := m.wwait[0]
		m.wwait = m.wwait[1:]
		rt.Wake(t)
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	epoch   uint32
	n       int
	waiters []*rt.Task
	sv      rt.SyncVar
}

func (w *WaitGroup) init() {
	if e := rt.Epoch(); w.epoch != e {
		*w = WaitGroup{epoch: e}
	}
}

func (w *WaitGroup) Add(d int) {
	rt.Point("wg.add")
	w.init()
	if rt.Killed() {
		return
	}
	if d < 0 {
		w.sv.Release()
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		for _, t := range w.waiters {
			rt.Wake(t)
		}
		w.waiters = nil
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	rt.Point("wg.wait")
	w.init()
	if rt.Killed() {
		return
	}
	if w.n > 0 {
		if !rt.Active() {
			panic("sync: would block outside simulation")
		}
		w.waiters = append(w.waiters, rt.Cur())
		rt.Park("waitgroup")
	}
	w.sv.Acquire()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
	sv   rt.SyncVar
}

func (o *Once) Do(f func()) {
	rt.Point("once")
	if o.done {
		o.sv.Acquire()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true; o.sv.Release() }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var valid bool
	var p any
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		valid = true
	}
	return func() {
		o.Do(g)
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	o := OnceFunc(func() { r = f() })
	return func() T { o(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	o := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { o(); return r1, r2 }
}

// Cond is sync.Cond.
type Cond struct {
	L       Locker
	waiters []*rt.Task
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	rt.Point("cond.wait")
	c.waiters = append(c.waiters, rt.Cur())
	me := rt.Cur()
	c.L.Unlock()
	// Unlock may have yielded and we may already have been signalled
	for _, t := range c.waiters {
		if t == me {
			rt.Park("cond")
			break
		}
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	rt.Point("cond.signal")
	if len(c.waiters) > 0 {
		t := c.waiters[0]
		c.waiters = c.waiters[1:]
		rt.Wake(t)
	}
}

func (c *Cond) Broadcast() {
	rt.Point("cond.broadcast")
	ws := c.waiters
	c.waiters = nil
	for _, t := range ws {
		rt.Wake(t)
	}
}

// Pool is sync.Pool; a Get may miss at any time.
type Pool struct {
	New   func() any
	epoch uint32
	items []poolItem
}

type poolItem struct {
	v  any
	sv *rt.SyncVar
}

func (p *Pool) init() {
	if e := rt.Epoch(); p.epoch != e {
		p.epoch = e
		p.items = nil
	}
}

func (p *Pool) Get() any {
	rt.Point("pool.get")
	p.init()
	if n := len(p.items); n > 0 && rt.Active() {
		d := rt.Data()
		if !d.Bool(rt.Cfg().PoolMiss) {
			i := n - 1
			if d.Intn(4) == 0 {
				i = d.Intn(n)
			}
			it := p.items[i]
			p.items = append(p.items[:i], p.items[i+1:]...)
			it.sv.Acquire()
			return it.v
		}
		rt.Fault("pool_miss")
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	rt.Point("pool.put")
	p.init()
	if v == nil || !rt.Active() {
		return
	}
	sv := &rt.SyncVar{}
	sv.Release()
	p.items = append(p.items, poolItem{v, sv})
}

// Map is sync.Map.
type Map struct {
	epoch uint32
	m     map[any]*any
	order []any
	sv    rt.SyncVar
}

func (m *Map) pt(what string) {
	rt.Point(what)
	if e := rt.Epoch(); m.epoch != e {
		m.epoch = e
		m.sv.Reset()
	}
	if m.m == nil {
		m.m = map[any]*any{}
	}
}

func (m *Map) set(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.order = append(m.order, k)
	}
	m.m[k] = &v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.order {
			if x == k {
				m.order = append(m.order[:i:i], m.order[i+1:]...)
				break
			}
		}
	}
}

func (m *Map) Load(k any) (any, bool) {
	m.pt("map.load")
	m.sv.Acquire()
	if p, ok := m.m[k]; ok {
		return *p, true
	}
	return nil, false
}

func (m *Map) Store(k, v any) {
	m.pt("map.store")
	m.sv.Release()
	m.set(k, v)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.pt("map.loadorstore")
	m.sv.Acquire()
	if p, ok := m.m[k]; ok {
		return *p, true
	}
	m.sv.Release()
	m.set(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.pt("map.loadanddelete")
	m.sv.Acquire()
	p, ok := m.m[k]
	if !ok {
		return nil, false
	}
	m.sv.Release()
	v := *p
	m.del(k)
	return v, true
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.pt("map.swap")
	m.sv.Acquire()
	m.sv.Release()
	p, ok := m.m[k]
	var old any
	if ok {
		old = *p
	}
	m.set(k, v)
	return old, ok
}

func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.pt("map.cas")
	m.sv.Acquire()
	p, ok := m.m[k]
	if !ok || *p != old {
		return false
	}
	m.sv.Release()
	m.set(k, new)
	return true
}

func (m *Map) CompareAndDelete(k, old any) bool {
	m.pt("map.cad")
	m.sv.Acquire()
	p, ok := m.m[k]
	if !ok || *p != old {
		return false
	}
	m.sv.Release()
	m.del(k)
	return true
}

func (m *Map) Clear() {
	m.pt("map.clear")
	m.sv.Release()
	m.m = map[any]*any{}
	m.order = nil
}

// Range visits a seeded permutation; concurrent changes may or may not be seen.
func (m *Map) Range(f func(k, v any) bool) {
	m.pt("map.range")
	keys := append([]any(nil), m.order...)
	if rt.Active() {
		rt.Data().Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	}
	for _, k := range keys {
		m.pt("map.range.next")
		m.sv.Acquire()
		p, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, *p) {
			return
		}
	}
}
