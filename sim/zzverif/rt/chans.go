package rt

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"sort"
	"unsafe"
)

type item struct {
	v  any // *T
	vc VC
}

type waiter struct {
	t    *Task
	op   *waitOp
	cs   int
	v    any // value to send (*T)
	vc   VC
	send bool
}

// waitOp is one blocked send, receive or select.
type waitOp struct {
	done   bool
	idx    int
	v      any
	ok     bool
	vc     VC
	closed bool
}

type chanState struct {
	keep   any
	cap    int
	buf    []item
	slots  []VC
	slotN  int
	closed bool
	closer VC
	recvq  []*waiter
	sendq  []*waiter
}

func chanPtr[C any](ch C) uintptr { return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))) }

func state(p uintptr, keep any, c int) *chanState {
	s := S
	st := s.chans[p]
	if st == nil {
		st = &chanState{keep: keep, cap: c}
		s.chans[p] = st
	}
	return st
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.op.done {
			return w
		}
	}
	return nil
}

func hasWaiter(q []*waiter, self *Task) bool {
	for _, w := range q {
		if !w.op.done && w.t != self {
			return true
		}
	}
	return false
}

func (s *Sim) curVC() VC {
	if s.race == nil || s.cur == nil {
		return nil
	}
	v := s.cur.vc.clone()
	s.cur.vc.tick(s.cur.ID)
	return v
}

func (s *Sim) joinCur(v VC) {
	if s.race != nil && s.cur != nil {
		s.cur.vc.join(v)
	}
}

func (st *chanState) canSend(self *Task) bool {
	return st.closed || len(st.buf) < st.cap || hasWaiter(st.recvq, self)
}
func (st *chanState) canRecv(self *Task) bool {
	return len(st.buf) > 0 || st.closed || hasWaiter(st.sendq, self)
}

// doSend performs a send known to be possible.
func (s *Sim) doSend(st *chanState, v any) {
	if st.closed {
		panic(plainError("send on closed channel"))
	}
	vc := s.curVC()
	if w := popWaiter(&st.recvq); w != nil {
		w.op.done, w.op.idx, w.op.v, w.op.ok, w.op.vc = true, w.cs, v, true, vc
		if s.cur != nil && s.race != nil {
			s.cur.vc.join(w.vc)
		}
		s.makeReady(w.t)
		return
	}
	if st.cap > 0 && s.race != nil {
		if len(st.slots) < st.cap && st.cap <= 4096 {
			st.slots = append(st.slots, make([]VC, st.cap-len(st.slots))...)
		}
		if len(st.slots) > 0 {
			s.joinCur(st.slots[st.slotN%len(st.slots)])
		}
	}
	st.buf = append(st.buf, item{v, vc})
	st.slotN++
}

// doRecv performs a receive known to be possible.
func (s *Sim) doRecv(st *chanState) (any, bool) {
	if len(st.buf) > 0 {
		it := st.buf[0]
		st.buf = st.buf[1:]
		s.joinCur(it.vc)
		if len(st.slots) > 0 {
			k := st.slotN - len(st.buf) - 1
			st.slots[k%len(st.slots)] = s.curVC()
		}
		if w := popWaiter(&st.sendq); w != nil {
			st.buf = append(st.buf, item{w.v, w.vc})
			st.slotN++
			w.op.done, w.op.idx, w.op.ok = true, w.cs, true
			w.op.vc = it.vc
			s.makeReady(w.t)
		}
		return it.v, true
	}
	if w := popWaiter(&st.sendq); w != nil {
		s.joinCur(w.vc)
		w.op.done, w.op.idx, w.op.ok = true, w.cs, true
		w.op.vc = s.curVC()
		s.makeReady(w.t)
		return w.v, true
	}
	s.joinCur(st.closer)
	return nil, false
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

// SendTo performs ch <- v in two steps so that v is converted by assignment.
func SendTo[T any](ch chan<- T) func(v T) {
	return func(v T) { send(ch, v) }
}

func send[T any](ch chan<- T, v T) {
	s := S
	if s == nil || s.cur == nil {
		ch <- v
		return
	}
	Point("send")
	if ch == nil {
		s.park("send on nil channel")
		return
	}
	st := state(chanPtr(ch), ch, cap(ch))
	vp := new(T)
	*vp = v
	if st.canSend(nil) {
		s.doSend(st, vp)
		return
	}
	op := &waitOp{}
	st.sendq = append(st.sendq, &waiter{t: s.cur, op: op, v: vp, vc: s.curVC(), send: true})
	s.park(fmt.Sprintf("send on %T", ch))
	s.joinCur(op.vc)
	if op.closed {
		panic(plainError("send on closed channel"))
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	s := S
	if s == nil || s.cur == nil {
		v, ok := <-ch
		return v, ok
	}
	Point("recv")
	if ch == nil {
		s.park("receive on nil channel")
		var z T
		return z, false
	}
	st := state(chanPtr(ch), ch, cap(ch))
	if st.canRecv(nil) {
		v, ok := s.doRecv(st)
		return unbox[T](v), ok
	}
	op := &waitOp{}
	st.recvq = append(st.recvq, &waiter{t: s.cur, op: op, vc: s.curVC()})
	s.park(fmt.Sprintf("receive on %T", ch))
	s.joinCur(op.vc)
	return unbox[T](op.v), op.ok
}

func unbox[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return *(v.(*T))
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	s := S
	if s == nil || s.cur == nil {
		close(ch)
		return
	}
	Point("close")
	if ch == nil {
		panic(plainError("close of nil channel"))
	}
	closeState(state(chanPtr(ch), ch, cap(ch)))
}

func closeState(st *chanState) {
	s := S
	if st.closed {
		panic(plainError("close of closed channel"))
	}
	st.closed = true
	st.closer = s.curVC()
	for {
		w := popWaiter(&st.recvq)
		if w == nil {
			break
		}
		w.op.done, w.op.idx, w.op.v, w.op.ok, w.op.vc = true, w.cs, nil, false, st.closer
		s.makeReady(w.t)
	}
	for {
		w := popWaiter(&st.sendq)
		if w == nil {
			break
		}
		w.op.done, w.op.idx, w.op.closed, w.op.vc = true, w.cs, true, st.closer
		s.makeReady(w.t)
	}
}

// CloseQuiet closes from shim code: no scheduling point, idempotent.
func CloseQuiet[T any](ch chan T) {
	s := S
	if s == nil {
		close(ch)
		return
	}
	st := state(chanPtr(ch), ch, cap(ch))
	if !st.closed {
		closeState(st)
	}
}

// TrySendQuiet delivers v without blocking or yielding (timer channels).
func TrySendQuiet[T any](ch chan T, v T, vc VC) bool {
	s := S
	st := state(chanPtr(ch), ch, cap(ch))
	if st.closed {
		return false
	}
	vp := new(T)
	*vp = v
	if w := popWaiter(&st.recvq); w != nil {
		w.op.done, w.op.idx, w.op.v, w.op.ok, w.op.vc = true, w.cs, any(vp), true, vc
		s.makeReady(w.t)
		return true
	}
	if len(st.buf) < st.cap {
		st.buf = append(st.buf, item{vp, vc})
		st.slotN++
		return true
	}
	return false
}

// Drain discards buffered values (timer Stop/Reset semantics of Go 1.23).
func Drain[T any](ch chan T) bool {
	if S == nil {
		return false
	}
	st := state(chanPtr(ch), ch, cap(ch))
	had := len(st.buf) > 0
	st.buf = nil
	return had
}

// VC of a timer, for shims.
func (t *Timer) VC() VC { return t.vc }

// ChanLen is len(ch).
func ChanLen[T any](ch <-chan T) int {
	s := S
	if s == nil || s.cur == nil {
		return len(ch)
	}
	Point("chanlen")
	p := chanPtr(ch)
	if p == 0 {
		return 0
	}
	return len(state(p, ch, cap(ch)).buf)
}

// ChanCap is cap(ch).
func ChanCap[T any](ch <-chan T) int { return cap(ch) }

// ChanLenS is len of a send-only channel.
func ChanLenS[T any](ch chan<- T) int {
	s := S
	if s == nil || s.cur == nil {
		return len(ch)
	}
	Point("chanlen")
	p := chanPtr(ch)
	if p == 0 {
		return 0
	}
	return len(state(p, ch, cap(ch)).buf)
}

// ChanCapS is cap of a send-only channel.
func ChanCapS[T any](ch chan<- T) int { return cap(ch) }

// RangeChan is for v := range ch.
func RangeChan[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// SelCase is one case of a select.
type SelCase struct {
	p    uintptr
	keep any
	cap  int
	send bool
	v    any
	rc   reflect.Value // native fallback
	rv   reflect.Value
}

// Sel is the outcome of a select.
type Sel struct {
	I   int
	v   any
	ok  bool
	rv  reflect.Value
	nat bool
}

// CaseSendTo builds a send case.
func CaseSendTo[T any](ch chan<- T) func(T) SelCase {
	return func(v T) SelCase {
		vp := new(T)
		*vp = v
		if S == nil {
			return SelCase{send: true, rc: reflect.ValueOf(ch), rv: reflect.ValueOf(vp).Elem()}
		}
		return SelCase{p: chanPtr(ch), keep: ch, cap: cap(ch), send: true, v: vp}
	}
}

// CaseRecv builds a receive case.
func CaseRecv[T any](ch <-chan T) SelCase {
	if S == nil {
		return SelCase{rc: reflect.ValueOf(ch)}
	}
	return SelCase{p: chanPtr(ch), keep: ch, cap: cap(ch)}
}

// Select performs a select statement.
func Select(hasDefault bool, cases ...SelCase) Sel {
	s := S
	if s == nil || s.cur == nil {
		return nativeSelect(hasDefault, cases)
	}
	Point("select")
	var ready []int
	for i := range cases {
		c := &cases[i]
		if c.p == 0 {
			continue
		}
		st := state(c.p, c.keep, c.cap)
		if c.send && st.canSend(nil) || !c.send && st.canRecv(nil) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		s.cur.spin = 0
		k := ready[0]
		if len(ready) > 1 {
			k = ready[s.data.Intn(len(ready))]
		}
		c := &cases[k]
		st := state(c.p, c.keep, c.cap)
		if c.send {
			s.doSend(st, c.v)
			return Sel{I: k}
		}
		v, ok := s.doRecv(st)
		return Sel{I: k, v: v, ok: ok}
	}
	if hasDefault {
		s.spun()
		return Sel{I: -1}
	}
	op := &waitOp{}
	why := "select"
	for i := range cases {
		c := &cases[i]
		if c.p == 0 {
			continue
		}
		st := state(c.p, c.keep, c.cap)
		w := &waiter{t: s.cur, op: op, cs: i, v: c.v, vc: s.curVC(), send: c.send}
		if c.send {
			st.sendq = append(st.sendq, w)
		} else {
			st.recvq = append(st.recvq, w)
		}
		why += fmt.Sprintf(" %T", c.keep)
	}
	s.park(why)
	s.joinCur(op.vc)
	for i := range cases {
		if i != op.idx && cases[i].p != 0 {
			st := state(cases[i].p, cases[i].keep, cases[i].cap)
			prune(&st.recvq)
			prune(&st.sendq)
		}
	}
	if op.closed && cases[op.idx].send {
		panic(plainError("send on closed channel"))
	}
	return Sel{I: op.idx, v: op.v, ok: op.ok}
}

func prune(q *[]*waiter) {
	o := (*q)[:0]
	for _, w := range *q {
		if !w.op.done {
			o = append(o, w)
		}
	}
	*q = o
}

// spun notes a busy-wait iteration; when nothing else can run, simulated time
// moves to the next timer instead of being burned step by step.
func (s *Sim) spun() {
	t := s.cur
	t.spin++
	if t.spin > 16 {
		if len(s.ready) > 0 {
			t.spin = 8
			s.countdown = 1
		} else if len(s.timers) > 0 && s.timers[0].when > s.now {
			s.now = s.timers[0].when
			t.spin = 0
		}
	}
}

// Gosched yields.
func Gosched() {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	Point("gosched")
	s.spun()
}

func nativeSelect(hasDefault bool, cases []SelCase) Sel {
	var cs []reflect.SelectCase
	for _, c := range cases {
		if c.send {
			cs = append(cs, reflect.SelectCase{Dir: reflect.SelectSend, Chan: c.rc, Send: c.rv})
		} else {
			cs = append(cs, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: c.rc})
		}
	}
	if hasDefault {
		cs = append(cs, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(cs)
	if i == len(cases) {
		return Sel{I: -1}
	}
	return Sel{I: i, rv: v, ok: ok, nat: true}
}

// Got is the value received by a select.
func Got[T any](sel Sel, _ <-chan T) T { v, _ := Got2[T](sel, nil); return v }

// Got2 is the value and ok received by a select.
func Got2[T any](sel Sel, _ <-chan T) (T, bool) {
	if sel.nat {
		var z T
		if sel.rv.IsValid() {
			reflect.ValueOf(&z).Elem().Set(sel.rv)
		}
		return z, sel.ok
	}
	return unbox[T](sel.v), sel.ok
}

// ---------------------------------------------------------------- maps

// MapOrder returns the keys of m in a seeded order.
func MapOrder[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sortKeys(keys)
	if s := S; s != nil && s.cur != nil {
		s.data.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	}
	return keys
}

func sortKeys[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	}
	kind := reflect.TypeOf(keys).Elem().Kind()
	sort.Slice(keys, func(i, j int) bool {
		a, b := reflect.ValueOf(keys[i]), reflect.ValueOf(keys[j])
		switch kind {
		case reflect.String:
			return a.String() < b.String()
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return a.Int() < b.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			return a.Uint() < b.Uint()
		case reflect.Float32, reflect.Float64:
			return cmp.Less(a.Float(), b.Float())
		case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
			return ordinal(a.Pointer()) < ordinal(b.Pointer())
		default:
			return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j])
		}
	})
}

// ordinal orders pointers by address: allocation order is not part of the
// deterministic state, so pointer-keyed maps are ordered by what they point to
// when that can be printed, else by address.
func ordinal(p uintptr) uintptr { return p }

// RangeMap is for k, v := range m.
func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		if S == nil {
			for k, v := range m {
				if !yield(k, v) {
					return
				}
			}
			return
		}
		for _, k := range MapOrder(m) {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// RangeMapK is for k := range m.
func RangeMapK[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range RangeMap(m) {
			if !yield(k) {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- go calls

// GoCall is go fn(args...).
func GoCall(fn any, args ...any) { goCall(fn, args, false) }

// GoCallSlice is go fn(args..., last...).
func GoCallSlice(fn any, args ...any) { goCall(fn, args, true) }

func goCall(fn any, args []any, slice bool) {
	f := reflect.ValueOf(fn)
	ft := f.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		switch {
		case ft.IsVariadic() && !slice && i >= ft.NumIn()-1:
			pt = ft.In(ft.NumIn() - 1).Elem()
		default:
			pt = ft.In(i)
		}
		v := reflect.ValueOf(a)
		if !v.IsValid() {
			v = reflect.Zero(pt)
		} else if v.Type() != pt && v.Type().ConvertibleTo(pt) {
			v = v.Convert(pt)
		}
		in[i] = v
	}
	Go(func() {
		if slice {
			f.CallSlice(in)
		} else {
			f.Call(in)
		}
	})
}
