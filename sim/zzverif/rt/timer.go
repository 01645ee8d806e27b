package rt

import "container/heap"

// Timer is a simulated timer.
type Timer struct {
	when   int64
	seq    int64
	idx    int
	fn     func()
	vc     VC
	active bool
	user   bool
}

type timerHeap []*Timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].when != h[j].when {
		return h[i].when < h[j].when
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x any)   { t := x.(*Timer); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() any {
	o := *h
	t := o[len(o)-1]
	o[len(o)-1] = nil
	*h = o[:len(o)-1]
	return t
}

func (s *Sim) addTimer(when int64, fn func(), vc VC) *Timer {
	t := &Timer{fn: fn, vc: vc}
	s.arm(t, when)
	return t
}

func (s *Sim) arm(t *Timer, when int64) {
	s.tseq++
	t.when, t.seq, t.active = when, s.tseq, true
	heap.Push(&s.timers, t)
}

func (s *Sim) fireNext() {
	t := heap.Pop(&s.timers).(*Timer)
	t.active = false
	t.fn()
}

// Now is simulated nanoseconds since the start of the run.
func Now() int64 {
	if S == nil {
		return 0
	}
	return S.now
}

// AddTimer schedules fn (which must not block) after d.
func AddTimer(d int64, fn func()) *Timer {
	s := S
	if d < 0 {
		d = 0
	}
	var vc VC
	if s.race != nil && s.cur != nil {
		vc = s.cur.vc.clone()
		s.cur.vc.tick(s.cur.ID)
	}
	return s.addTimer(s.now+d, fn, vc)
}

// Stop disarms; reports whether it was armed.
func (t *Timer) Stop() bool {
	s := S
	if s == nil || !t.active {
		return false
	}
	heap.Remove(&s.timers, t.idx)
	t.active = false
	return true
}

// Rearm re-schedules the timer.
func (t *Timer) Rearm(d int64) bool {
	was := t.Stop()
	if d < 0 {
		d = 0
	}
	if s := S; s != nil {
		if s.race != nil && s.cur != nil {
			t.vc.join(s.cur.vc)
			s.cur.vc.tick(s.cur.ID)
		}
		s.arm(t, s.now+d)
	}
	return was
}

// RearmAt re-schedules from inside the timer callback.
func (t *Timer) RearmAt(when int64) { S.arm(t, when) }

// When is the time the timer was last armed for.
func (t *Timer) When() int64 { return t.when }

// SpawnFromTimer starts a task from a timer callback.
func (t *Timer) SpawnFromTimer(name string, f func()) {
	s := S
	cur := s.cur
	s.cur = nil
	nt := s.newTask(name, f)
	s.cur = cur
	nt.vc.join(t.vc)
	if s.Cfg.Strategy == "pct" && !s.Cfg.Replay && cur != nil && nt.prio > cur.prio {
		s.countdown = 0
	}
}

// Sleep parks the current task for d.
func Sleep(d int64) {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	Point("sleep")
	if d <= 0 {
		return
	}
	t := s.cur
	s.addTimer(s.now+d, func() { s.makeReady(t) }, nil)
	s.park("sleep")
}
