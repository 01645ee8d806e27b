// Package time is the simulated clock.
package time

import (
	std "time"

	"github.com/carlisia/bio-adapt/zzverif/rt"
)

var base = std.Date(2024, 1, 1, 0, 0, 0, 0, std.UTC)

// Now is the simulated time.
func Now() Time {
	if !rt.Active() {
		return std.Now()
	}
	rt.Point("now")
	return base.Add(std.Duration(rt.Now()))
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) {
	if !rt.Active() {
		std.Sleep(d)
		return
	}
	rt.Sleep(int64(d))
}

// Timer mirrors time.Timer with Go 1.23 semantics.
type Timer struct {
	C <-chan Time
	c chan Time
	t *rt.Timer
	n *std.Timer
}

func NewTimer(d Duration) *Timer {
	if !rt.Active() {
		n := std.NewTimer(d)
		return &Timer{C: n.C, n: n}
	}
	rt.Point("timer")
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.t = rt.AddTimer(int64(d), func() { rt.TrySendQuiet(c, base.Add(std.Duration(rt.Now())), t.t.VC()) })
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func AfterFunc(d Duration, f func()) *Timer {
	if !rt.Active() {
		return &Timer{n: std.AfterFunc(d, f)}
	}
	rt.Point("timer")
	t := &Timer{}
	t.t = rt.AddTimer(int64(d), func() { t.t.SpawnFromTimer("time.AfterFunc", f) })
	return t
}

func (t *Timer) Stop() bool {
	if t.n != nil {
		return t.n.Stop()
	}
	if t.t == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	rt.Point("timer.stop")
	was := t.t.Stop()
	if t.c != nil && rt.Drain(t.c) {
		was = true
	}
	return was
}

func (t *Timer) Reset(d Duration) bool {
	if t.n != nil {
		return t.n.Reset(d)
	}
	if t.t == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	rt.Point("timer.reset")
	was := t.t.Rearm(int64(d))
	if t.c != nil && rt.Drain(t.c) {
		was = true
	}
	return was
}

// Ticker mirrors time.Ticker.
type Ticker struct {
	C <-chan Time
	c chan Time
	d int64
	t *rt.Timer
	n *std.Ticker
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if !rt.Active() {
		n := std.NewTicker(d)
		return &Ticker{C: n.C, n: n}
	}
	rt.Point("ticker")
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: int64(d)}
	t.t = rt.AddTimer(t.d, t.fire)
	return t
}

func (t *Ticker) fire() {
	now := rt.Now()
	if !rt.TrySendQuiet(t.c, base.Add(std.Duration(now)), t.t.VC()) {
		rt.Fault("tick_dropped")
	}
	next := t.t.When() + t.d
	if next <= now {
		next += t.d * ((now-next)/t.d + 1)
	}
	t.t.RearmAt(next)
}

func (t *Ticker) Stop() {
	if t.n != nil {
		t.n.Stop()
		return
	}
	if t.t == nil {
		return
	}
	rt.Point("ticker.stop")
	t.t.Stop()
	rt.Drain(t.c)
}

func (t *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	if t.n != nil {
		t.n.Reset(d)
		return
	}
	rt.Point("ticker.reset")
	t.d = int64(d)
	rt.Drain(t.c)
	t.t.Rearm(t.d)
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
