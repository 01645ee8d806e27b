// Package context is context on the simulated clock and scheduler.
package context

import (
	std "context"
	"errors"
	stdtime "time"

	"github.com/carlisia/bio-adapt/zzverif/rt"
	ztime "github.com/carlisia/bio-adapt/zzverif/time"
)

type simCtx struct {
	parent   Context
	done     chan struct{}
	err      error
	cause    error
	deadline stdtime.Time
	hasDL    bool
	children []*simCtx
	afters   []*after
	timer    *rt.Timer
	sv       rt.SyncVar
	epoch    uint32
}

type after struct {
	f       func()
	stopped bool
}

type ckey struct{}

func (c *simCtx) Deadline() (stdtime.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *simCtx) Done() <-chan struct{} { return c.done }
func (c *simCtx) Err() error {
	rt.Point("ctx.err")
	if c.err != nil {
		c.sv.Acquire()
	}
	return c.err
}
func (c *simCtx) Value(k any) any {
	if _, ok := k.(ckey); ok {
		return c
	}
	return c.parent.Value(k)
}

type valueCtx struct {
	Context
	k, v any
}

func (c *valueCtx) Value(k any) any {
	if k == c.k {
		return c.v
	}
	return c.Context.Value(k)
}

type noCancel struct{ p Context }

func (noCancel) Deadline() (stdtime.Time, bool) { return stdtime.Time{}, false }
func (noCancel) Done() <-chan struct{}          { return nil }
func (noCancel) Err() error                     { return nil }
func (c noCancel) Value(k any) any {
	if _, ok := k.(ckey); ok {
		return nil
	}
	return c.p.Value(k)
}

func (c *simCtx) cancel(err, cause error) {
	if c.err != nil || c.epoch != rt.Epoch() {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	c.sv.Release()
	rt.CloseQuiet(c.done)
	if c.timer != nil {
		c.timer.Stop()
	}
	kids, as := c.children, c.afters
	c.children, c.afters = nil, nil
	for _, k := range kids {
		k.cancel(err, cause)
	}
	for _, a := range as {
		if !a.stopped {
			a.stopped = true
			rt.GoQuiet("context.AfterFunc", a.f)
		}
	}
}

func newCtx(parent Context) *simCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &simCtx{parent: parent, done: make(chan struct{}), epoch: rt.Epoch()}
	if p, ok := parent.Value(ckey{}).(*simCtx); ok && p != nil {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	}
	return c
}

func (c *simCtx) detach() {
	if p, ok := c.parent.Value(ckey{}).(*simCtx); ok && p != nil {
		for i, k := range p.children {
			if k == c {
				p.children = append(p.children[:i:i], p.children[i+1:]...)
				return
			}
		}
	}
}

func WithCancel(parent Context) (Context, CancelFunc) {
	ctx, cf := WithCancelCause(parent)
	return ctx, func() { cf(nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	if !rt.Active() {
		return std.WithCancelCause(parent)
	}
	rt.Point("ctx.new")
	c := newCtx(parent)
	return c, func(cause error) {
		rt.Point("cancel")
		if rt.Killed() {
			return
		}
		c.cancel(Canceled, cause)
		c.detach()
	}
}

func WithDeadline(parent Context, d stdtime.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d stdtime.Time, cause error) (Context, CancelFunc) {
	if !rt.Active() {
		return std.WithDeadlineCause(parent, d, cause)
	}
	rt.Point("ctx.new")
	c := newCtx(parent)
	if cur, ok := parent.Deadline(); !ok || d.Before(cur) {
		c.deadline, c.hasDL = d, true
		if c.err == nil {
			dur := d.Sub(ztime.Now())
			if dur <= 0 {
				c.cancel(DeadlineExceeded, cause)
			} else {
				c.timer = rt.AddTimer(int64(dur), func() { c.cancel(DeadlineExceeded, cause) })
			}
		}
	}
	return c, func() {
		rt.Point("cancel")
		if rt.Killed() {
			return
		}
		c.cancel(Canceled, nil)
		c.detach()
	}
}

func WithTimeout(parent Context, d stdtime.Duration) (Context, CancelFunc) {
	return WithTimeoutCause(parent, d, nil)
}

func WithTimeoutCause(parent Context, d stdtime.Duration, cause error) (Context, CancelFunc) {
	if !rt.Active() {
		return std.WithTimeoutCause(parent, d, cause)
	}
	return WithDeadlineCause(parent, ztime.Now().Add(d), cause)
}

func WithValue(parent Context, k, v any) Context {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	if k == nil {
		panic("nil key")
	}
	return &valueCtx{parent, k, v}
}

func WithoutCancel(parent Context) Context { return noCancel{parent} }

func Cause(c Context) error {
	if p, ok := c.Value(ckey{}).(*simCtx); ok && p != nil {
		if p.err != nil {
			p.sv.Acquire()
		}
		return p.cause
	}
	return c.Err()
}

func AfterFunc(ctx Context, f func()) func() bool {
	p, ok := ctx.Value(ckey{}).(*simCtx)
	if !ok || p == nil {
		return std.AfterFunc(ctx, f)
	}
	rt.Point("ctx.afterfunc")
	a := &after{f: f}
	if p.err != nil {
		a.stopped = true
		rt.GoQuiet("context.AfterFunc", f)
	} else {
		p.afters = append(p.afters, a)
	}
	return func() bool {
		rt.Point("ctx.stop")
		if a.stopped {
			return false
		}
		a.stopped = true
		return true
	}
}

var _ = errors.New
