// Package sysio stands in for what an application touches outside itself:
// standard output, exit, signals, command line and the terminal.
package sysio

import (
	"context"
	"fmt"
	"io"
	"os"
	"slices"
	"strings"

	"github.com/mum4k/termdash/cell"
	"github.com/mum4k/termdash/container"
	"github.com/mum4k/termdash/terminal/terminalapi"

	zctx "github.com/carlisia/bio-adapt/zzverif/context"
	"github.com/carlisia/bio-adapt/zzverif/rt"
)

// Panel is a text widget's content.
type Panel interface {
	Content() string
	Colors() []cell.Color
	Writes() int
	Flush() error
}

// Session is one call of the terminal's event loop.
type Session struct {
	Keys   []func(*terminalapi.Keyboard)
	C      *container.Container
	Panels []Panel // made for this session
	Gauges []Gauge
	Ended  bool
}

// Shown is all the text on the session's panels.
func (s *Session) Shown() string { return Text(s.Panels) }

// Draw draws the screen.
func (s *Session) Draw() error {
	for _, p := range s.Panels {
		if err := p.Flush(); err != nil {
			return err
		}
	}
	return s.C.Draw()
}

// Writes counts what was done to the session's panels.
func (s *Session) Writes() int {
	n := 0
	for _, p := range s.Panels {
		n += p.Writes()
	}
	return n
}

// Text joins panels.
func Text(ps []Panel) string {
	var b strings.Builder
	for _, p := range ps {
		b.WriteString(p.Content())
		b.WriteString("\x00")
	}
	return b.String()
}

// Begin starts a session with everything made since the last one.
func (e *Env) Begin(c *container.Container) *Session {
	s := &Session{C: c, Panels: e.Panels[e.panels:], Gauges: e.Gauges[e.gauges:]}
	e.panels, e.gauges = len(e.Panels), len(e.Gauges)
	e.Sessions = append(e.Sessions, s)
	return s
}

// Env is what the outside looks like to one run.
type Env struct {
	Args     []string
	TTY      bool
	TermErr  error // the terminal cannot be opened
	RunErr   error // the terminal fails
	W, H     int
	Out      strings.Builder
	Errs     []string // complaints about widgets
	Exits    []int
	Opened   int
	Closed   int
	Sessions []*Session
	Panels   []Panel
	Gauges   []Gauge
	Charts   []Chart
	panels   int
	gauges   int
	notify   []listener
	Shut     int // output length when a terminal was last closed
}

type Gauge interface {
	Value() (percent int, label string)
	Shade() cell.Color
}
type Chart interface {
	Values(series string) []float64
	Names() []string
}

// Cur is the environment of the run under way; nil outside the simulator.
var Cur *Env

// Exited is what Exit panics with.
type Exited struct{ Code int }

func Exit(code int) {
	if Cur == nil {
		os.Exit(code)
	}
	Cur.Exits = append(Cur.Exits, code)
	panic(Exited{code})
}

func Print(a ...any) (int, error) {
	if Cur == nil {
		return fmt.Print(a...)
	}
	s := fmt.Sprint(a...)
	Cur.write(s)
	return len(s), nil
}
func Printf(f string, a ...any) (int, error) { return Print(fmt.Sprintf(f, a...)) }
func Println(a ...any) (int, error)          { return Print(fmt.Sprintln(a...)) }

func (e *Env) write(s string) {
	rt.Point("print")
	e.Out.WriteString(s)
	if strings.Contains(s, "write error") || strings.Contains(s, "ailed") || strings.Contains(s, "rror:") {
		e.Errs = append(e.Errs, strings.TrimSpace(s))
	}
}

func Fprint(w io.Writer, a ...any) (int, error) {
	if Cur != nil && (w == io.Writer(os.Stdout) || w == io.Writer(os.Stderr)) {
		return Print(a...)
	}
	return fmt.Fprint(w, a...)
}
func Fprintf(w io.Writer, f string, a ...any) (int, error) { return Fprint(w, fmt.Sprintf(f, a...)) }
func Fprintln(w io.Writer, a ...any) (int, error)          { return Fprint(w, fmt.Sprintln(a...)) }

// IsTerminal stands in for term.IsTerminal.
func IsTerminal(int) bool { return Cur != nil && Cur.TTY }

// Notify, Stop: signals.
func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	if Cur != nil {
		Cur.notify = append(Cur.notify, listener{c, sigs})
	}
}

// listener is a channel and the signals it is for, all if none are named.
type listener struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

func Stop(c chan<- os.Signal) {
	if Cur == nil {
		return
	}
	for i, n := range Cur.notify {
		if n.c == c {
			Cur.notify = append(Cur.notify[:i:i], Cur.notify[i+1:]...)
			return
		}
	}
}

// Raise delivers a signal; like the real thing it does not wait for room.
// It says whether anything listens for the signal.
func (e *Env) Raise(s os.Signal) bool {
	heard := false
	for _, l := range e.notify {
		if len(l.sigs) == 0 || slices.Contains(l.sigs, s) {
			rt.Select(true, rt.CaseSendTo(l.c)(s))
			heard = true
		}
	}
	return heard
}

// NotifyContext stands in for signal.NotifyContext.
func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := zctx.WithCancel(parent)
	c := make(chan os.Signal, 1)
	Notify(c, sigs...)
	rt.Go(func() {
		i := rt.Select(false, rt.CaseRecv(c), rt.CaseRecv(ctx.Done()))
		_ = i
		cancel()
	})
	return ctx, func() { cancel(); Stop(c) }
}
