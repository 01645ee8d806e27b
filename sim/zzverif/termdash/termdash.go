// Package termdash stands in for the terminal's event loop.
package termdash

import (
	"context"
	"time"

	std "github.com/mum4k/termdash"
	"github.com/mum4k/termdash/container"
	"github.com/mum4k/termdash/terminal/terminalapi"

	"github.com/carlisia/bio-adapt/zzverif/rt"
	"github.com/carlisia/bio-adapt/zzverif/sysio"
)

type Option interface{}

type keys func(*terminalapi.Keyboard)

func KeyboardSubscriber(f func(*terminalapi.Keyboard)) Option { return keys(f) }
func MouseSubscriber(f func(*terminalapi.Mouse)) Option       { return std.MouseSubscriber(f) }
func RedrawInterval(d time.Duration) Option                   { return std.RedrawInterval(d) }
func ErrorHandler(f func(error)) Option                       { return std.ErrorHandler(f) }

// Run ends with the context, or fails when the environment says so.
func Run(ctx context.Context, _ terminalapi.Terminal, c *container.Container, opts ...Option) error {
	e := sysio.Cur
	s := e.Begin(c)
	for _, o := range opts {
		if k, ok := o.(keys); ok {
			s.Keys = append(s.Keys, k)
		}
	}
	defer func() { s.Ended = true }()
	for {
		if err := e.RunErr; err != nil {
			return err
		}
		if ctx.Err() != nil {
			return nil
		}
		rt.Sleep(int64(10 * time.Millisecond))
	}
}
