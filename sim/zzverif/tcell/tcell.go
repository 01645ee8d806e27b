// Package tcell stands in for the terminal.
package tcell

import (
	"context"
	"fmt"
	"image"

	"github.com/mum4k/termdash/cell"
	std "github.com/mum4k/termdash/terminal/tcell"
	"github.com/mum4k/termdash/terminal/terminalapi"

	"github.com/carlisia/bio-adapt/zzverif/sysio"
)

type Option = std.Option

func ColorMode(cm terminalapi.ColorMode) Option { return std.ColorMode(cm) }
func ClearStyle(fg, bg cell.Color) Option       { return std.ClearStyle(fg, bg) }

// Terminal is a terminal in memory.
type Terminal struct {
	size  image.Point
	cells map[image.Point]rune
}

func New(...Option) (*Terminal, error) {
	e := sysio.Cur
	if e.TermErr != nil {
		return nil, e.TermErr
	}
	e.Opened++
	return &Terminal{image.Point{X: e.W, Y: e.H}, map[image.Point]rune{}}, nil
}

func (t *Terminal) Size() image.Point          { return t.size }
func (t *Terminal) Clear(...cell.Option) error { clear(t.cells); return nil }
func (t *Terminal) Flush() error               { return nil }
func (t *Terminal) SetCursor(image.Point)      {}
func (t *Terminal) HideCursor()                {}
func (t *Terminal) Close()                     { sysio.Cur.Closed++; sysio.Cur.Shut = sysio.Cur.Out.Len() }
func (t *Terminal) Event(ctx context.Context) terminalapi.Event {
	<-ctx.Done()
	return nil
}

// SetCell refuses cells outside the terminal, like the real one.
func (t *Terminal) SetCell(p image.Point, r rune, _ ...cell.Option) error {
	if !p.In(image.Rectangle{Max: t.size}) {
		return fmt.Errorf("cell %v is outside the terminal of %v", p, t.size)
	}
	t.cells[p] = r
	return nil
}
