// Package gauge is the real gauge; it also keeps its value readable.
package gauge

import (
	"github.com/mum4k/termdash/align"
	"github.com/mum4k/termdash/cell"
	"github.com/mum4k/termdash/linestyle"
	std "github.com/mum4k/termdash/widgets/gauge"

	"github.com/carlisia/bio-adapt/zzverif/sysio"
)

type Option = std.Option

// label carries a label next to the option.
type label struct {
	Option
	s string
}

// color carries a colour next to the option.
type color struct {
	Option
	c cell.Color
}

func TextLabel(s string) Option                     { return label{std.TextLabel(s), s} }
func Char(r rune) Option                            { return std.Char(r) }
func ShowTextProgress() Option                      { return std.ShowTextProgress() }
func HideTextProgress() Option                      { return std.HideTextProgress() }
func Height(n int) Option                           { return std.Height(n) }
func Color(c cell.Color) Option                     { return color{std.Color(c), c} }
func FilledTextColor(c cell.Color) Option           { return std.FilledTextColor(c) }
func EmptyTextColor(c cell.Color) Option            { return std.EmptyTextColor(c) }
func HorizontalTextAlign(h align.Horizontal) Option { return std.HorizontalTextAlign(h) }
func VerticalTextAlign(v align.Vertical) Option     { return std.VerticalTextAlign(v) }
func Border(l linestyle.LineStyle, o ...cell.Option) Option {
	return std.Border(l, o...)
}
func BorderTitle(s string) Option                { return std.BorderTitle(s) }
func BorderTitleAlign(h align.Horizontal) Option { return std.BorderTitleAlign(h) }
func Threshold(t int, l linestyle.LineStyle, o ...cell.Option) Option {
	return std.Threshold(t, l, o...)
}

type Gauge struct {
	*std.Gauge
	p int
	l string
	c cell.Color
}

func (g *Gauge) opts(o []Option) ([]Option, string, cell.Color) {
	real := make([]Option, len(o))
	l, c := g.l, g.c
	for i, x := range o {
		switch y := x.(type) {
		case label:
			l, x = y.s, y.Option
		case color:
			c, x = y.c, y.Option
		}
		real[i] = x
	}
	return real, l, c
}

func New(o ...Option) (*Gauge, error) {
	g := &Gauge{p: -1}
	real, l, c := g.opts(o)
	x, err := std.New(real...)
	if err != nil {
		return nil, err
	}
	g.Gauge, g.l, g.c = x, l, c
	if sysio.Cur != nil {
		sysio.Cur.Gauges = append(sysio.Cur.Gauges, g)
	}
	return g, nil
}

func (g *Gauge) Percent(p int, o ...Option) error {
	real, l, c := g.opts(o)
	if err := g.Gauge.Percent(p, real...); err != nil {
		return err
	}
	g.p, g.l, g.c = p, l, c
	return nil
}

func (g *Gauge) Absolute(done, total int, o ...Option) error {
	real, l, c := g.opts(o)
	if err := g.Gauge.Absolute(done, total, real...); err != nil {
		return err
	}
	g.p, g.l, g.c = done*100/total, l, c
	return nil
}

// Value is what the gauge shows.
func (g *Gauge) Value() (int, string) { return g.p, g.l }

// Shade is the colour of the gauge.
func (g *Gauge) Shade() cell.Color { return g.c }
