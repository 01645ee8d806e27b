// Package text is the real text widget; it also keeps its content readable.
package text

import (
	"errors"
	"fmt"
	"strings"
	"unicode"

	"github.com/mum4k/termdash/cell"
	"github.com/mum4k/termdash/keyboard"
	"github.com/mum4k/termdash/mouse"
	std "github.com/mum4k/termdash/widgets/text"

	"github.com/carlisia/bio-adapt/zzverif/rt"
	"github.com/carlisia/bio-adapt/zzverif/sysio"
)

type (
	Option      = std.Option
	WriteOption = std.WriteOption
)

func WrapAtWords() Option                         { return std.WrapAtWords() }
func WrapAtRunes() Option                         { return std.WrapAtRunes() }
func RollContent() Option                         { return std.RollContent() }
func DisableScrolling() Option                    { return std.DisableScrolling() }
func MaxTextCells(n int) Option                   { return std.MaxTextCells(n) }
func ScrollRunes(a, b rune) Option                { return std.ScrollRunes(a, b) }
func ScrollMouseButtons(a, b mouse.Button) Option { return std.ScrollMouseButtons(a, b) }
func ScrollKeys(a, b, c, d keyboard.Key) Option   { return std.ScrollKeys(a, b, c, d) }

// cells carries the colour next to the option.
type cells struct {
	WriteOption
	fg cell.Color
}

func WriteCellOpts(o ...cell.Option) WriteOption {
	return cells{std.WriteCellOpts(o...), cell.NewOptions(o...).FgColor}
}

// replace marks a write that replaces the content.
type replace struct{ WriteOption }

func WriteReplace() WriteOption { return replace{std.WriteReplace()} }

// Text takes writes down and passes them on to the real widget when the screen
// is drawn: counting the cells of a long text at every write takes most of the
// time otherwise.
type Text struct {
	*std.Text
	b    strings.Builder
	fg   []cell.Color // of each rune
	n    int          // writes so far
	todo []write
}

type write struct {
	s string
	o []WriteOption
}

func New(o ...Option) (*Text, error) {
	t, err := std.New(o...)
	if err != nil {
		return nil, err
	}
	n := &Text{Text: t}
	if sysio.Cur != nil {
		sysio.Cur.Panels = append(sysio.Cur.Panels, n)
	}
	return n, nil
}

func (t *Text) Reset() {
	t.Text.Reset()
	t.b.Reset()
	t.fg = t.fg[:0]
	t.n++
	t.todo = t.todo[:0]
}

// valid is the real widget's own condition.
func valid(s string) error {
	if s == "" {
		return errors.New("the text cannot be empty")
	}
	for _, c := range s {
		if c != ' ' && c != '\n' && (unicode.IsControl(c) || unicode.IsSpace(c)) {
			return fmt.Errorf("the text %q cannot contain %q", s, c)
		}
	}
	return nil
}

func (t *Text) Write(s string, o ...WriteOption) error {
	if err := valid(s); err != nil {
		return err
	}
	real := make([]WriteOption, len(o))
	fg := cell.ColorDefault
	for i, x := range o {
		switch r := x.(type) {
		case replace:
			t.b.Reset()
			t.fg = t.fg[:0]
			x = r.WriteOption
		case cells:
			fg, x = r.fg, r.WriteOption
		}
		real[i] = x
	}
	t.todo = append(t.todo, write{s, real})
	t.b.WriteString(s)
	for range s {
		t.fg = append(t.fg, fg)
	}
	t.n++
	if rt.Active() {
		rt.Point("widget")
	}
	return nil
}

// Flush passes everything on to the real widget.
func (t *Text) Flush() error {
	for _, x := range t.todo {
		if err := t.Text.Write(x.s, x.o...); err != nil {
			return err
		}
	}
	t.todo = t.todo[:0]
	return nil
}

// Content is all that was written.
func (t *Text) Content() string { return t.b.String() }

// Colors are the colours of the content's runes.
func (t *Text) Colors() []cell.Color { return t.fg }

// Writes counts what was done to the widget.
func (t *Text) Writes() int { return t.n }
