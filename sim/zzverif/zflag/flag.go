// Package flag is package flag with a command line of its own for every run.
package flag

import (
	std "flag"
	"io"
	"time"

	"github.com/carlisia/bio-adapt/zzverif/sysio"
)

type (
	FlagSet       = std.FlagSet
	Flag          = std.Flag
	Value         = std.Value
	ErrorHandling = std.ErrorHandling
)

const (
	ContinueOnError = std.ContinueOnError
	ExitOnError     = std.ExitOnError
	PanicOnError    = std.PanicOnError
)

var ErrHelp = std.ErrHelp

var (
	env         *sysio.Env
	CommandLine = std.NewFlagSet("app", std.ContinueOnError)
	Usage       = func() {}
)

func cl() *std.FlagSet {
	if env != sysio.Cur {
		env = sysio.Cur
		CommandLine = std.NewFlagSet("app", std.ContinueOnError)
		CommandLine.SetOutput(io.Discard)
	}
	return CommandLine
}

func NewFlagSet(n string, h ErrorHandling) *FlagSet               { return std.NewFlagSet(n, h) }
func String(n, v, u string) *string                               { return cl().String(n, v, u) }
func Bool(n string, v bool, u string) *bool                       { return cl().Bool(n, v, u) }
func Int(n string, v int, u string) *int                          { return cl().Int(n, v, u) }
func Float64(n string, v float64, u string) *float64              { return cl().Float64(n, v, u) }
func Duration(n string, v time.Duration, u string) *time.Duration { return cl().Duration(n, v, u) }
func StringVar(p *string, n, v, u string)                         { cl().StringVar(p, n, v, u) }
func BoolVar(p *bool, n string, v bool, u string)                 { cl().BoolVar(p, n, v, u) }
func IntVar(p *int, n string, v int, u string)                    { cl().IntVar(p, n, v, u) }
func DurationVar(p *time.Duration, n string, v time.Duration, u string) {
	cl().DurationVar(p, n, v, u)
}
func Args() []string        { return cl().Args() }
func Arg(i int) string      { return cl().Arg(i) }
func NArg() int             { return cl().NArg() }
func PrintDefaults()        {}
func Parsed() bool          { return cl().Parsed() }
func Lookup(n string) *Flag { return cl().Lookup(n) }
func Parse() {
	c := cl()
	if env == nil {
		return
	}
	if err := c.Parse(env.Args); err != nil {
		sysio.Exit(2)
	}
}
