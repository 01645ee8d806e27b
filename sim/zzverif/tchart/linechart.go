// Package linechart is the real chart; it also keeps its values readable.
package linechart

import (
	"slices"

	"github.com/mum4k/termdash/cell"
	std "github.com/mum4k/termdash/widgets/linechart"

	"github.com/carlisia/bio-adapt/zzverif/sysio"
)

type (
	Option         = std.Option
	SeriesOption   = std.SeriesOption
	ValueFormatter = std.ValueFormatter
)

func YAxisAdaptive() Option                        { return std.YAxisAdaptive() }
func YAxisCustomScale(a, b float64) Option         { return std.YAxisCustomScale(a, b) }
func YAxisFormattedValues(f ValueFormatter) Option { return std.YAxisFormattedValues(f) }
func XAxisUnscaled() Option                        { return std.XAxisUnscaled() }
func AxesCellOpts(o ...cell.Option) Option         { return std.AxesCellOpts(o...) }
func XLabelCellOpts(o ...cell.Option) Option       { return std.XLabelCellOpts(o...) }
func YLabelCellOpts(o ...cell.Option) Option       { return std.YLabelCellOpts(o...) }
func XLabelsVertical() Option                      { return std.XLabelsVertical() }
func XLabelsHorizontal() Option                    { return std.XLabelsHorizontal() }
func ZoomStepPercent(n int) Option                 { return std.ZoomStepPercent(n) }
func SeriesCellOpts(o ...cell.Option) SeriesOption { return std.SeriesCellOpts(o...) }
func SeriesXLabels(m map[int]string) SeriesOption  { return std.SeriesXLabels(m) }

type LineChart struct {
	*std.LineChart
	v map[string][]float64
}

func New(o ...Option) (*LineChart, error) {
	c, err := std.New(o...)
	if err != nil {
		return nil, err
	}
	n := &LineChart{LineChart: c, v: map[string][]float64{}}
	if sysio.Cur != nil {
		sysio.Cur.Charts = append(sysio.Cur.Charts, n)
	}
	return n, nil
}

func (c *LineChart) Series(label string, values []float64, o ...SeriesOption) error {
	if err := c.LineChart.Series(label, values, o...); err != nil {
		return err
	}
	c.v[label] = slices.Clone(values)
	return nil
}

func (c *LineChart) Values(s string) []float64 { return c.v[s] }
func (c *LineChart) Names() []string {
	var n []string
	for k := range c.v {
		n = append(n, k)
	}
	slices.Sort(n)
	return n
}
