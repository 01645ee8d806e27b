package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"time"

	"github.com/carlisia/bio-adapt/emerge/convergence"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/monitoring"
	iemerge "github.com/carlisia/bio-adapt/internal/emerge"
)

const monReal = "emerge/monitoring, emerge/convergence, internal/emerge"

func init() {
	register(&Scenario{Prop: "P11", Name: "sample-window", Run: sampleWindow, Fine: 0.2, MaxSteps: 400000, MaxTime: time.Hour,
		StallMax: 50 * time.Millisecond, Freeze: true, Quick: 60000, Thorough: 2000000, Real: monReal, Stub: agentStub})
	register(&Scenario{Prop: "P11", Name: "convergence-record", Run: convergenceRecord, Fine: 0.2, MaxSteps: 400000, MaxTime: time.Hour,
		StallMax: 50 * time.Millisecond, Freeze: true, Quick: 120000, Thorough: 3000000, Real: monReal, Stub: agentStub})
	register(&Scenario{Prop: "P11", Name: "progress-monitor", Run: progressMonitor, Fine: 0.2, MaxSteps: 400000, MaxTime: time.Hour,
		StallMax: 50 * time.Millisecond, Freeze: true, Quick: 100000, Thorough: 3000000, Real: monReal, Stub: agentStub})
}

func near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*(1+math.Abs(a)+math.Abs(b))
}

type windowMonitor interface {
	RecordSample(float64)
	History() []float64
	Latest() float64
	Average() float64
}

type monOp struct {
	kind int
	v    float64
}

// seqKey identifies a sequence exactly.
func seqKey(st any) string {
	s := st.([]float64)
	b := make([]byte, 0, 8*len(s))
	for _, v := range s {
		b = binary.LittleEndian.AppendUint64(b, math.Float64bits(v))
	}
	return string(b)
}

func sameSeq(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func mean(s []float64) float64 {
	if len(s) == 0 {
		return 0
	}
	t := 0.0
	for _, v := range s {
		t += v
	}
	return t / float64(len(s))
}

func sampleWindow(w *W) {
	var m windowMonitor = monitoring.New()
	if w.Rng.Bool(0.5) {
		m = iemerge.NewMonitor()
	}
	var init []float64
	pre := pick(w, 0, 0, w.Between(95, 130), 99, 100)
	for i := 0; i < pre; i++ {
		v := float64(i) / 256
		m.RecordSample(v)
		init = append(init, v)
	}
	if len(init) > 100 {
		init = init[len(init)-100:]
	}
	h := &Hist{w: w}
	uniq := 1000
	for t, nt := 0, w.Between(2, 4); t < nt; t++ {
		var plan []monOp
		for i, n := 0, w.Between(1, 5); i < n; i++ {
			if !w.Keep() {
				continue
			}
			uniq++
			v := float64(uniq) / 4096
			if w.Rng.Bool(0.25) {
				v = pick(w, 0.0, 0, 1, 0.5)
			}
			plan = append(plan, monOp{pick(w, 0, 0, 0, 1, 2, 3), v})
		}
		w.Note("t%d %v", t, plan)
		w.Go(fmt.Sprintf("client%d", t), func() {
			for _, p := range plan {
				o := h.Begin(p, fmt.Sprintf("%s %v", []string{"record", "history", "latest", "average"}[p.kind], p.v))
				switch p.kind {
				case 0:
					m.RecordSample(p.v)
					h.End(o, nil)
				case 1:
					l := m.History()
					h.End(o, append([]float64(nil), l...))
					for i := range l {
						l[i] = -1 // a caller's copy is the caller's
					}
				case 2:
					h.End(o, m.Latest())
				default:
					h.End(o, m.Average())
				}
			}
		})
	}
	w.Wait()
	o := h.Begin(monOp{kind: 1}, "final history")
	h.End(o, m.History())
	ok, _ := Linearizable(h.Ops, init, func(st any, o *Op) (bool, any) {
		s, in := st.([]float64), o.In.(monOp)
		switch in.kind {
		case 0:
			n := append(append([]float64(nil), s...), in.v)
			if len(n) > 100 {
				n = n[len(n)-100:]
			}
			return true, n
		case 1:
			return sameSeq(o.Out.([]float64), s), st
		case 2:
			l := 0.0
			if len(s) > 0 {
				l = s[len(s)-1]
			}
			return o.Out.(float64) == l, st
		default:
			return near(o.Out.(float64), mean(s)), st
		}
	}, seqKey)
	w.Check(ok, "window", "monitor holding the last 100 samples: no sequential order explains the history:%s", h.Format())
}

// ---------------------------------------------------------------- convergence record

type convMonitor interface {
	Record(float64)
	IsConverged() bool
	ConvergenceTime() time.Duration
	CurrentCoherence() float64
	ConvergenceRate() float64
	Stability() float64
	PredictConvergenceTime() time.Duration
	History() []float64
	Statistics() map[string]any
	Reset()
}

func slope(s []float64) float64 {
	if len(s) < 2 {
		return 0
	}
	if len(s) > 10 {
		s = s[len(s)-10:]
	}
	mx := float64(len(s)-1) / 2
	my := mean(s)
	num, den := 0.0, 0.0
	for i, y := range s {
		num += (float64(i) - mx) * (y - my)
		den += (float64(i) - mx) * (float64(i) - mx)
	}
	return num / den
}

func sd(s []float64) float64 {
	m, t := mean(s), 0.0
	for _, v := range s {
		t += (v - m) * (v - m)
	}
	return math.Sqrt(t / float64(len(s)))
}

func stab(s []float64) float64 {
	if len(s) < 2 {
		return 1
	}
	if len(s) > 20 {
		s = s[len(s)-20:]
	}
	return math.Exp(-10 * sd(s))
}

func predicted(s []float64, thr float64) time.Duration {
	r := slope(s)
	if r <= 0 || s[len(s)-1] >= thr {
		return 0
	}
	return time.Duration((thr - s[len(s)-1]) / r * float64(100*time.Millisecond))
}

func nearDur(a, b time.Duration) bool {
	d := math.Abs(float64(a - b))
	return d <= 1000 || d <= 1e-6*math.Abs(float64(b))
}

// convRef is the reference model: the samples since the last reset, when that
// was, and when the current stretch of converged samples began.
type convRef struct {
	s    []float64
	from [2]time.Duration
	at   [2]time.Duration
	conv bool
}

func (r convRef) add(v, thr float64, from, to time.Duration) convRef {
	if v >= thr {
		r = r.mark(from, to)
	} else {
		r.conv = false
	}
	r.s = append(append([]float64(nil), r.s...), v)
	return r
}

// mark is the target being reached, by a sample or by a caller's word.
func (r convRef) mark(from, to time.Duration) convRef {
	if !r.conv {
		r.conv, r.at = true, [2]time.Duration{from, to}
	}
	return r
}

func (r convRef) timeOK(d time.Duration) bool {
	if !r.conv {
		return d == 0
	}
	return d >= r.at[0]-r.from[1]-1 && d <= r.at[1]-r.from[0]+1 && d >= 0
}

func convKey(st any) string {
	r := st.(convRef)
	return fmt.Sprint(seqKey(r.s), r.from, r.at, r.conv)
}

func convergenceRecord(w *W) {
	thr := pick(w, 0.5, 0.7, 0.9)
	t0 := w.Now()
	var m convMonitor = monitoring.NewConvergence(core.State{Coherence: thr}, thr)
	if w.Rng.Bool(0.5) {
		m = iemerge.NewConvergenceMonitor(core.State{Coherence: thr}, thr)
	}
	t1 := w.Now()
	init := convRef{from: [2]time.Duration{t0, t1}}
	if w.Rng.Bool(0.3) {
		for i, n := 0, w.Between(1, 24); i < n; i++ {
			v := float64(w.Between(0, 64)) / 64
			if w.Rng.Bool(0.3) {
				w.Sleep(time.Duration(w.Between(1, 1000)) * time.Microsecond)
			}
			b := w.Now()
			m.Record(v)
			init = init.add(v, thr, b, w.Now())
		}
	}
	h := &Hist{w: w}
	ops := []int{0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 7, 8, 9}
	// only one of the two implementations takes the caller's word for it
	mark, ok := m.(interface{ MarkConverged() })
	if ok {
		ops = append(ops, 10, 10)
	}
	kinds := []string{"record", "converged?", "current", "rate", "stability", "predict", "history", "statistics", "reset", "time", "mark"}
	for t, nt := 0, w.Between(2, 4); t < nt; t++ {
		var plan []monOp
		for i, n := 0, w.Between(1, 5); i < n; i++ {
			if !w.Keep() {
				continue
			}
			// samples may lie on the threshold and repeat
			v := pick(w, thr, math.Nextafter(thr, 0), 0, 1, float64(w.Between(0, 64))/64)
			if w.Rng.Bool(0.15) {
				plan = append(plan, monOp{kind: -1, v: float64(w.Between(1, 1000))})
			}
			plan = append(plan, monOp{pick(w, ops...), v})
		}
		w.Note("t%d %v", t, plan)
		w.Go(fmt.Sprintf("client%d", t), func() {
			for _, p := range plan {
				if p.kind < 0 {
					w.Sleep(time.Duration(p.v) * time.Microsecond)
					continue
				}
				o := h.Begin(p, fmt.Sprintf("%s %v", kinds[p.kind], p.v))
				switch p.kind {
				case 0:
					m.Record(p.v)
					h.End(o, nil)
				case 1:
					h.End(o, m.IsConverged())
				case 2:
					h.End(o, m.CurrentCoherence())
				case 3:
					h.End(o, m.ConvergenceRate())
				case 4:
					h.End(o, m.Stability())
				case 5:
					h.End(o, m.PredictConvergenceTime())
				case 6:
					h.End(o, m.History())
				case 7:
					h.End(o, m.Statistics())
				case 8:
					m.Reset()
					h.End(o, nil)
				case 10:
					mark.MarkConverged()
					h.End(o, nil)
				default:
					d := m.ConvergenceTime()
					w.Check(d >= 0 && d <= w.Now()-t0, "time", "time to convergence of %v reported %v after the monitor was made", d, w.Now()-t0)
					h.End(o, d)
				}
			}
		})
	}
	w.Wait()
	h.End(h.Begin(monOp{kind: 6}, "final history"), m.History())
	h.End(h.Begin(monOp{kind: 7}, "final statistics"), m.Statistics())
	ok, _ = Linearizable(h.Ops, init, func(st any, o *Op) (bool, any) {
		ref, in := st.(convRef), o.In.(monOp)
		s := ref.s
		cur := 0.0
		if len(s) > 0 {
			cur = s[len(s)-1]
		}
		switch in.kind {
		case 0:
			return true, ref.add(in.v, thr, o.From, o.To)
		case 1:
			return o.Out.(bool) == ref.conv, st
		case 2:
			return o.Out.(float64) == cur, st
		case 3:
			return near(o.Out.(float64), slope(s)), st
		case 4:
			return near(o.Out.(float64), stab(s)), st
		case 5:
			d := o.Out.(time.Duration)
			if ref.conv {
				return d == 0, st
			}
			if sl := slope(s); math.Abs(sl) < 1e-9 {
				return d >= 0, st // rounding decides how much
			}
			return nearDur(d, predicted(s, thr)), st
		case 6:
			return sameSeq(o.Out.([]float64), s), st
		case 7:
			return statsOK(o.Out.(map[string]any), ref, thr), st
		case 8:
			return true, convRef{from: [2]time.Duration{o.From, o.To}}
		case 10:
			return true, ref.mark(o.From, o.To)
		default:
			return ref.timeOK(o.Out.(time.Duration)), st
		}
	}, convKey)
	w.Check(ok, "record", "convergence record with threshold %v: no sequential order explains the history:%s", thr, h.Format())
}

func statsOK(x map[string]any, ref convRef, thr float64) bool {
	s := ref.s
	num := func(k string) float64 {
		switch v := x[k].(type) {
		case float64:
			return v
		case int:
			return float64(v)
		case time.Duration:
			return v.Seconds()
		}
		return math.NaN()
	}
	if num("samples") != float64(len(s)) || x["converged"] != ref.conv || num("target_coherence") != thr {
		return false
	}
	if _, has := x["convergence_time"]; has != ref.conv {
		return false
	} else if has && !ref.timeOK(time.Duration(math.Round(num("convergence_time")*1e9))) {
		return false
	}
	cur, hi, lo := 0.0, 0.0, 1.0
	for _, v := range s {
		cur = v
		hi = math.Max(hi, v)
		lo = math.Min(lo, v)
	}
	if num("current_coherence") != cur || num("max") != hi || num("min") != lo {
		return false
	}
	if len(s) > 0 && (!near(num("mean"), mean(s)) || math.Abs(num("std_dev")-sd(s)) > 1e-7) {
		return false
	}
	if !near(num("convergence_rate"), slope(s)) || !near(num("stability"), stab(s)) {
		return false
	}
	return true
}

// ---------------------------------------------------------------- progress monitor

type pmSample struct {
	at   time.Duration
	dist float64
}

// progressMonitor: the progress, trend and stuck verdicts of the target monitor.
// Verdicts on several atomics are compared at rest, ranges always.
func progressMonitor(w *W) {
	win := w.Between(3, 8)
	m := convergence.NewMonitor(win)
	target := &core.TargetPattern{Phase: 1, Frequency: 100 * time.Millisecond, Coherence: 0.9}
	m.SetTarget(target)
	conc := w.Rng.Bool(0.5)
	shape := w.Rng.Intn(7)
	dist := func(i int) float64 {
		switch shape {
		case 0:
			return math.Max(0, 1-float64(i)*0.05)
		case 1:
			return math.Min(1, float64(i)*0.05)
		case 2:
			return 0.5
		case 3:
			return 0
		case 4: // nearer, then back
			return math.Abs(0.6 - float64(i)*0.06)
		case 5: // to and fro
			return 0.3 + 0.1*float64(w.Rng.Intn(3))
		default:
			return w.Rng.Float()
		}
	}
	if conc {
		recs := 0
		for t, nt := 0, w.Between(2, 4); t < nt; t++ {
			var plan []monOp
			for i, n := 0, w.Between(1, 8); i < n; i++ {
				if !w.Keep() {
					continue
				}
				plan = append(plan, monOp{pick(w, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7), dist(i)})
			}
			w.Note("t%d %v", t, plan)
			w.Go(fmt.Sprintf("client%d", t), func() {
				for _, p := range plan {
					switch p.kind {
					case 0:
						m.RecordSample(patternAt(p.v), p.v)
						recs++
					case 1:
						v := m.GetProgress()
						w.Check(v >= 0 && v <= 1, "progress", "progress reported as %v", v)
					case 2:
						v := m.GetConvergenceRate()
						w.Check(!math.IsNaN(v) && !math.IsInf(v, 0), "rate", "convergence rate reported as %v", v)
					case 3:
						_ = m.ShouldSwitchStrategy()
					case 4:
						_ = m.IsConverging()
					case 5:
						if m.IsStuck() {
							w.Check(recs > 0 || true, "stuck", "")
						}
					case 6:
						m.SetTarget(target)
					default:
						if w.Rng.Bool(0.3) {
							m.Reset()
						}
					}
				}
			})
		}
		w.Wait()
		m.Reset()
	}
	// a client at rest can predict the verdicts exactly
	w.Check(m.GetProgress() == 0 && !m.IsStuck() && !m.IsConverging() && !m.ShouldSwitchStrategy(), "reset", "after a reset the monitor still reports progress %v, stuck %v, converging %v", m.GetProgress(), m.IsStuck(), m.IsConverging())
	n := w.Between(1, 6*win)
	var ds []float64
	flat, sure := true, true
	stuck, late := 0, false
	for i := 0; i < n; i++ {
		if !w.Keep() {
			continue
		}
		d := dist(i)
		w.Sleep(time.Duration(w.Between(1, 100)) * time.Millisecond)
		m.RecordSample(patternAt(d), 0.9)
		ds = append(ds, d)
		flat = flat && d == ds[0]
		p := m.GetProgress()
		w.Check(p >= 0 && p <= 1, "progress", "progress reported as %v", p)
		if ds[0] > 1e-6 {
			want := math.Max(0, math.Min(1, 1-d/ds[0]))
			w.Check(math.Abs(p-want) < 1e-6, "progress", "distance went from %v to %v in %d samples, progress reported as %v", ds[0], d, len(ds), p)
		}
		if len(ds) < 3 {
			w.Check(!m.IsConverging() && !m.IsStuck() && !m.ShouldSwitchStrategy(), "trend", "a verdict after %d samples", len(ds))
			continue
		}
		rec := ds[max(0, len(ds)-win):]
		tr := slopeAll(rec)
		if math.Abs(tr+0.001) > 1e-9 {
			w.Check(m.IsConverging() == (tr < -0.001), "trend", "the distances %v have trend %v, converging is reported as %v", rec, tr, m.IsConverging())
		}
		// stuck: no trend in more than five samples in a row
		sure = sure && math.Abs(math.Abs(tr)-0.001) > 1e-9
		if math.Abs(tr) < 0.001 {
			stuck++
		} else {
			stuck = 0
		}
		if sure {
			w.Check(m.IsStuck() == (stuck > 5), "stuck", "%d samples without a trend (now %v), stuck is reported as %v", stuck, rec, m.IsStuck())
		}
		// advice to switch: more than 70 % of the recent samples no nearer than the one before
		worse, clear, up, down := 0, true, 0, 0
		for k := len(ds) - len(rec); k < len(ds); k++ {
			delta := 0.0
			if k > 0 {
				delta = ds[k] - ds[k-1]
			}
			clear = clear && (delta == 0 || math.Abs(delta) > 1e-3)
			switch {
			case delta >= 0:
				worse++
				if delta > 0 {
					up++
				}
			default:
				down++
			}
		}
		if clear && math.Abs(float64(worse)-float64(len(rec))*0.7) > 1e-6 {
			want := float64(worse) > float64(len(rec))*0.7
			w.Check(m.ShouldSwitchStrategy() == want, "advice", "%d of the recent distances %v are no better than the one before, a change of strategy advised: %v", worse, rec, m.ShouldSwitchStrategy())
			if want {
				w.Probe("switch advised")
				late = true
			} else if late {
				w.Probe("no longer advised")
			}
			r := m.GetConvergenceRate()
			w.Check(up > 0 || down == 0 || r < 0, "rate", "the distances %v only shrank, the rate is given as %v", rec, r)
			w.Check(down > 0 || up == 0 || r > 0, "rate", "the distances %v only grew, the rate is given as %v", rec, r)
			w.Check(up > 0 || down > 0 || math.Abs(r) < 1e-6, "rate", "the distances %v did not change, the rate is given as %v", rec, r)
		}
		if flat {
			w.Probe("no progress")
		}
	}
}

func slopeAll(s []float64) float64 {
	mx := float64(len(s)-1) / 2
	my := mean(s)
	num, den := 0.0, 0.0
	for i, y := range s {
		num += (float64(i) - mx) * (y - my)
		den += (float64(i) - mx) * (float64(i) - mx)
	}
	return num / den
}

// patternAt is a pattern at the given distance from the target: only the phase
// and, beyond what it can contribute, frequency and coherence differ.
func patternAt(d float64) *core.TargetPattern {
	p := &core.TargetPattern{Phase: 1, Frequency: 100 * time.Millisecond, Coherence: 0.9}
	ph := math.Min(d, 0.4)
	p.Phase += ph / 0.4 * math.Pi * 0.999999999
	f := math.Min(d-ph, 0.3)
	p.Frequency += time.Duration(f / 0.3 * float64(100*time.Millisecond))
	c := d - ph - f
	p.Coherence -= c / 0.3
	return p
}
