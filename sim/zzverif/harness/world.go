package main

import (
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/carlisia/bio-adapt/zzverif/rt"
	zsync "github.com/carlisia/bio-adapt/zzverif/sync"
)

// Scenario is one family of simulated executions deciding a property.
type Scenario struct {
	Prop     string
	Name     string
	Run      func(w *W)
	Fine     float64 // share of runs where memory accesses are scheduling points
	Race     bool    // happens-before race detection in fine runs
	MaxSteps int64
	MaxTime  time.Duration
	StallMax time.Duration // longest injected stall / freeze
	Freeze   bool          // whole-process freezes (clock leaps)
	StepNs   []int64       // simulated cost of one step
	RandEdge bool          // entropy edge faults
	Quick    int           // runs in the quick tier
	Thorough int           // runs in the thorough tier
	RaceOnly bool          // only data races count
	NoStarve bool          // only strategies that let every runnable task run soon
	CapOK    bool          // reaching the step cap is not a violation
	Real     string        // components that run real code
	Stub     string        // components that are stubs
}

var scenarios []*Scenario

func register(s *Scenario) { scenarios = append(scenarios, s) }

// W is what a scenario sees of one run.
type W struct {
	slow  bool // some goroutines of this run are slow
	sc    *Scenario
	Seed  uint64
	Rng   rt.RNG
	skip  map[int]bool
	nops  int
	kept  int
	seq   int64
	evals int64
	probe map[string]int64
	desc  []string
	wg    zsync.WaitGroup
}

// Keep reports whether the next generated operation is executed; the
// minimiser drops operations by index.
func (w *W) Keep() bool {
	i := w.nops
	w.nops++
	if w.skip[i] {
		return false
	}
	w.kept++
	return true
}

// Note adds to the description of the run.
func (w *W) Note(format string, a ...any) {
	if len(w.desc) < 200 {
		w.desc = append(w.desc, fmt.Sprintf(format, a...))
	}
}

// Go starts a client task; Wait waits for all of them.
func (w *W) Go(name string, f func()) {
	w.wg.Add(1)
	rt.HarnessGo(name, func() {
		defer w.wg.Done()
		f()
	})
}

// Wait joins all client tasks.
func (w *W) Wait() { w.wg.Wait() }

// Fail reports a violation and ends the run.
func (w *W) Fail(kind, format string, a ...any) {
	if w.sc.RaceOnly {
		w.Probe("run ended by another oracle")
		rt.EndQuietly()
	}
	rt.FailProp(w.sc.Prop, kind, fmt.Sprintf(format, a...))
}

// Check is one oracle evaluation.
func (w *W) Check(ok bool, kind, format string, a ...any) {
	w.evals++
	if !ok {
		w.Fail(kind, format, a...)
	}
}

// Probe counts that an interesting condition was reached.
func (w *W) Probe(name string) { w.probe[name]++ }

// Seq is a global event number.
func (w *W) Seq() int64 { w.seq++; return w.seq }

// Now is the simulated time.
func (w *W) Now() time.Duration { return time.Duration(rt.Now()) }

// Sleep lets simulated time pass.
func (w *W) Sleep(d time.Duration) { rt.Sleep(int64(d)) }

// Freeze stops the whole process, clocks going on, for d.
func (w *W) Freeze(d time.Duration) { rt.Freeze(int64(d)) }

// StopFaults ends fault injection.
func (w *W) StopFaults() { rt.StopFaults() }

// Pick chooses an element.
func pick[T any](w *W, xs ...T) T { return xs[w.Rng.Intn(len(xs))] }

// Between is uniform in [a,b].
func (w *W) Between(a, b int) int { return a + w.Rng.Intn(b-a+1) }

// Unif is uniform in [a,b).
func (w *W) Unif(a, b float64) float64 { return a + (b-a)*w.Rng.Float() }

// Live lists the goroutines of the system under test that still exist.
func (w *W) Live() []string {
	var out []string
	for _, t := range rt.LiveTasks() {
		out = append(out, fmt.Sprintf("%s (%s)", t.Name, t.Blocked()))
	}
	return out
}

// Settle waits until no goroutine of the system is left or d has passed.
func (w *W) Settle(d time.Duration) []string {
	end := w.Now() + d
	step := d / 50
	if step <= 0 {
		step = time.Millisecond
	}
	for {
		l := w.Live()
		if len(l) == 0 || w.Now() >= end {
			return l
		}
		w.Sleep(step)
	}
}

// configFor derives a run's configuration from its seed.
func configFor(sc *Scenario, seed uint64) rt.Config {
	r := rt.NewRNG(rt.Mix(seed, 77))
	c := rt.Config{Seed: seed, MaxSteps: sc.MaxSteps, MaxTime: int64(sc.MaxTime)}
	c.Fine = r.Bool(sc.Fine)
	c.Race = sc.Race && c.Fine
	switch k := r.Intn(10); {
	case k < 6 || k < 9 && sc.NoStarve:
		c.Strategy = "walk"
		c.MeanGap = []int64{1, 1, 2, 3, 5, 8, 16, 40, 120, 600}[r.Intn(10)]
		if k == 5 && !sc.NoStarve {
			c.SlowBy = []int{4, 10, 30}[r.Intn(3)]
			c.MeanGap = []int64{1, 2, 5}[r.Intn(3)]
		}
	case k < 9:
		c.Strategy = "pct"
		c.PCTDepth = 1 + r.Intn(6)
		c.PCTLen = []int64{100, 300, 1000, 5000, 30000}[r.Intn(5)]
	default:
		c.Strategy = "fair"
	}
	sn := sc.StepNs
	if len(sn) == 0 {
		sn = []int64{10, 100, 1000}
	}
	c.StepNs = sn[r.Intn(len(sn))]
	c.StallMax = int64(sc.StallMax)
	if sc.StallMax > 0 && r.Intn(3) > 0 {
		c.StallProb = []float64{0.002, 0.01, 0.05}[r.Intn(3)]
		c.MaxStalls = 1 + r.Intn(6)
	}
	if sc.Freeze && r.Intn(3) == 0 {
		c.FreezeProb = []float64{0.002, 0.01}[r.Intn(2)]
		c.MaxFreezes = 1 + r.Intn(3)
		if c.StallMax == 0 {
			c.StallMax = int64(time.Second)
		}
	}
	c.PoolMiss = []float64{0, 0.2, 0.6}[r.Intn(3)]
	if sc.RandEdge && r.Intn(2) == 0 {
		c.RandEdge = []float64{0.02, 0.2}[r.Intn(2)]
	}
	c.CPUs = []int{1, 2, 4, 8}[r.Intn(4)]
	return c
}

// RunOut is the outcome of one simulated run.
type RunOut struct {
	rt.Result
	Evals int64
	Probe map[string]int64
	Desc  []string
	Ops   int
}

// execRun performs one run.
func execRun(sc *Scenario, cfg rt.Config, skip map[int]bool) RunOut {
	w := &W{sc: sc, Seed: cfg.Seed, Rng: rt.NewRNG(rt.Mix(cfg.Seed, 99)), skip: skip, slow: cfg.SlowBy > 0, probe: map[string]int64{}}
	gcs := gcRuns(cfg.Race)
	res := rt.Run(cfg, func() { sc.Run(w) })
	if res.Failure != nil && strings.HasPrefix(res.Failure.Kind, "race:") && gcRuns(cfg.Race) != gcs {
		res.Failure = nil // memory was recycled during the run: addresses prove nothing
	}
	if sc.RaceOnly && res.Failure != nil && !strings.HasPrefix(res.Failure.Kind, "race:") {
		res.Failure = nil
	}
	if res.Failure != nil && res.Failure.Prop == "" {
		res.Failure.Prop = sc.Prop
	}
	if res.Capped && !sc.CapOK && res.Failure == nil {
		res.Failure = &rt.Failure{Prop: sc.Prop, Kind: "no-progress", Step: res.Steps, Time: res.Time,
			Msg: fmt.Sprintf("no progress: the run did not finish within %d steps / %v of simulated time", cfg.MaxSteps, time.Duration(cfg.MaxTime))}
	}
	return RunOut{Result: res, Evals: w.evals, Probe: w.probe, Desc: w.desc, Ops: w.nops}
}

// gcRuns counts garbage collections: the race detector goes by address.
func gcRuns(race bool) uint32 {
	if !race {
		return 0
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.NumGC
}
