package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"slices"
	"sort"
	"time"

	cemerge "github.com/carlisia/bio-adapt/client/emerge"
	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/emerge/trait"
	"github.com/carlisia/bio-adapt/internal/config"
	"github.com/carlisia/bio-adapt/internal/topology"
	zctx "github.com/carlisia/bio-adapt/zzverif/context"
	"github.com/carlisia/bio-adapt/zzverif/rt"
)

const swarmReal = "emerge/swarm, emerge/agent, emerge/convergence, emerge/completion, emerge/monitoring, emerge/core, emerge/strategy, internal/config, internal/emerge, internal/random, internal/topology, client/emerge"

func init() {
	sn := []int64{10, 100, 1000}
	register(&Scenario{Prop: "P06", Name: "run-outcome", Run: runOutcome, Fine: 0.05, MaxSteps: 200000000, MaxTime: 2 * time.Hour,
		StallMax: 300 * time.Millisecond, Freeze: true, StepNs: sn, RandEdge: true, Quick: 20000, Thorough: 400000, Real: swarmReal, Stub: agentStub})
	register(&Scenario{Prop: "P07", Name: "cancellation", Run: cancellation, Fine: 0.05, MaxSteps: 200000000, MaxTime: 2 * time.Hour,
		StallMax: 300 * time.Millisecond, Freeze: true, StepNs: sn, RandEdge: true, Quick: 60000, Thorough: 600000, Real: swarmReal, Stub: agentStub})
	register(&Scenario{Prop: "P10", Name: "status", Run: swarmStatus, Fine: 0.05, MaxSteps: 200000000, MaxTime: 2 * time.Hour,
		StallMax: 300 * time.Millisecond, Freeze: true, StepNs: sn, RandEdge: true, Quick: 12000, Thorough: 300000, Real: swarmReal, Stub: agentStub})
	register(&Scenario{Prop: "P12", Name: "views", Run: swarmViews, Fine: 0.05, MaxSteps: 200000000, MaxTime: time.Hour,
		StallMax: 50 * time.Millisecond, StepNs: sn, RandEdge: true, Quick: 12000, Thorough: 300000, Real: swarmReal, Stub: agentStub})
	register(&Scenario{Prop: "P13", Name: "disruption", Run: disruption, Fine: 0.05, MaxSteps: 200000000, MaxTime: time.Hour,
		StallMax: 50 * time.Millisecond, StepNs: sn, RandEdge: true, Quick: 15000, Thorough: 400000, Real: swarmReal, Stub: agentStub})
	register(&Scenario{Prop: "P14", Name: "network", Run: network, Fine: 0.02, MaxSteps: 200000000, MaxTime: time.Hour,
		StepNs: sn, RandEdge: true, Quick: 15000, Thorough: 400000, Real: swarmReal, Stub: agentStub})
}

// sw is a swarm under test with what its caller knows about it.
type sw struct {
	w      *W
	s      *swarm.Swarm
	cl     *cemerge.Client
	n      int
	asked  float64 // coherence asked for
	tgt    float64 // coherence it must reach: the requested one, lowered to what is practical
	phase  float64
	freq   time.Duration
	cfg    *swarm.Config
	iters  int
	every  time.Duration
	dirty  int // disturbances so far
	busy   int // disturbers at work
	born   time.Duration
	sortID []string
}

// practical is the documented limit on coherence for a number of agents.
func practical(n int) float64 {
	switch {
	case n == 1:
		return 1
	case n < 5:
		return 0.85
	case n < 10:
		return 0.92
	case n < 20:
		return 0.95
	case n < 50:
		return 0.97
	case n < 100:
		return 0.98
	}
	return 0.99
}

func timeFactor(n int, tgt float64) float64 {
	switch u := tgt / practical(n); {
	case u < 0.8:
		return 1
	case u < 0.9:
		return 2
	case u < 0.95:
		return 4
	}
	return 8
}

var goalTypes = []goal.Type{goal.MinimizeAPICalls, goal.DistributeLoad, goal.ReachConsensus, goal.MinimizeLatency, goal.SaveEnergy, goal.MaintainRhythm, goal.RecoverFromFailure, goal.AdaptToTraffic, goal.Type(99)}

// anySize draws a swarm size; the last share are beyond 100 agents.
func (w *W) anySize(max int, big float64) int {
	switch {
	case w.Rng.Bool(big):
		if w.Rng.Bool(0.05) {
			return w.huge()
		}
		return pick(w, 49, 50, 99, 100, 101, 101, 102, 110, 128)
	case w.Rng.Bool(0.15) && max > 20:
		return w.Between(20, max)
	case w.Rng.Bool(0.3):
		return w.Between(9, 20)
	default:
		return w.Between(1, 9)
	}
}

// huge: sizes of a large deployment, where configurations change again.
func (w *W) huge() int {
	if rt.Cfg().Fine {
		return pick(w, 101, 103, 130) // every memory access is a step: large enough
	}
	w.Probe("huge")
	return pick(w, 200, 201, 256, 300, 999, 1000, 1001, 1100)
}

// goalConfig is the configuration of a goal, now and then tuned.
func (w *W) goalConfig(gt goal.Type, n int) *swarm.Config {
	c := swarm.For(gt)
	if w.Rng.Bool(0.3) {
		for i, k := 0, pick(w, 1, 1, 2); i < k; i++ {
			t := trait.Target(w.Rng.Intn(6))
			c = c.TuneFor(t)
			w.Note("tuned for %v", t)
		}
	}
	if w.Rng.Bool(0.15) {
		c = c.WithSize(n)
		w.Note("sized for %d", n)
	}
	return c
}

func (w *W) newSwarm(n int, shortBudget bool) *sw {
	x := &sw{w: w, n: n, born: w.Now()}
	g := core.State{
		Phase:     pick(w, 0, 1, math.Pi, 5.9, w.Unif(0, twoPi), w.Unif(-30, 60)),
		Frequency: pick(w, 100*time.Millisecond, 100*time.Millisecond, 50*time.Millisecond, time.Second),
		Coherence: pick(w, 0.5, 0.6, 0.7, 0.8, 0.85, 0.9, 0.95, 0.99, 1, w.Unif(0, 1)),
	}
	x.phase, x.freq, x.asked, x.tgt = g.Phase, g.Frequency, g.Coherence, math.Min(g.Coherence, practical(n))
	gt := goalTypes[w.Rng.Intn(len(goalTypes))]
	x.cfg = w.goalConfig(gt, n)
	if shortBudget {
		x.cfg.Strategy.MaxIterationsFactor = float64(w.Between(1, 60))
		if n > 30 {
			x.cfg.Strategy.MaxIterationsFactor = float64(w.Between(1, 6))
		}
		if w.Rng.Bool(0.5) {
			x.cfg.Strategy.UpdateInterval = time.Duration(w.Between(1, 50)) * time.Millisecond
		}
	}
	x.every = x.cfg.Strategy.UpdateInterval
	x.iters = int(math.Min(1000, x.cfg.Strategy.MaxIterationsFactor*timeFactor(n, x.tgt)))
	var err error
	how := w.Rng.Intn(8)
	switch {
	case how == 0 && n > 1 && n < 13: // the alternative constructor, default goal configuration
		x.cfg = swarm.For(goal.Type(99))
		x.every = x.cfg.Strategy.UpdateInterval
		x.iters = int(math.Min(1000, x.cfg.Strategy.MaxIterationsFactor*timeFactor(n, x.tgt)))
		x.s, err = swarm.NewSwarmFromConfig(n, g, config.AutoScaleConfig(n))
	default:
		opts := []swarm.Option{swarm.WithGoalConfig(x.cfg)}
		if w.Rng.Bool(0.2) && n > 1 {
			opts = append(opts, swarm.WithTopology(pick(w, topology.FullyConnected, topology.Ring, topology.Star)))
		}
		x.s, err = swarm.New(n, g, opts...)
	}
	if err != nil {
		w.Fail("create", "a swarm of %d agents with goal %+v cannot be created: %v", n, g, err)
	}
	w.Note("n=%d goal=%+v type=%v how=%d budget=%d every %v", n, g, gt, how, x.iters, x.every)
	x.sortID = sortedKeys(x.s.Agents())
	return x
}

// agents lists the agents in a fixed order.
func (x *sw) agents() []*agent.Agent {
	m := x.s.Agents()
	out := make([]*agent.Agent, 0, len(m))
	for _, id := range x.sortID {
		if a := m[id]; a != nil {
			out = append(out, a)
		}
	}
	return out
}

func (x *sw) phases() []float64 {
	var out []float64
	for _, a := range x.agents() {
		out = append(out, a.Phase())
	}
	return out
}

func coherenceOf(ph []float64) float64 {
	if len(ph) == 0 {
		return 0
	}
	c, s := 0.0, 0.0
	for _, p := range ph {
		c += math.Cos(p)
		s += math.Sin(p)
	}
	return math.Hypot(c, s) / float64(len(ph))
}

// angle is the distance between two angles.
func angle(a, b float64) float64 {
	d := math.Mod(math.Abs(a-b), twoPi)
	if d > math.Pi {
		d = twoPi - d
	}
	return d
}

// slack is how far the state of the swarm is inside (positive) or outside the
// success criterion of its configuration.
func (x *sw) slack() (float64, string) {
	ph := x.phases()
	coh := coherenceOf(ph)
	c, s, off := 0.0, 0.0, 0.0
	var fr time.Duration
	for _, a := range x.agents() {
		fr += a.Frequency()
	}
	for _, p := range ph {
		c += math.Cos(p)
		s += math.Sin(p)
		off += angle(p, x.phase)
	}
	fr /= time.Duration(len(ph))
	tol := x.cfg.Convergence.ToleranceLarge
	if x.n < 10 {
		tol = x.cfg.Convergence.ToleranceSmall
	} else if x.n < 50 {
		tol = x.cfg.Convergence.ToleranceMedium
	}
	if x.tgt >= practical(x.n)*0.95 {
		tol *= 2
	}
	d := 0.4*angle(math.Atan2(s, c), x.phase)/math.Pi + 0.3*math.Min(1, math.Abs(float64(fr-x.freq))/float64(x.freq)) + 0.3*math.Abs(x.tgt-coh)
	m := math.Min(coh-(x.tgt-tol), x.cfg.Convergence.PatternDistanceThreshold-d)
	pc := 1 - off/float64(len(ph))/math.Pi
	if x.tgt >= x.cfg.Thresholds.HighCoherence {
		m = math.Min(m, pc-x.cfg.Convergence.PhaseConvergenceGoal)
	}
	return m, fmt.Sprintf("coherence %.6f (goal %.4f, tolerance %.4f), pattern distance %.6f (limit %.4f), phase convergence %.4f", coh, x.tgt, tol, d, x.cfg.Convergence.PatternDistanceThreshold, pc)
}

// scatter or align the agents before a run.
func (x *sw) arrange() {
	w := x.w
	switch w.Rng.Intn(8) {
	case 6, 7: // next to what the goal's tolerance allows
		tol := pick(w, x.cfg.Convergence.ToleranceSmall, x.cfg.Convergence.ToleranceMedium, x.cfg.Convergence.ToleranceLarge)
		if x.n > 1 {
			x.spread(x.phase, math.Max(0.02, math.Min(0.9999, x.tgt-tol*w.Unif(-1, 4))), true)
		}
		for _, a := range x.agents() {
			a.SetFrequency(x.freq)
		}
	case 0: // already there
		for _, a := range x.agents() {
			a.SetPhase(x.phase)
			a.SetFrequency(x.freq)
		}
	case 1: // two opposed camps
		for i, a := range x.agents() {
			a.SetPhase(x.phase + 1 + float64(i%2)*math.Pi)
		}
	case 2: // aligned, but somewhere else
		for _, a := range x.agents() {
			a.SetPhase(x.phase + 2.5)
		}
	case 3: // evenly spread
		for i, a := range x.agents() {
			a.SetPhase(float64(i) * twoPi / float64(x.n))
		}
	}
}

// disturber returns a client that disturbs the swarm k times.
func (x *sw) disturber(span time.Duration, k int) func() {
	w := x.w
	type hit struct {
		at  time.Duration
		how int
		v   float64
	}
	var hits []hit
	for i := 0; i < k; i++ {
		if w.Keep() {
			hits = append(hits, hit{time.Duration(w.Rng.Float() * float64(span)), w.Rng.Intn(4), w.Unif(0, 1)})
		}
	}
	sort.Slice(hits, func(i, j int) bool { return hits[i].at < hits[j].at })
	w.Note("disturbances %v", hits)
	x.busy++
	return func() {
		defer func() { x.busy-- }()
		t0 := w.Now()
		for _, h := range hits {
			if d := t0 + h.at - w.Now(); d > 0 {
				w.Sleep(d)
			}
			x.dirty++ // odd while a disturbance is under way
			switch h.how {
			case 0, 1:
				x.s.DisruptAgents(h.v)
			case 2:
				as := x.agents()
				as[int(h.v*float64(len(as)))%len(as)].SetPhase(h.v * twoPi)
			default:
				as := x.agents()
				as[int(h.v*float64(len(as)))%len(as)].SetFrequency(time.Duration(1 + h.v*float64(time.Second)))
			}
			x.dirty++
		}
	}
}

// reader returns a client that looks at the swarm all the time; whatever it
// sees must be in range.
func (x *sw) reader(span time.Duration, k int, stop *bool) func() {
	w := x.w
	gap := span / time.Duration(k+1)
	return func() {
		for i := 0; i < k && !*stop; i++ {
			w.Sleep(gap)
			x.look()
		}
	}
}

func (x *sw) look() {
	w := x.w
	c := x.s.MeasureCoherence()
	w.Check(c >= 0 && c <= 1+1e-9, "range", "coherence measured as %v", c)
	c = x.s.CurrentCoherence()
	w.Check(c >= 0 && c <= 1+1e-9, "range", "current coherence reported as %v", c)
	d := x.s.ConvergenceTime()
	w.Check(d >= 0 && d <= w.Now()-x.born, "range", "time to convergence reported as %v after %v", d, w.Now()-x.born)
	v := x.s.MeasurePhaseVariance()
	w.Check(v >= 0 && v <= math.Pi*math.Pi+1e-6, "range", "phase variance measured as %v", v)
	p := x.s.MeasurePhaseConvergence(x.phase)
	w.Check(p >= 0 && p <= 1+1e-9, "range", "phase convergence measured as %v", p)
	_ = x.s.IsConverged()
	w.Check(x.s.Size() == x.n && len(x.s.Agents()) == x.n, "range", "a swarm of %d agents has size %d and %d agents", x.n, x.s.Size(), len(x.s.Agents()))
	a, ok := x.s.Agent(x.sortID[w.Rng.Intn(len(x.sortID))])
	w.Check(ok && a != nil, "range", "an agent cannot be found")
	w.wellFormed(a)
}

// watcher looks at the agents while the loop waits for its next update: agents
// that meet the goal then must not be moved any more.
func (x *sw) watcher(run *rt.Task, running *bool) func() {
	w := x.w
	return func() {
		var met []float64
		desc := ""
		for *running {
			if run.Waiting("select") {
				ph := x.phases()
				sl, d := x.slack()
				if ph2 := x.phases(); *running && run.Waiting("select") && slices.Equal(ph, ph2) {
					if met != nil {
						w.Check(slices.Equal(met, ph), "missed-success", "the agents met the goal between two updates and the run went on to move them: %s", desc)
					}
					if met == nil && sl > 1e-6 && coherenceOf(ph) > 1e-6 {
						met, desc = ph, d
						w.Probe("met between updates")
					}
				}
			}
			w.Sleep(x.every * time.Duration(w.Between(20, 70)) / 100)
		}
		if met != nil {
			w.Check(slices.Equal(met, x.phases()), "missed-success", "the agents met the goal between two updates and the run went on to move them: %s", desc)
		}
	}
}

func isCtxErr(err error) bool {
	return errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded)
}

// ---------------------------------------------------------------- P06

func runOutcome(w *W) {
	x := w.newSwarm(w.anySize(40, 0.03), true)
	rounds := w.Between(1, 3)
	budget := time.Duration(x.iters) * x.every
	if x.n > 40 {
		rounds = 1
	}
	for r := 0; r < rounds; r++ {
		if w.Rng.Bool(0.7) {
			x.arrange()
		}
		if w.Rng.Bool(0.2) {
			w.Sleep(time.Duration(w.Between(0, 2000)) * time.Millisecond)
		}
		clean := w.Rng.Bool(0.6)
		stop := false
		x.dirty = 0
		var ctx context.Context = context.Background()
		var cancel context.CancelFunc = func() {}
		switch w.Rng.Intn(5) {
		case 0:
			ctx, cancel = zctx.WithTimeout(ctx, time.Duration(w.Rng.Float()*1.5*float64(budget)))
		case 1:
			ctx, cancel = zctx.WithCancel(ctx)
			at := time.Duration(w.Rng.Float() * 1.5 * float64(budget))
			c := cancel
			w.Go("canceller", func() { w.Sleep(at); c() })
		}
		slack0, desc0 := x.slack()
		ph0 := x.phases()
		if !clean {
			if w.Rng.Bool(0.7) {
				w.Go("disturber", x.disturber(budget, w.Between(1, 4)))
			}
			w.Go("reader", x.reader(budget, w.Between(1, 10), &stop))
		}
		calm := r == rounds-1 && x.n <= 40 && w.Rng.Bool(0.5)
		if calm {
			w.StopFaults()
		}
		running := true
		if clean && w.Rng.Bool(0.5) {
			w.Go("watcher", x.watcher(rt.Current(), &running))
		}
		t0 := w.Now()
		err := x.s.Run(ctx)
		running = false
		el := w.Now() - t0
		ctxErr := ctx.Err()
		w.Note("round %d: %v after %v", r, err, el)
		sl, desc := x.slack()
		ph1 := x.phases()
		if x.dirty == 0 { // nobody else has touched the agents, up to these readings
			if err == nil && coherenceOf(ph1) > 1e-6 { // below, the mean phase is noise
				w.Check(sl > -1e-9, "false-success", "the run reported success although the goal is not met: %s", desc)
				w.Probe("success")
			}
			// A swarm that meets its goal is recognised at the first look
			if slack0 > 1e-6 && coherenceOf(ph0) > 1e-6 && ctxErr == nil {
				w.Check(err == nil, "missed-success", "the run reported %q although the goal was met when it started: %s", err, desc0)
				w.Check(el <= 3*x.every+4*time.Second, "missed-success", "the run took %v to notice that the goal was met from the start: %s", el, desc0)
				same := true
				for i, p := range ph1 {
					same = same && p == ph0[i]
				}
				w.Check(same, "missed-success", "the run changed agents although the goal was met from the start: %s", desc0)
				w.Probe("already synchronized")
			}
		}
		switch {
		case err == nil:
		case isCtxErr(err):
			w.Check(ctxErr != nil, "false-cancel", "the run reported %v but its context is not done", err)
			w.Check(errors.Is(err, ctxErr), "false-cancel", "the run reported %v but its context says %v", err, ctxErr)
			w.Probe("cancelled")
		default:
			w.Check(el >= budget-time.Millisecond, "gave-up-early", "the run gave up after %v although its budget is %d iterations of %v: %v", el, x.iters, x.every, err)
			w.Probe("gave up")
		}
		if calm && x.every >= 20*time.Millisecond {
			w.Check(el <= budget+x.every/2, "over-budget", "the undisturbed run took %v, its budget is %d iterations of %v", el, x.iters, x.every)
			w.Probe("calm run")
		}
		w.Check(el <= budget+budget/10+10*time.Second, "over-budget", "the run took %v, its budget is %d iterations of %v", el, x.iters, x.every)
		stop = true
		cancel()
		w.Wait()
		for _, a := range x.agents() {
			w.wellFormed(a)
		}
	}
}

// ---------------------------------------------------------------- P07

func cancellation(w *W) {
	x := w.newSwarm(w.anySize(30, 0.03), w.Rng.Bool(0.7))
	x.arrange()
	base := len(w.Live())
	kind := w.Rng.Intn(3)
	every := x.every
	if kind == 2 && every < swarm.DefaultCheckInterval {
		every = swarm.DefaultCheckInterval
	}
	at := pick(w, 0, time.Duration(w.Between(0, 50))*time.Millisecond, time.Duration(w.Rng.Float()*float64(x.every)*20), time.Duration(w.Rng.Float()*float64(x.every)*200))
	var ctx context.Context
	var cancel context.CancelFunc
	deadline := w.Rng.Bool(0.4)
	pre := w.Rng.Bool(0.1)
	parent, pcancel := zctx.WithCancel(context.Background())
	defer pcancel()
	if deadline {
		ctx, cancel = zctx.WithTimeout(parent, at)
	} else {
		ctx, cancel = zctx.WithCancel(parent)
	}
	stopBy := cancel
	if w.Rng.Bool(0.3) {
		stopBy = pcancel // a parent of the context the run was given
	}
	if pre {
		stopBy()
	}
	w.Note("kind %d deadline %v pre %v at %v", kind, deadline, pre, at)
	var err error
	done := false
	var doneAt time.Duration
	if kind == 2 && w.Rng.Bool(0.5) {
		w.Go("disturber", x.disturber(at, 3))
	}
	w.Go("run", func() {
		switch kind {
		case 0, 1:
			err = x.s.Run(ctx)
		default:
			err = x.s.RunContinuous(ctx)
		}
		doneAt = w.Now()
		done = true
	})
	w.Sleep(at)
	if kind == 2 && !pre {
		w.Check(!done || ctx.Err() != nil, "early", "continuous operation ended with %v before it was cancelled", err)
	}
	stopBy()
	cancelled := w.Now()
	w.StopFaults()
	// each look at the cancelled context may lose to a due tick with probability
	// one half, so the bound is many ticks
	limit := cancelled + 60*every + 2*time.Second
	for !done && w.Now() < limit {
		w.Sleep(every)
	}
	w.Check(done, "not-stopped", "still running %v after the context was cancelled (update interval %v)", w.Now()-cancelled, x.every)
	if done && doneAt > cancelled {
		w.Probe("stopped by cancellation")
	}
	w.Wait()
	switch {
	case err == nil:
		w.Check(kind != 2, "early", "continuous operation returned no error")
	case kind == 2:
		w.Check(ctx.Err() != nil && errors.Is(err, ctx.Err()), "error", "continuous operation ended with %v, its context says %v", err, ctx.Err())
	case isCtxErr(err):
		w.Check(ctx.Err() != nil && errors.Is(err, ctx.Err()), "error", "the run ended with %v, its context says %v", err, ctx.Err())
	}
	for i := 0; i < 80 && len(w.Live()) > base; i++ {
		w.Sleep(every)
	}
	left := w.Live()
	w.Check(len(left) <= base, "leak", "goroutines left %v after the cancelled run returned: %v", 80*every, left)
	before := x.phases()
	w.Sleep(10 * x.every)
	w.Sleep(5 * time.Second)
	for i, p := range x.phases() {
		w.Check(p == before[i], "late-change", "agent %s changed from %v to %v after the run had ended", x.sortID[i], before[i], p)
	}
}

// ---------------------------------------------------------------- P10

func swarmStatus(w *W) {
	if w.Rng.Bool(0.1) {
		clientStatus(w)
		return
	}
	x := w.newSwarm(w.anySize(30, 0.03), true)
	w.Check(!x.s.IsConverged() && x.s.ConvergenceTime() == 0, "status", "a new swarm says it has converged")
	rounds := w.Between(1, 4)
	for r := 0; r < rounds; r++ {
		if r == 0 || w.Rng.Bool(0.6) {
			x.arrange()
		}
		if w.Rng.Bool(0.5) {
			w.Sleep(time.Duration(w.Between(1, 2000)) * time.Millisecond)
		}
		x.dirty = 0
		ph0 := x.phases()
		held := x.s.IsConverged() && x.s.CurrentCoherence() >= x.asked && coherenceOf(ph0) >= x.asked+1e-9
		ct0 := x.s.ConvergenceTime()
		stop := false
		budget := time.Duration(x.iters) * x.every
		if w.Rng.Bool(0.3) {
			w.Go("reader", x.reader(budget, w.Between(1, 10), &stop))
		}
		if w.Rng.Bool(0.3) {
			w.Go("disturber", x.disturber(budget, w.Between(1, 3)))
		}
		err := x.s.Run(context.Background())
		dirty := x.dirty
		conv, ct, cur := x.s.IsConverged(), x.s.ConvergenceTime(), x.s.CurrentCoherence()
		real := coherenceOf(x.phases())
		if x.dirty == dirty && dirty == 0 {
			if err == nil {
				w.Check(conv, "status", "the run succeeded but the swarm says it has not converged")
				w.Check(ct > 0, "status", "the run succeeded but the time to convergence is %v", ct)
				w.Check(math.Abs(cur-real) < 1e-9, "status", "the run ended with coherence %v but %v is reported as current", real, cur)
				w.Probe("success")
				if held && slices.Equal(ph0, x.phases()) {
					w.Check(ct == ct0, "status", "the swarm was and stayed converged, but the time it took changed from %v to %v", ct0, ct)
					w.Probe("stayed converged")
				}
			} else {
				w.Check(conv == (cur >= x.tgt), "status", "the run failed with last coherence %v of %v and the swarm says converged: %v", cur, x.tgt, conv)
				w.Probe("failure")
			}
			w.Check(conv == (ct > 0), "status", "converged %v but time to convergence %v", conv, ct)
		}
		w.Check(math.Abs(x.s.MeasureCoherence()-coherenceOf(x.phases())) < 1e-9 || x.dirty != dirty || dirty%2 == 1, "status", "coherence measured as %v, the agents' phases give %v", x.s.MeasureCoherence(), real)
		stop = true
		w.Wait()
		if w.Rng.Bool(0.5) {
			x.s.DisruptAgents(w.Unif(0, 1))
			w.Check(!x.s.IsConverged() && x.s.ConvergenceTime() == 0, "status", "the swarm still says it has converged after it was disrupted")
		}
	}
}

// clientStatus: the client's view of the swarm it wraps.
func clientStatus(w *W) {
	var c *cemerge.Client
	var err error
	sc := pick(w, scale.Tiny, scale.Tiny, scale.Tiny, scale.Small, scale.Size(77))
	if w.Rng.Bool(0.02) {
		sc = scale.Medium
	}
	gt := goalTypes[w.Rng.Intn(len(goalTypes))]
	at := pick(w, w.Unif(0.05, 0.99), w.Unif(0.05, 0.5))
	tgt := map[scale.Size]float64{scale.Tiny: 0.9, scale.Small: 0.85, scale.Medium: 0.75, scale.Size(77): 0.75}[sc]
	size := map[scale.Size]int{scale.Tiny: 20, scale.Small: 50, scale.Medium: 200, scale.Size(77): 50}[sc]
	switch w.Rng.Intn(6) {
	case 0:
		gt = goal.MinimizeAPICalls
		c, err = cemerge.MinimizeAPICalls(sc)
	case 1:
		gt = goal.DistributeLoad
		c, err = cemerge.DistributeLoad(sc)
	case 2:
		c, err = cemerge.New().WithGoal(gt).WithScale(sc).Build()
	case 3:
		c, err = cemerge.NewWithOptions(cemerge.WithCoherenceOption(at), cemerge.WithGoalOption(gt), cemerge.WithScaleOption(sc))
		tgt = at
	case 4:
		gt, size, tgt = goal.MinimizeAPICalls, 20, 0.9
		c, err = cemerge.Default()
	default:
		c, err = cemerge.Custom().WithTargetCoherence(at).WithScale(sc).WithGoal(gt).Build()
		tgt = at
	}
	w.Note("%d agents towards %v, goal %v", size, tgt, gt)
	w.Check(!c.IsConverged(), "status", "a new client says it has converged")
	w.Check(c.Size() == len(c.Agents()) && c.Size() == size && c.Swarm().Size() == size, "status", "a client of %d agents, %d by its scale, lists %d", c.Size(), size, len(c.Agents()))
	cfg := swarm.For(gt).WithSize(size)
	w.Check(*c.Config() == *cfg, "status", "the client's configuration %+v is not that of goal %v and %d agents: %+v", *c.Config(), gt, size, *cfg)
	look := func() {
		ph := []float64{}
		as := c.Agents()
		for _, id := range sortedKeys(as) {
			ph = append(ph, as[id].Phase())
		}
		w.Check(math.Abs(c.Coherence()-coherenceOf(ph)) < 1e-9, "status", "the client reports coherence %v, its agents' phases give %v", c.Coherence(), coherenceOf(ph))
	}
	look()
	apart := tgt < 0.35 && w.Rng.Bool(0.7)
	if apart { // a goal of low coherence makes agents that are together drift apart
		as := c.Agents()
		for _, id := range sortedKeys(as) {
			as[id].SetPhase(1)
		}
	}
	lowest, done := 1.0, false
	limit := time.Duration(w.Between(0, 60)) * time.Second
	if apart {
		limit = 10 * time.Minute
		w.Go("watcher", func() {
			for !done {
				lowest = math.Min(lowest, c.Coherence())
				w.Sleep(cfg.Strategy.UpdateInterval / 2)
			}
		})
	}
	ctx, cancel := zctx.WithTimeout(context.Background(), limit)
	defer cancel()
	err = c.Start(ctx)
	done = true
	if apart {
		w.Check(lowest <= dispersed, "target", "a client started with all agents together to reach a coherence of %v (%v); the lowest since was %v (%v)", tgt, gt, lowest, err)
		w.Probe("apart " + fmt.Sprint(math.Floor(lowest*10)))
	}
	if err == nil {
		w.Check(c.IsConverged(), "status", "Start succeeded but the client says it has not converged")
		w.Check(c.Coherence() >= math.Min(tgt, practical(size))-2*cfg.Convergence.ToleranceSmall-1e-9, "status", "Start succeeded with coherence %v, asked for %v", c.Coherence(), tgt)
		w.Probe("client success")
	}
	look()
	c.Stop()
	c.Swarm().DisruptAgents(0.5)
	look()
	w.Check(!c.IsConverged(), "status", "the client still says it has converged after a disruption")
}

// ---------------------------------------------------------------- P12

func swarmViews(w *W) {
	x := w.newSwarm(pick(w, w.anySize(40, 0.1), w.Between(1, 12)), true)
	ids := map[string]*agent.Agent{}
	all := x.s.Agents()
	for _, id := range sortedKeys(all) {
		a := all[id]
		w.Check(a != nil && a.ID == id, "views", "agent %q is listed under the name %q", a.ID, id)
		ids[id] = a
	}
	w.Check(len(ids) == x.n && x.s.Size() == x.n, "views", "a swarm of %d agents lists %d and has size %d", x.n, len(ids), x.s.Size())
	check := func(full bool) {
		w.Check(x.s.Size() == x.n, "views", "size is %d", x.s.Size())
		m := x.s.Agents()
		w.Check(len(m) == x.n, "views", "%d of %d agents are listed", len(m), x.n)
		for _, id := range sortedKeys(m) {
			a := m[id]
			w.Check(ids[id] == a, "views", "the name %q stands for different agents", id)
		}
		seen := map[string]int{}
		x.s.ForEachAgent(func(a *agent.Agent) bool {
			w.Check(ids[a.ID] == a, "views", "iteration visits something else under the name %s", a.ID)
			seen[a.ID]++
			return true
		})
		w.Check(len(seen) == x.n, "views", "iteration visits %d of %d agents", len(seen), x.n)
		for _, id := range sortedKeys(seen) {
			w.Check(seen[id] == 1, "views", "iteration visits agent %s %d times", id, seen[id])
		}
		for _, id := range sortedKeys(ids) {
			a := ids[id]
			if full || w.Rng.Bool(0.2) {
				b, ok := x.s.Agent(id)
				w.Check(ok && b == a, "views", "looking up %q does not give that agent", id)
			}
		}
		for _, id := range []string{"", "agent-", fmt.Sprintf("agent-%d", x.n), "agent--1", "nobody"} {
			_, ok := x.s.Agent(id)
			w.Check(!ok, "views", "an agent named %q is found", id)
		}
		stopAt := w.Between(1, x.n)
		k := 0
		x.s.ForEachAgent(func(*agent.Agent) bool { k++; return k < stopAt })
		w.Check(k == stopAt, "views", "iteration stopped after %d agents instead of %d", k, stopAt)
		delete(m, x.sortID[0]) // the caller's map is the caller's
		m["intruder"] = nil
	}
	check(true)
	ctx, cancel := zctx.WithCancel(context.Background())
	defer cancel()
	if w.Rng.Bool(0.5) {
		w.Go("run", func() { _ = x.s.Run(ctx) })
	}
	for t, nt := 0, w.Between(1, 3); t < nt; t++ {
		k := w.Between(1, 4)
		what := w.Rng.Intn(3)
		w.Go(fmt.Sprintf("client%d", t), func() {
			for i := 0; i < k; i++ {
				w.Sleep(time.Duration(w.Between(0, 100)) * time.Millisecond)
				switch what {
				case 0:
					check(false)
				case 1:
					x.s.DisruptAgents(w.Rng.Float())
				default:
					x.look()
				}
			}
		})
	}
	w.Sleep(time.Duration(w.Between(0, 500)) * time.Millisecond)
	cancel()
	w.Wait()
	check(true)
	for i := 0; i < 4; i++ {
		switch {
		case i == 1:
			x.arrange()
		case i == 2:
			for _, a := range x.agents() {
				a.SetPhase(w.Unif(0, twoPi))
			}
		case i == 3:
			at, wide := w.Unif(0, twoPi), w.Unif(0, 3)
			for _, a := range x.agents() {
				a.SetPhase(at + w.Unif(-wide, wide))
			}
		}
		x.measures(pick(w, x.phase, w.Unif(0, twoPi), 0, math.Pi, -1, 7, twoPi, w.Unif(-20, 20)))
	}
}

// measures compares what the swarm measures with the agents' phases.
func (x *sw) measures(at float64) {
	w := x.w
	ph := x.phases()
	w.Check(math.Abs(x.s.MeasureCoherence()-coherenceOf(ph)) < 1e-9, "views", "coherence measured as %v, the agents' phases give %v", x.s.MeasureCoherence(), coherenceOf(ph))
	off, re, im := 0.0, 0.0, 0.0
	for _, p := range ph {
		off += angle(p, at)
		re, im = re+math.Cos(p), im+math.Sin(p)
	}
	want := 1 - off/float64(x.n)/math.Pi
	got := x.s.MeasurePhaseConvergence(at)
	w.Check(math.Abs(want-got) < 1e-9, "views", "phase convergence towards %v measured as %v, the agents' phases give %v", at, got, want)
	if coherenceOf(ph) < 0.01 {
		return // no mean phase to speak of
	}
	mean := math.Atan2(im, re)
	want = 0
	for _, p := range ph {
		want += angle(p, mean) * angle(p, mean) / float64(x.n)
	}
	got = x.s.MeasurePhaseVariance()
	w.Check(math.Abs(want-got) < 1e-6, "views", "phase variance measured as %v, the agents' phases give %v", got, want)
}

// ---------------------------------------------------------------- P13

func disruption(w *W) {
	x := w.newSwarm(pick(w, w.anySize(60, 0.15), w.Between(1, 12)), true)
	edge := rt.Cfg().RandEdge > 0
	conc := w.Rng.Bool(0.4)
	for r, k := 0, w.Between(1, 4); r < k; r++ {
		if !w.Keep() {
			continue
		}
		p := pick(w, 0, 1, 0.5, 0.1, 0.29, 0.3, 0.999, 1e-9, -0.5, 1.5, 100, -math.MaxFloat64, math.MaxFloat64, w.Unif(0, 1), w.Unif(-0.2, 1.2), float64(w.Between(0, x.n))/float64(x.n))
		q := math.Min(1, math.Max(0, p))
		lo, hi := int(math.Floor(q*float64(x.n)-1e-9)), int(math.Floor(q*float64(x.n)+1e-9))
		if lo < 0 {
			lo = 0
		}
		type att struct {
			ph, en, in, lg, st float64
			fr                 time.Duration
			nb                 int
		}
		var before []att
		links := func(a *agent.Agent) int {
			if x.n > 30 {
				return 0
			}
			return a.NeighborCount()
		}
		for _, a := range x.agents() {
			a.SetPhase(w.Unif(0, twoPi))
			before = append(before, att{a.Phase(), a.Energy(), a.Influence(), a.LocalGoal(), a.Stubbornness(), a.Frequency(), links(a)})
		}
		w.Note("disrupt %v of %d", p, x.n)
		twice := 1
		if conc && w.Rng.Bool(0.5) {
			twice = 2
			w.Go("other", func() { x.s.DisruptAgents(p) })
		}
		x.s.DisruptAgents(p)
		w.Wait()
		changed := 0
		for i, a := range x.agents() {
			w.wellFormed(a)
			if a.Phase() != before[i].ph {
				changed++
			}
			w.Check(a.Energy() == before[i].en && a.Influence() == before[i].in && a.Frequency() == before[i].fr && a.LocalGoal() == before[i].lg && a.Stubbornness() == before[i].st && links(a) == before[i].nb, "side-effect", "a disruption changed more than the phase of agent %s", a.ID)
		}
		w.Check(changed <= hi*twice, "too-many", "disrupting %v of %d agents changed %d of them, expected %d", p, x.n, changed, hi)
		if !edge {
			w.Check(changed >= lo, "too-few", "disrupting %v of %d agents changed %d of them, expected %d", p, x.n, changed, lo)
			if twice == 2 {
				w.Probe("concurrent disruptions")
			}
		}
		w.Check(!x.s.IsConverged() && x.s.ConvergenceTime() == 0 && x.s.CurrentCoherence() == 0, "not-reset", "after a disruption the swarm still reports converged=%v, time %v, coherence %v", x.s.IsConverged(), x.s.ConvergenceTime(), x.s.CurrentCoherence())
		if w.Rng.Bool(0.4) {
			ctx, cancel := zctx.WithTimeout(context.Background(), time.Duration(w.Between(0, 20))*x.every)
			_ = x.s.Run(ctx)
			cancel()
		}
	}
}

// ---------------------------------------------------------------- P14

// spoil puts one figure of a configuration out of its range.
func spoil(w *W, c *swarm.Config) string {
	bad := pick(w, -0.001, 1.001, -1, 7)
	none := pick(w, 0, -time.Millisecond)
	switch w.Rng.Intn(11) {
	case 0:
		c.Convergence.BaseAdjustmentScale = bad
	case 1:
		c.Convergence.PhaseConvergenceGoal = bad
	case 2:
		c.Thresholds.ModerateCoherence = c.Thresholds.HighCoherence + 0.01
	case 3:
		c.Thresholds.HighCoherence = c.Thresholds.VeryHighCoherence + 0.01
	case 4:
		c.Variation.BaseRange[0] = -0.01
	case 5:
		c.Variation.BaseRange = [2]float64{0.4, 0.39}
	case 6:
		c.Variation.PerturbationChance = bad
	case 7:
		c.Strategy.UpdateInterval = none
	case 8:
		c.Strategy.ExplorationTimeWindow = none
	case 9:
		c.Resonance.AffectedAgents = bad
	default:
		c.Resonance.ActivationRate = bad
	}
	return fmt.Sprintf("with the configuration %+v", *c)
}

// limits puts figures of a configuration at the ends of their ranges.
func limits(w *W, c *swarm.Config) string {
	for _, p := range []*float64{&c.Convergence.BaseAdjustmentScale, &c.Convergence.PhaseConvergenceGoal, &c.Variation.PerturbationChance, &c.Resonance.AffectedAgents, &c.Resonance.ActivationRate} {
		if w.Rng.Bool(0.5) {
			*p = pick(w, 0, 1.0)
		}
	}
	if w.Rng.Bool(0.5) {
		c.Thresholds.ModerateCoherence, c.Thresholds.HighCoherence = c.Thresholds.VeryHighCoherence, c.Thresholds.VeryHighCoherence
	}
	if w.Rng.Bool(0.5) {
		c.Variation.BaseRange[1] = c.Variation.BaseRange[0]
	}
	return fmt.Sprintf("with the configuration %+v", *c)
}

// impossible: what cannot be built is refused.
func impossible(w *W) {
	g := core.State{Phase: 1, Frequency: 100 * time.Millisecond, Coherence: 0.7}
	n := w.Between(1, 8)
	if w.Rng.Bool(0.1) {
		n = w.Between(101, 110)
	}
	var opts []swarm.Option
	what := ""
	switch w.Rng.Intn(12) {
	case 8, 9:
		cfg := swarm.For(goalTypes[w.Rng.Intn(len(goalTypes))]).WithSize(n)
		what = spoil(w, cfg)
		w.Check(cfg.Validate() != nil, "accepted", "a configuration %s is called valid", what)
		opts = append(opts, swarm.WithGoalConfig(cfg))
	case 10: // a client
		at := pick(w, 0, -0.5, 1.0001, 2, math.NaN(), math.Inf(1), math.Inf(-1))
		c, err := cemerge.NewWithOptions(cemerge.WithGoalOption(goalTypes[w.Rng.Intn(len(goalTypes))]), cemerge.WithCoherenceOption(at))
		w.Check(err != nil && c == nil, "accepted", "a client with the option of coherence %v was created", at)
		return
	case 11: // the limits are possible
		cfg := swarm.For(goalTypes[w.Rng.Intn(len(goalTypes))]).WithSize(n)
		what = limits(w, cfg)
		w.Check(cfg.Validate() == nil, "refused", "a configuration %s is called invalid: %v", what, cfg.Validate())
		g.Coherence = pick(w, 0, 1.0)
		s, err := swarm.New(n, g, swarm.WithGoalConfig(cfg))
		w.Check(err == nil && s != nil, "refused", "a swarm with goal coherence %v %s was refused: %v", g.Coherence, what, err)
		c, err := cemerge.NewWithOptions(cemerge.WithCoherenceOption(1))
		w.Check(err == nil && c != nil, "refused", "a client with coherence 1 was refused: %v", err)
		return
	case 0:
		n, what = pick(w, 0, -1, -100), "without agents"
	case 1:
		g.Frequency, what = pick(w, 0, -time.Second), "with a goal of no frequency"
	case 2:
		g.Coherence, what = pick(w, -0.01, 1.01, math.NaN(), math.Inf(1)), "with an impossible goal coherence"
	case 3:
		g.Phase, what = pick(w, math.NaN(), math.Inf(1), math.Inf(-1)), "with an impossible goal phase"
	case 4:
		n, what = 1, "of one agent as a ring"
		opts = append(opts, swarm.WithTopology(topology.Ring))
	case 5:
		n, what = 1, "of one agent as a star"
		opts = append(opts, swarm.WithTopology(topology.Star))
	case 6:
		what = "with a topology that fails"
		opts = append(opts, swarm.WithTopology(func(*swarm.Swarm) error { return errors.New("no") }))
	default:
		n += 2
		what = "larger than its configuration allows"
		cfg := config.AutoScaleConfig(n)
		cfg.MaxSwarmSize = w.Between(1, n-1)
		opts = append(opts, swarm.WithConfig(cfg))
	}
	s, err := swarm.New(n, g, opts...)
	w.Check(err != nil && s == nil, "accepted", "a swarm %s (size %d, goal %+v) was created", what, n, g)
	w.Probe("refused")
}

func network(w *W) {
	if w.Rng.Bool(0.04) {
		impossible(w)
		return
	}
	n := pick(w, w.anySize(60, 0.1), w.Between(1, 12), w.Between(1, 30))
	g := core.State{Phase: 1, Frequency: 100 * time.Millisecond, Coherence: 0.7}
	cfg := config.AutoScaleConfig(n)
	custom := w.Rng.Bool(0.7) && n > 1
	if custom {
		cfg.AutoScale = false
		cfg.MaxSwarmSize = 0
		cfg.MaxNeighbors = w.Between(1, min(n-1, 130))
		cfg.MinNeighbors = w.Between(0, cfg.MaxNeighbors)
		cfg.ConnectionProbability = pick(w, 0, 0.1, 0.5, 0.9, 1)
		if w.Rng.Bool(0.3) {
			cfg.EnableConnectionOptim = true
			cfg.ConnectionOptimThreshold = w.Between(1, n)
		}
	}
	var s *swarm.Swarm
	var err error
	topo := ""
	how := w.Rng.Intn(5)
	w.Note("n=%d how=%d max=%d min=%d p=%v optim=%v/%d", n, how, cfg.MaxNeighbors, cfg.MinNeighbors, cfg.ConnectionProbability, cfg.EnableConnectionOptim, cfg.ConnectionOptimThreshold)
	switch {
	case how == 0 && n > 1:
		s, err = swarm.NewSwarmFromConfig(n, g, cfg)
	case how == 1 && n > 1:
		k := w.Rng.Intn(3)
		topo = []string{"full", "ring", "star"}[k]
		s, err = swarm.New(n, g, swarm.WithTopology([]func(*swarm.Swarm) error{topology.FullyConnected, topology.Ring, topology.Star}[k]))
	case how == 2 && n > 1:
		s, err = swarm.New(n, g, swarm.WithConfig(cfg), swarm.WithAgentBuilder(func(id string, size int, _ config.Swarm) *agent.Agent {
			return agent.New(id, agent.WithSwarmInfo(size, 0))
		}))
	default:
		s, err = swarm.New(n, g, swarm.WithConfig(cfg))
	}
	if err != nil {
		w.Fail("create", "a swarm of %d agents cannot be created: %v", n, err)
	}
	cfg = s.Config()
	as := s.Agents()
	w.Check(len(as) == n, "agents", "a swarm of %d agents has %d", n, len(as))
	links := map[string]map[string]bool{}
	edges := 0
	names := sortedKeys(as)
	for _, id := range names {
		a := as[id]
		links[id] = map[string]bool{}
		for _, other := range names {
			if a.IsConnectedTo(other) {
				links[id][other] = true
				edges++
			}
		}
		w.Check(a.NeighborCount() == len(links[id]), "count", "agent %s is linked to %d agents of the swarm but counts %d neighbours", id, len(links[id]), a.NeighborCount())
		w.Check(!links[id][id], "self", "agent %s is its own neighbour", id)
		a.Neighbors().Range(func(k, v any) bool {
			b, _ := v.(*agent.Agent)
			w.Check(b != nil && as[b.ID] == b && k == b.ID, "stranger", "agent %s is linked to something that is not an agent of the swarm", id)
			return true
		})
	}
	for _, id := range names {
		for _, o := range sortedKeys(links[id]) {
			w.Check(links[o][id], "asymmetric", "%s is linked to %s but not the other way round", id, o)
		}
	}
	minimal := cfg.EnableConnectionOptim && n > cfg.ConnectionOptimThreshold
	switch topo {
	case "full":
		w.Check(edges == n*(n-1), "topology", "a fully connected network of %d agents has %d of %d links", n, edges, n*(n-1))
	case "ring":
		for _, id := range names {
			l := links[id]
			want := 2
			if n == 2 {
				want = 1
			}
			w.Check(len(l) == want, "topology", "in a ring of %d agents %s has %d neighbours", n, id, len(l))
		}
		// connected
		seen := map[string]bool{}
		var walk func(string)
		walk = func(i string) {
			if seen[i] {
				return
			}
			seen[i] = true
			for o := range links[i] {
				walk(o)
			}
		}
		walk("agent-0")
		w.Check(len(seen) == n, "topology", "a ring of %d agents connects only %d", n, len(seen))
	case "star":
		hubs := 0
		for _, l := range links {
			if len(l) == n-1 {
				hubs++
			}
		}
		w.Check(edges == 2*(n-1) && (hubs == 1 || n == 2), "topology", "a star of %d agents has %d links and %d hubs", n, edges, hubs)
	default:
		if !minimal && n > cfg.MinNeighbors {
			for _, id := range names {
				l := links[id]
				w.Check(len(l) >= cfg.MinNeighbors, "isolated", "agent %s has %d neighbours, at least %d were asked for", id, len(l), cfg.MinNeighbors)
			}
		}
		if !minimal && cfg.ConnectionProbability >= 1 {
			for _, id := range names {
				l := links[id]
				want := cfg.MaxNeighbors
				if want > n-1 {
					want = n - 1
				}
				w.Check(len(l) >= want, "isolated", "agent %s has %d neighbours although all of up to %d were to be linked", id, len(l), want)
			}
		}
		if n == 1 {
			w.Check(edges == 0, "self", "a single agent has links")
		}
	}
}
