package main

import (
	"context"
	"fmt"
	"math"
	"slices"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/internal/config"
	zctx "github.com/carlisia/bio-adapt/zzverif/context"
)

func init() {
	sn := []int64{10, 100, 1000}
	register(&Scenario{Prop: "P08", Name: "converges", Run: converges, Fine: 0.01, MaxSteps: 300000000, MaxTime: 20 * time.Hour,
		StallMax: 300 * time.Millisecond, Freeze: true, StepNs: sn, RandEdge: true, Quick: 8000, Thorough: 200000, Real: swarmReal, Stub: agentStub})
	register(&Scenario{Prop: "P09", Name: "recovers", Run: recovers, Fine: 0.01, MaxSteps: 300000000, MaxTime: 20 * time.Hour,
		StallMax: 300 * time.Millisecond, Freeze: true, StepNs: sn, RandEdge: true, Quick: 8000, Thorough: 200000, Real: swarmReal, Stub: agentStub})
	register(&Scenario{Prop: "P09", Name: "recovery-trigger", Run: recoveryTrigger, Fine: 0.01, MaxSteps: 300000000, MaxTime: 20 * time.Hour,
		StallMax: 300 * time.Millisecond, Freeze: true, StepNs: sn, RandEdge: true, Quick: 6000, Thorough: 150000, Real: swarmReal, Stub: agentStub})
	register(&Scenario{Prop: "P24", Name: "achieves", Run: achieves, Fine: 0.01, MaxSteps: 300000000, MaxTime: 20 * time.Hour,
		StallMax: 300 * time.Millisecond, Freeze: true, StepNs: sn, Quick: 6000, Thorough: 150000, Real: swarmReal, Stub: agentStub})
}

// Bounds of the liveness checks, in updates of the swarm.  The unchanged code
// needs at most 20 in 10^6 simulated runs of the goals and targets drawn below.
const (
	gatherWithin   = 120
	within         = 0.1 // of the target coherence
	disperseWithin = 400
	dispersed      = 0.6
)

// reachable draws a goal whose coherence this code reaches quickly from any
// arrangement: every goal type up to a medium target, and those made for
// synchronization up to 0.9.
func (w *W) reachable(n int) (goal.Type, float64) {
	strong := []goal.Type{goal.MinimizeAPICalls, goal.ReachConsensus, goal.MaintainRhythm, goal.Type(99)}
	if w.Rng.Bool(0.6) {
		return strong[w.Rng.Intn(len(strong))], math.Min(practical(n)-0.05, pick(w, 0.5, 0.65, 0.75, 0.85, 0.9, w.Unif(0.45, 0.9)))
	}
	return goalTypes[w.Rng.Intn(len(goalTypes))], pick(w, 0.5, 0.65, w.Unif(0.45, 0.65))
}

func (w *W) reachableSwarm(n int) *sw {
	gt, tgt := w.reachable(n)
	g := core.State{Phase: w.Unif(0, twoPi), Frequency: pick(w, 100*time.Millisecond, 50*time.Millisecond, time.Second), Coherence: tgt}
	x := &sw{w: w, n: n, born: w.Now(), phase: g.Phase, freq: g.Frequency, asked: tgt, tgt: tgt, cfg: w.goalConfig(gt, n)}
	if w.Rng.Bool(0.5) {
		x.cfg.Strategy.UpdateInterval = time.Duration(w.Between(5, 50)) * time.Millisecond
	}
	x.cfg.Strategy.MaxIterationsFactor = math.Max(x.cfg.Strategy.MaxIterationsFactor, 200)
	x.every = x.cfg.Strategy.UpdateInterval
	x.iters = int(math.Min(1000, x.cfg.Strategy.MaxIterationsFactor*timeFactor(n, tgt)))
	var err error
	x.s, err = swarm.New(n, g, swarm.WithGoalConfig(x.cfg))
	if err != nil {
		w.Fail("create", "a swarm of %d agents with goal %+v cannot be created: %v", n, g, err)
	}
	x.sortID = sortedKeys(x.s.Agents())
	w.Note("n=%d goal=%+v type=%v budget=%d every %v", n, g, gt, x.iters, x.every)
	return x
}

func (x *sw) coherence() float64 { return coherenceOf(x.phases()) }

// watch looks at the swarm twice per update until ok, or until end; it returns
// the number of updates that took, or -1.
func (x *sw) watch(updates int, over *bool, ok func(c float64) bool) int {
	for i := 0; i <= 2*updates; i++ {
		if ok(x.coherence()) {
			return i / 2
		}
		if over != nil && *over {
			return -2
		}
		x.w.Sleep(x.every / 2)
	}
	return -1
}

// alternative makes the swarm now and then with the other constructor, which
// gives it the default configurations of goal and recovery.
func (x *sw) alternative() {
	w := x.w
	if x.n < 2 || x.n > 12 || !w.Rng.Bool(0.15) {
		return
	}
	x.cfg = swarm.For(goal.Type(99))
	x.every = x.cfg.Strategy.UpdateInterval
	x.iters = int(math.Min(1000, x.cfg.Strategy.MaxIterationsFactor*timeFactor(x.n, x.tgt)))
	var err error
	x.s, err = swarm.NewSwarmFromConfig(x.n, core.State{Phase: x.phase, Frequency: x.freq, Coherence: x.tgt}, config.AutoScaleConfig(x.n))
	if err != nil {
		w.Fail("create", "a swarm of %d agents cannot be created: %v", x.n, err)
	}
	x.sortID = sortedKeys(x.s.Agents())
	w.Note("default configuration")
}

// ---------------------------------------------------------------- P08

func converges(w *W) {
	if w.Rng.Bool(0.15) {
		disperses(w)
		return
	}
	x := w.reachableSwarm(w.anySize(40, 0.02))
	x.arrange()
	over, ok := false, false
	disturbed := w.Rng.Bool(0.5)
	ctx, cancel := zctx.WithCancel(context.Background())
	defer cancel()
	if disturbed {
		k := x.disturber(20*x.every, w.Between(1, 4))
		w.Go("disturber", k)
	}
	start := func() {
		over = false
		w.Go("run", func() {
			ok = x.s.Run(ctx) == nil
			over = true
		})
	}
	start()
	if disturbed {
		w.Sleep(21 * x.every)
		w.Sleep(time.Second) // stalled disturbers
		for x.busy > 0 {
			w.Sleep(time.Millisecond)
		}
	}
	w.StopFaults()
	left := x.iters - 25 - int(2*time.Second/x.every)
	if over || disturbed && left < gatherWithin+10 {
		// the disturbed run is over, or nearly: the next one is undisturbed
		for !over {
			w.Sleep(10 * x.every)
		}
		if w.Rng.Bool(0.5) {
			x.arrange()
		}
		start()
	}
	k := x.watch(gatherWithin, &over, func(c float64) bool { return c >= x.tgt-within })
	switch {
	case k >= 0:
		w.Probe("gathered within " + pow2(k) + " updates")
	case k == -2:
		w.Check(ok, "not-gathered", "the run of %d updates ended without success and without the agents coming together: coherence %v of %v", x.iters, x.coherence(), x.tgt)
	default:
		w.Fail("not-gathered", "%d updates of %v after the last disturbance the agents have not come together: coherence %v of %v", gatherWithin, x.every, x.coherence(), x.tgt)
	}
	w.evals++
	cancel()
	w.Wait()
}

// disperses: a goal of low coherence makes agents that are together drift apart.
func disperses(w *W) {
	n := w.Between(8, 40)
	tgt := w.Unif(0.15, 0.39)
	g := core.State{Phase: w.Unif(0, twoPi), Frequency: 100 * time.Millisecond, Coherence: tgt}
	gt := goalTypes[w.Rng.Intn(len(goalTypes))]
	x := &sw{w: w, n: n, phase: g.Phase, freq: g.Frequency, asked: tgt, tgt: tgt, cfg: w.goalConfig(gt, n)}
	x.every = x.cfg.Strategy.UpdateInterval
	x.cfg.Strategy.MaxIterationsFactor = 500
	x.cfg.Convergence.PatternDistanceThreshold = 0.01 // agents all together are not the goal
	var err error
	x.s, err = swarm.New(n, g, swarm.WithGoalConfig(x.cfg))
	if err != nil {
		w.Fail("create", "a swarm of %d agents with goal %+v cannot be created: %v", n, g, err)
	}
	x.sortID = sortedKeys(x.s.Agents())
	w.Note("n=%d goal=%+v type=%v", n, g, gt)
	at := w.Unif(0, twoPi)
	for _, a := range x.agents() {
		a.SetPhase(at)
	}
	ctx, cancel := zctx.WithCancel(context.Background())
	defer cancel()
	over := false
	w.Go("run", func() { _ = x.s.Run(ctx); over = true })
	k := x.watch(disperseWithin, nil, func(c float64) bool { return c <= dispersed })
	w.Check(k >= 0, "not-dispersed", "after %d updates of a run towards a coherence of %v the agents are still together: coherence %v (run over: %v)", disperseWithin, tgt, x.coherence(), over)
	w.Probe("dispersed within " + pow2(k) + " updates")
	cancel()
	w.Wait()
}

func pow2(k int) string {
	b := 1
	s := []string{"1", "2", "4", "8", "16", "32", "64", "128", "256", "512", "1024"}
	i := 0
	for b < k && i < len(s)-1 {
		b *= 2
		i++
	}
	return s[i]
}

// ---------------------------------------------------------------- P09

func recovers(w *W) {
	x := w.reachableSwarm(w.anySize(30, 0.02))
	if w.Rng.Bool(0.7) { // synchronization attempts end, so that recovery needs new ones
		x.cfg.Strategy.MaxIterationsFactor = float64(w.Between(10, 60))
		gs := core.State{Phase: x.phase, Frequency: x.freq, Coherence: x.tgt}
		var err error
		x.s, err = swarm.New(x.n, gs, swarm.WithGoalConfig(x.cfg))
		if err != nil {
			w.Fail("create", "a swarm of %d agents cannot be created: %v", x.n, err)
		}
		x.sortID = sortedKeys(x.s.Agents())
		x.iters = int(math.Min(1000, x.cfg.Strategy.MaxIterationsFactor*timeFactor(x.n, x.tgt)))
	}
	x.alternative()
	x.arrange()
	ctx, cancel := zctx.WithCancel(context.Background())
	defer cancel()
	base := len(w.Live())
	var err error
	over := false
	w.Go("run", func() { err = x.s.RunContinuous(ctx); over = true })
	rounds := w.Between(1, 4)
	for r := 0; r < rounds; r++ {
		if !w.Keep() {
			continue
		}
		// disturb for a while, or wait until attempts have come to their end
		switch w.Rng.Intn(3) {
		case 0:
			w.Go("disturber", x.disturber(time.Duration(w.Between(1, 5000))*time.Millisecond, w.Between(1, 5)))
			w.Sleep(5 * time.Second)
		case 1:
			w.Sleep(time.Duration(x.iters+10) * x.every)
		}
		for x.busy > 0 {
			w.Sleep(10 * time.Millisecond)
		}
		last := r == rounds-1
		if last {
			w.StopFaults()
		}
		switch w.Rng.Intn(4) {
		case 3: // gradual degradation, in steps too small to be called a disruption
			step := w.Unif(0.005, 0.03)
			for i, k := 0, w.Between(50, 200); i < k; i++ {
				for j, a := range x.agents() {
					a.SetPhase(a.Phase() + step*float64(j%5-2))
				}
				w.Sleep(30 * time.Millisecond)
			}
		case 0:
			x.s.DisruptAgents(w.Unif(0.3, 1))
		case 1:
			for i, a := range x.agents() {
				a.SetPhase(float64(i) * twoPi / float64(x.n))
			}
		default:
			for i, a := range x.agents() {
				a.SetPhase(x.phase + 1 + float64(i%2)*math.Pi)
			}
		}
		need := x.tgt - within
		t0 := w.Now()
		// a running attempt may use up its budget first; then a check, at least
		// half a second between attempts, and the attempt itself
		slack := int((3*time.Second + 30*x.every) / x.every)
		k := x.watch(gatherWithin+slack, nil, func(c float64) bool { return c >= need })
		w.Check(!over, "ended", "continuous operation ended by itself: %v", err)
		if last || k >= 0 {
			w.Check(k >= 0, "not-recovered", "%v after the last disturbance the swarm has not recovered: coherence %v, target %v", w.Now()-t0, x.coherence(), x.tgt)
			w.Probe(fmt.Sprintf("recovered within %d/10 of the bound", 10*k/(gatherWithin+slack)))
		}
		l := w.Live()
		w.Check(len(l) <= base+1, "leftover", "continuous operation keeps more than one synchronization: %v", l)
	}
	cancel()
	w.Wait()
}

// spread puts the agents around the phase at so that their coherence is c.
func (x *sw) spread(at, c float64, centred bool) {
	off := make([]float64, x.n)
	for i := range off {
		off[i] = float64(i) / float64(x.n-1) * twoPi * float64(x.n-1) / float64(x.n)
	}
	if centred {
		for i := range off {
			off[i] -= math.Pi * float64(x.n-1) / float64(x.n)
		}
	}
	lo, hi := 0.0, 1.0
	ph := make([]float64, x.n)
	for i := 0; i < 60; i++ {
		mid := (lo + hi) / 2
		for j := range ph {
			ph[j] = at + mid*off[j]
		}
		if coherenceOf(ph) > c {
			lo = mid
		} else {
			hi = mid
		}
	}
	for j, a := range x.agents() {
		a.SetPhase(ph[j])
	}
}

// recoveryTrigger: when no attempt is under way, one begins if and only if the
// swarm is in bad shape.
func recoveryTrigger(w *W) {
	x := w.reachableSwarm(w.Between(2, 14))
	x.cfg.Strategy.MaxIterationsFactor = float64(w.Between(3, 15))
	x.cfg.Convergence.PatternDistanceThreshold = pick(w, 1e-9, 0.1) // seldom met: attempts use up their budget
	x.iters = int(math.Min(1000, x.cfg.Strategy.MaxIterationsFactor*timeFactor(x.n, x.tgt)))
	opts := []swarm.Option{swarm.WithGoalConfig(x.cfg)}
	rc := swarm.DefaultRecoveryConfig(x.tgt)
	check, floor := 100*time.Millisecond, 0.0
	switch {
	case x.tgt >= 0.9:
		floor = math.Max(0.5, 0.98*x.tgt)
	case x.tgt >= 0.7:
		floor = math.Max(0.4, 0.95*x.tgt)
	case x.tgt >= 0.5:
		floor = math.Max(0.3, 0.92*x.tgt)
	default:
		floor = math.Max(0.2, 0.85*x.tgt)
	}
	levels, drop, step := false, 0.0, 0.0
	if w.Rng.Bool(0.7) {
		rc.CheckInterval = time.Duration(w.Between(10, 400)) * time.Millisecond
		rc.TargetMarginRatio = w.Unif(0.4, 0.99)
		rc.MinimumViableCoherence = w.Unif(0.05, 0.6) * x.tgt
		if w.Rng.Bool(0.2) { // the minimum is the stricter of the two
			rc.TargetMarginRatio = w.Unif(0.1, 0.5)
			rc.MinimumViableCoherence = w.Unif(0.6, 0.97) * x.tgt
		}
		if w.Rng.Bool(0.2) { // one level only
			if rc.MinimumViableCoherence > rc.TargetMarginRatio*x.tgt {
				rc.TargetMarginRatio = 0
			} else {
				rc.MinimumViableCoherence = 0
			}
		}
		switch w.Rng.Intn(3) {
		case 0: // only the levels count: no drop is large enough
			levels = true
			rc.SmallDropRatio, rc.LargeDropRatio = 1, 1
		case 1: // several small drops that together are a large one
			rc.TargetMarginRatio = w.Unif(0.2, 0.3)
			rc.MinimumViableCoherence = w.Unif(0.05, 0.2)
			rc.SmallDropRatio = w.Unif(0.05, 0.1)
			rc.LargeDropRatio = rc.SmallDropRatio * w.Unif(1.2, 2.5)
			drop, step = rc.LargeDropRatio+w.Unif(0.02, 0.05), rc.SmallDropRatio*0.6
		}
		check, floor = rc.CheckInterval, math.Max(rc.MinimumViableCoherence, rc.TargetMarginRatio*x.tgt)
		opts = append(opts, swarm.WithRecoveryConfig(rc))
	}
	var err error
	x.s, err = swarm.New(x.n, core.State{Phase: x.phase, Frequency: x.freq, Coherence: x.tgt}, opts...)
	if err != nil {
		w.Fail("create", "a swarm of %d agents cannot be created: %v", x.n, err)
	}
	x.sortID = sortedKeys(x.s.Agents())
	if len(opts) == 1 {
		x.alternative()
	}
	w.Note("acceptable from %v, checked every %v", floor, check)
	x.arrange()
	ctx, cancel := zctx.WithCancel(context.Background())
	defer cancel()
	base := len(w.Live())
	over := false
	w.Go("run", func() { err = x.s.RunContinuous(ctx); over = true })
	w.Sleep(time.Duration(w.Between(0, 3000)) * time.Millisecond)
	if w.Rng.Bool(0.5) {
		x.s.DisruptAgents(w.Unif(0, 1))
		w.Sleep(time.Duration(w.Between(0, 3000)) * time.Millisecond)
	}
	w.StopFaults()
	w.Sleep(time.Second)
	for r, k := 0, w.Between(1, 3); r < k; r++ {
		// bring the swarm into perfect shape and wait until it is left alone
		at := w.Unif(0, twoPi)
		quiet := func() bool {
			for _, a := range x.agents() {
				if a.Phase() != x.agents()[0].Phase() {
					return false
				}
			}
			return len(w.Live()) == base
		}
		ok := false
		for i := 0; i < 20 && !ok; i++ {
			for _, a := range x.agents() {
				a.SetPhase(at)
			}
			w.Sleep(time.Duration(x.iters+5)*x.every + 2*check + 1500*time.Millisecond)
			ok = quiet()
		}
		w.Check(!over, "ended", "continuous operation ended by itself: %v", err)
		w.Check(ok, "restless", "agents that are all together are not left alone: coherence %v, %v", x.coherence(), w.Live())
		for i := 0; i < 20; i++ {
			w.Sleep(check/3 + 50*time.Millisecond)
			w.Check(quiet(), "restless", "agents that were all together were not left alone: coherence %v, %v", x.coherence(), w.Live())
		}
		w.Probe("left alone")
		began := false
		if levels { // anything above the levels is left alone too, however it came about
			for i, k := 0, w.Between(1, 4); i < k; i++ {
				x.spread(at, w.Unif(floor+0.005, 1), false)
				before := x.phases()
				for j := 0; j < 6; j++ {
					w.Sleep(check/2 + time.Duration(w.Between(0, 200))*time.Millisecond)
					w.Check(len(w.Live()) == base && slices.Equal(before, x.phases()), "restless", "agents of coherence %v, with %v acceptable and no drop counting as one, were not left alone: %v", coherenceOf(before), floor, w.Live())
				}
			}
		}
		c := floor - w.Unif(0.01, floor)
		if drop > 0 {
			// the floor is not reached, no step is more than a small drop
			c = 1 - drop
			for v := 1.0 - step; v > c && !began; v -= step {
				x.spread(at, v, false)
				end := w.Now() + check + time.Duration(w.Between(1, 20))*time.Millisecond
				for !began && w.Now() < end {
					w.Sleep(2 * time.Millisecond)
					began = len(w.Live()) > base || math.Abs(x.coherence()-v) > 0.001
				}
			}
			if !began {
				x.spread(at, c, false)
				before := x.phases()
				end := w.Now() + 2*check + time.Second
				for !began && w.Now() < end {
					w.Sleep(2 * time.Millisecond)
					began = len(w.Live()) > base || !slices.Equal(before, x.phases())
				}
				w.Check(began, "no-attempt", "coherence has fallen from 1 to %v, in steps of %v, for %v; %v of the best is called a large drop, and no attempt to recover has begun", coherenceOf(before), step, 2*check+time.Second, rc.LargeDropRatio)
				w.Probe("attempt began after several drops")
			}
			continue
		}
		switch w.Rng.Intn(3) {
		case 0:
			c = floor - 0.01
		case 1: // slowly, so that no single step is a disruption
			for v := 1.0; v > c; v -= 0.004 {
				x.spread(at, v, false)
				w.Sleep(check / 3)
				if len(w.Live()) != base || math.Abs(x.coherence()-v) > 0.001 {
					began = true
					break
				}
			}
		}
		if !began {
			x.spread(at, c, false)
			before := x.phases()
			end := w.Now() + 2*check + time.Second
			for !began && w.Now() < end {
				w.Sleep(2 * time.Millisecond)
				began = len(w.Live()) > base || !slices.Equal(before, x.phases())
			}
			w.Check(began, "no-attempt", "coherence has been %v for %v, at least %v is acceptable, and no attempt to recover has begun", coherenceOf(before), 2*check+time.Second, floor)
			w.Probe("attempt began")
		}
		if w.Rng.Bool(0.5) { // the attempt succeeds at once, and all is lost again at once
			for _, a := range x.agents() {
				a.SetPhase(at)
			}
			for i := 0; i < 2*(x.iters+5) && len(w.Live()) > base; i++ {
				w.Sleep(x.every / 2)
			}
			if len(w.Live()) > base {
				continue
			}
			x.spread(at, c, false)
			before := x.phases()
			end, again := w.Now()+2*check+time.Second, false
			for !again && w.Now() < end {
				w.Sleep(2 * time.Millisecond)
				again = len(w.Live()) > base || !slices.Equal(before, x.phases())
			}
			w.Check(again, "no-attempt", "after an attempt ended coherence has been %v for %v, at least %v is acceptable, and no further attempt has begun", coherenceOf(before), 2*check+time.Second, floor)
			w.Probe("next attempt began")
		}
	}
	cancel()
	w.Wait()
}

// ---------------------------------------------------------------- P24

// achieves: a run does not only gather the agents, it ends in success.
func achieves(w *W) {
	n := pick(w, w.Between(10, 24), w.Between(10, 24), w.Between(10, 60))
	gt := pick(w, goal.DistributeLoad, goal.MinimizeLatency, goal.SaveEnergy, goal.RecoverFromFailure, goal.AdaptToTraffic)
	g := core.State{Phase: pick(w, 0, 0, 0, 0.3, 6), Frequency: time.Duration(pick(w, 200, 225, 250, 250)) * time.Millisecond, Coherence: math.Min(practical(n)-0.05, pick(w, 0.5, 0.65, 0.75, 0.85, 0.9, w.Unif(0.5, 0.9)))}
	far := w.Rng.Bool(0.05)
	if far {
		g.Frequency = pick(w, 500*time.Millisecond, time.Second, time.Second, 5*time.Second)
	}
	round := !far && w.Rng.Bool(0.04)
	if round {
		g.Phase = pick(w, 1.5, 3, 4.5)
	}
	x := &sw{w: w, n: n, born: w.Now(), phase: g.Phase, freq: g.Frequency, asked: g.Coherence, tgt: g.Coherence, cfg: swarm.For(gt)}
	x.every = x.cfg.Strategy.UpdateInterval
	x.iters = 1000
	x.cfg.Strategy.MaxIterationsFactor = 1e6
	var err error
	x.s, err = swarm.New(n, g, swarm.WithGoalConfig(x.cfg))
	if err != nil {
		w.Fail("create", "a swarm of %d agents with goal %+v cannot be created: %v", n, g, err)
	}
	x.sortID = sortedKeys(x.s.Agents())
	w.Note("n=%d goal=%+v type=%v", n, g, gt)
	if !far {
		x.arrange()
	}
	if w.Rng.Bool(0.5) && !far { // a first run is disturbed, or cut short
		ctx, cancel := zctx.WithTimeout(context.Background(), time.Duration(w.Between(1, 60))*x.every)
		w.Go("disturber", x.disturber(30*x.every, w.Between(1, 4)))
		_ = x.s.Run(ctx)
		cancel()
		for x.busy > 0 {
			w.Sleep(x.every)
		}
	}
	w.StopFaults()
	mean := func() time.Duration {
		t := time.Duration(0)
		for _, a := range x.agents() {
			t += a.Frequency()
		}
		return t / time.Duration(n)
	}
	if far {
		if err = x.s.Run(context.Background()); err == nil {
			w.Probe("far goal reached")
			return
		}
		m := mean()
		if m > 190*time.Millisecond && m < 270*time.Millisecond {
			w.Fail("stock-frequency", "a run towards a frequency of %v brought the agents to %v", g.Frequency, m)
		}
		w.Fail("elsewhere", "a run towards a frequency of %v left the agents with %v", g.Frequency, m)
	}
	if round {
		for k := 1; k <= 2; k++ {
			if err = x.s.Run(context.Background()); err == nil {
				w.Probe("goal phase elsewhere reached")
				return
			}
		}
		w.Fail("long-way", "two runs of %d updates each have not reached a goal phase of %v: coherence %v of %v, mean frequency %v of %v: %v", x.iters, g.Phase, x.coherence(), g.Coherence, mean(), g.Frequency, err)
	}
	for k := 1; k <= 6; k++ {
		err = x.s.Run(context.Background())
		if err == nil {
			w.Probe(fmt.Sprintf("success in run %d", k))
			w.evals++
			return
		}
	}
	w.Fail("no-success", "six runs of %d updates each have not reached the goal: coherence %v of %v, mean frequency %v of %v: %v", x.iters, x.coherence(), g.Coherence, mean(), g.Frequency, err)
}
