package main

import (
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/decision"
	"github.com/carlisia/bio-adapt/emerge/strategy"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/internal/random"
	"github.com/carlisia/bio-adapt/zzverif/rt"
)

func init() {
	register(&Scenario{Prop: "P15", Name: "worker-pool", Run: workerPool, Fine: 0.2, MaxSteps: 400000, MaxTime: time.Hour,
		StallMax: 50 * time.Millisecond, Freeze: true, Quick: 120000, Thorough: 3000000, Real: "emerge/swarm worker pool", Stub: agentStub})
	register(&Scenario{Prop: "P16", Name: "agent-pool", Run: agentPool, Fine: 0.2, MaxSteps: 400000, MaxTime: time.Hour,
		StallMax: 50 * time.Millisecond, RandEdge: true, Quick: 80000, Thorough: 2000000, Real: agentReal, Stub: agentStub + "; sync.Pool may drop any object (GC)"})
	register(&Scenario{Prop: "P20", Name: "pulse", Run: pulsePacing, Fine: 0.3, MaxSteps: 400000, MaxTime: time.Hour,
		StallMax: 300 * time.Millisecond, Freeze: true, StepNs: []int64{10, 1000, 100000, 3000000}, Quick: 150000, Thorough: 4000000, Real: "emerge/strategy", Stub: agentStub})
	register(&Scenario{Prop: "P21", Name: "entropy", Run: entropy, Fine: 0.2, MaxSteps: 400000, MaxTime: time.Hour,
		StallMax: 10 * time.Millisecond, RandEdge: true, Quick: 100000, Thorough: 3000000, Real: "internal/random", Stub: agentStub})
	register(&Scenario{Prop: "P22", Name: "proposals", Run: proposals, Fine: 0.2, MaxSteps: 400000, MaxTime: time.Hour,
		StallMax: 50 * time.Millisecond, Freeze: true, RandEdge: true, Quick: 120000, Thorough: 3000000, Real: agentReal, Stub: agentStub + "; in part of the runs the strategy or decision maker is a test client"})
}

// ---------------------------------------------------------------- P15

func workerPool(w *W) {
	workers := w.Between(1, 4)
	wp := swarm.NewWorkerPool(workers)
	nt := w.Between(1, 4)
	ran := map[int]int{}
	active, maxActive, id := 0, 0, 0
	stopMid := w.Rng.Bool(0.3)
	unit := time.Millisecond
	if w.Rng.Bool(0.2) { // work that takes long
		unit = pick(w, 100*time.Millisecond, 2*time.Second, 15*time.Second)
	}
	var submitted []int
	for t := 0; t < nt; t++ {
		var plan []int
		var durs []time.Duration
		for i, n := 0, w.Between(0, 8); i < n; i++ {
			if !w.Keep() {
				continue
			}
			id++
			plan = append(plan, id)
			durs = append(durs, time.Duration(w.Between(0, 3))*unit)
		}
		w.Note("t%d submits %d", t, len(plan))
		w.Go(fmt.Sprintf("client%d", t), func() {
			for i, k := range plan {
				d := durs[i]
				wp.Submit(func() {
					ran[k]++
					active++
					if active > maxActive {
						maxActive = active
					}
					if d > 0 {
						w.Sleep(d)
					}
					active--
				})
				submitted = append(submitted, k)
			}
		})
	}
	w.Note("workers %d, stop mid-way %v", workers, stopMid)
	if stopMid {
		w.Sleep(time.Duration(w.Between(0, 6)) * unit)
		wp.Stop()
		w.Wait() // submitters must not be stuck for ever
		w.Probe("stopped with work pending")
	} else {
		w.Wait()
		for i := 0; i < 4000 && len(ran) < len(submitted); i++ {
			w.Sleep(unit)
		}
		w.Check(len(ran) == len(submitted), "lost-work", "%d of %d submitted tasks never ran", len(submitted)-len(ran), len(submitted))
		wp.Stop()
	}
	for k, n := range ran {
		w.Check(n == 1, "repeated-work", "task %d ran %d times", k, n)
	}
	w.Check(maxActive <= workers, "too-many", "%d tasks ran at once in a pool of %d workers", maxActive, workers)
	left := w.Settle(10*time.Second + 50*unit)
	w.Check(len(left) == 0, "leak", "workers still alive long after the pool was stopped: %v", left)
	w.Check(active == 0, "leak", "%d tasks still running after the workers ended", active)
}

// ---------------------------------------------------------------- P16

func agentPool(w *W) {
	g0, p0, n0, u0 := agent.Pool.Stats()
	held := map[*agent.Agent]string{}
	seen := map[*agent.Agent]bool{}
	var gets, puts uint64
	friends := make([]*agent.Agent, pick(w, 3, 20, 21, 24, 30))
	for i := range friends {
		friends[i] = agent.New(fmt.Sprintf("f%d", i))
	}
	nt := w.Between(1, 4)
	for t := 0; t < nt; t++ {
		n := w.Between(1, 5)
		type step struct {
			id   string
			mess int
			hold time.Duration
		}
		var plan []step
		for i := 0; i < n; i++ {
			if !w.Keep() {
				continue
			}
			plan = append(plan, step{fmt.Sprintf("t%d-%d", t, i), w.Rng.Intn(64), time.Duration(w.Between(0, 2)) * time.Microsecond})
		}
		w.Note("t%d %v", t, plan)
		w.Go(fmt.Sprintf("client%d", t), func() {
			var mine []*agent.Agent
			for _, s := range plan {
				gets++
				a := agent.Pool.Get(s.id)
				if o, ok := held[a]; ok {
					w.Fail("shared", "the pool handed the agent held as %q out again as %q", o, s.id)
				}
				held[a] = s.id
				seen[a] = true
				w.Check(a.ID == s.id, "wrong-id", "an agent requested as %q is called %q", s.id, a.ID)
				w.wellFormed(a)
				w.Check(a.Energy() == 100, "not-fresh", "an agent from the pool starts with energy %v instead of 100", a.Energy())
				w.Check(a.Frequency() == 100*time.Millisecond, "not-fresh", "an agent from the pool starts with frequency %v", a.Frequency())
				w.Check(a.NeighborCount() == 0, "not-fresh", "an agent from the pool starts with %d neighbours", a.NeighborCount())
				w.Check(a.Stubbornness() <= 0.3 && a.Influence() <= 0.2, "not-fresh", "an agent from the pool starts with stubbornness %v, influence %v", a.Stubbornness(), a.Influence())
				w.Check(a.Phase() != 1.234567 && a.LocalGoal() != 2.345678, "not-fresh", "an agent from the pool starts with the phase %v and the goal %v of an earlier owner", a.Phase(), a.LocalGoal())
				links := 0
				a.Neighbors().Range(func(any, any) bool { links++; return true })
				w.Check(links == 0, "not-fresh", "an agent from the pool starts with %d links", links)
				for k := range friends {
					w.Check(!a.IsConnectedTo(friends[k].ID), "not-fresh", "an agent from the pool is already connected to %s", friends[k].ID)
				}
				for _, b := range mine {
					w.Check(!a.IsConnectedTo(b.ID), "not-fresh", "an agent from the pool is already connected to %s", b.ID)
				}
				// use it, leaving traces behind
				if s.mess&1 != 0 {
					a.SetEnergy(pick(w, 3, 3, 0, 250.0))
					a.SetFrequency(time.Second)
					a.SetPhase(1.234567)
					a.SetLocalGoal(2.345678)
				}
				if s.mess&2 != 0 {
					o := agent.New("friend")
					a.ConnectTo("friend", o)
					w.Check(a.IsConnectedTo("friend"), "unusable", "an agent from the pool cannot be connected")
				}
				if s.mess&4 != 0 {
					o := agent.New("pal")
					a.Neighbors().Store("pal", o)
				}
				if s.mess&32 != 0 { // more friends than there is room for at hand
					for _, f := range friends {
						a.ConnectTo(f.ID, f)
					}
					w.Check(a.NeighborCount() >= len(friends), "unusable", "an agent from the pool connected to %d others has %d neighbours", len(friends), a.NeighborCount())
					if s.mess&1 != 0 {
						for _, f := range friends[:len(friends)/2] {
							a.DisconnectFrom(f.ID)
						}
					}
					w.Probe("many links")
				}
				if s.mess&8 != 0 {
					a.UpdateContext()
					if act, ok := a.ProposeAdjustment(core.State{Coherence: 0.9, Frequency: time.Second}); ok {
						_, _, _ = a.ApplyAction(act)
					}
				}
				if s.mess&16 != 0 {
					a.SetStubbornness(1)
					a.SetInfluence(1)
				}
				w.Sleep(s.hold)
				w.Check(a.ID == s.id, "shared", "an agent held as %q was renamed to %q by someone else", s.id, a.ID)
				if len(mine) > 0 && w.Seq()%2 == 0 {
					b := mine[0]
					mine = mine[1:]
					delete(held, b)
					puts++
					agent.Pool.Put(b)
				}
				mine = append(mine, a)
			}
			for _, b := range mine {
				delete(held, b)
				puts++
				agent.Pool.Put(b)
			}
			agent.Pool.Put(nil)
		})
	}
	w.Wait()
	g, p, n, u := agent.Pool.Stats()
	w.Check(g-g0 == gets && p-p0 == puts, "stats", "%d gets and %d puts were counted as %d and %d", gets, puts, g-g0, p-p0)
	w.Check(u-u0 == int64(gets)-int64(puts), "stats", "%d agents are out, the pool says %d", int64(gets)-int64(puts), u-u0)
	w.Check(n-n0 == uint64(len(seen)), "stats", "%d agents were created, the pool says %d", len(seen), n-n0)
}

// ---------------------------------------------------------------- P20

func pulsePacing(w *W) {
	period := time.Duration(w.Between(1, 200)) * time.Millisecond
	amp := pick(w, 0.8, 1, 0.3, 2, -1)
	p := strategy.NewPulse(period, amp)
	eff := math.Max(0, math.Min(1, amp))
	t0 := w.Now()
	type call struct {
		from, to time.Duration
		pulse    bool
	}
	var calls []call
	nt := w.Between(1, 4)
	for t := 0; t < nt; t++ {
		var gaps []time.Duration
		for i, n := 0, w.Between(1, 8); i < n; i++ {
			if !w.Keep() {
				continue
			}
			g := time.Duration(float64(period) * pick(w, 0, 0, 0.3, 0.5, 0.99, 1, 1.01, 2))
			gaps = append(gaps, g)
		}
		cur, tgt := w.Unif(0, twoPi), w.Unif(0, twoPi)
		w.Note("t%d %v", t, gaps)
		w.Go(fmt.Sprintf("client%d", t), func() {
			for _, g := range gaps {
				w.Sleep(g)
				from := w.Now()
				act, _ := p.Propose(core.State{Phase: cur}, core.State{Phase: tgt}, core.Context{})
				c := call{from, w.Now(), act.Type == "pulse"}
				calls = append(calls, c)
				if c.pulse {
					w.Probe("pulse")
					w.Check(phaseNear(act.Value, core.PhaseDifference(tgt, cur)*eff), "value", "a pulse from %v to %v with amplitude %v moves by %v", cur, tgt, amp, act.Value)
				} else {
					w.Check(act.Type == "maintain" && act.Value == 0, "value", "between pulses the strategy proposed %v", act)
				}
			}
		})
	}
	w.Wait()
	w.Note("period %v", period)
	sort.SliceStable(calls, func(i, j int) bool { return calls[i].to < calls[j].to })
	var pulses []call
	for _, c := range calls {
		if c.pulse {
			pulses = append(pulses, c)
		}
	}
	// is there an instant within each pulsing call such that all are a period apart?
	used := make([]bool, len(pulses))
	var place func(n int, prev time.Duration) bool
	place = func(n int, prev time.Duration) bool {
		if n == len(pulses) {
			return true
		}
		limit := time.Duration(math.MaxInt64)
		for i, c := range pulses {
			if !used[i] && c.to < limit {
				limit = c.to
			}
		}
		for i, c := range pulses {
			if used[i] || c.from > limit {
				continue
			}
			t := max(c.from, prev+period)
			if t > c.to {
				continue
			}
			used[i] = true
			if place(n+1, t) {
				return true
			}
			used[i] = false
		}
		return false
	}
	w.Check(place(0, t0), "too-soon", "pulses were sent less than the period of %v apart (created at %v): %v", period, t0, pulses)
	// a request well after every earlier pulse has to pulse
	for _, c := range calls {
		if c.pulse || c.from < t0+period {
			continue
		}
		excused := false
		for _, q := range calls {
			if q.pulse && q.to > c.from-period && q.from <= c.to {
				excused = true
			}
		}
		w.Check(excused, "missed", "no pulse was sent at %v..%v although none was sent in the %v before: %v", c.from, c.to, period, calls)
	}
}

// ---------------------------------------------------------------- P21

func entropy(w *W) {
	nt := w.Between(1, 3)
	for t := 0; t < nt; t++ {
		n := w.Between(1, 12)
		var ns []int
		for i := 0; i < n; i++ {
			if !w.Keep() {
				continue
			}
			ns = append(ns, pick(w, 1, 2, 3, 7, 10, 100, 1000, 1<<20, 1<<30, 1<<31-1, 1<<31-2, w.Between(1, 1<<31-1)))
		}
		w.Note("t%d %v", t, ns)
		w.Go(fmt.Sprintf("client%d", t), func() {
			for _, k := range ns {
				v := random.Intn(k)
				w.Check(v >= 0 && v < k, "range", "Intn(%d) returned %d", k, v)
				f := random.Float64()
				w.Check(f >= 0 && f < 1, "range", "Float64 returned %v", f)
				p := random.Phase()
				w.Check(p >= 0 && p < twoPi, "range", "Phase returned %v", p)
				i := random.Intn(1)
				w.Check(i == 0, "range", "Intn(1) returned %d", i)
			}
		})
	}
	w.Wait()
	if w.Rng.Bool(0.02) && rt.Cfg().RandEdge == 0 {
		var quarter [4]int
		var tenth [10]int
		for i := 0; i < 400; i++ {
			quarter[min(3, int(random.Phase()/(math.Pi/2)))]++
			tenth[int(random.Float64()*10)]++
			tenth[random.Intn(10)]++
		}
		for i, n := range quarter {
			w.Check(n > 0, "spread", "none of 400 random phases lies in quarter %d of the circle", i+1)
		}
		for i, n := range tenth {
			w.Check(n > 0, "spread", "none of 800 random numbers is in tenth %d of the range", i+1)
		}
		for _, k := range []int{2, 3, 5} {
			got := map[int]bool{}
			for i := 0; i < 150; i++ {
				got[random.Intn(k)] = true
			}
			w.Check(len(got) == k, "spread", "150 random numbers below %d take %d values", k, len(got))
		}
		for _, k := range []int{100, 1000, 1 << 20, 1 << 30, 3 << 29, 1<<31 - 1} {
			var part [4]int
			for i := 0; i < 100; i++ {
				part[random.Intn(k)/((k+3)/4)]++
			}
			for i, n := range part {
				w.Check(n > 0, "spread", "none of 100 random numbers below %d is in quarter %d of the range", k, i+1)
			}
		}
		fine := map[float64]bool{}
		for i := 0; i < 200; i++ {
			fine[random.Float64()] = true
			fine[-1-random.Phase()] = true
		}
		w.Check(len(fine) > 390, "spread", "400 random phases and floats take only %d values", len(fine))
		w.Probe("spread")
	}
}

// ---------------------------------------------------------------- P22

type fixedStrategy struct {
	act  core.Action
	conf float64
}

func (f *fixedStrategy) Propose(_, _ core.State, _ core.Context) (core.Action, float64) {
	rt.Point("client strategy")
	return f.act, f.conf
}
func (*fixedStrategy) Name() string { return "fixed" }

type fixedDecider struct {
	idx int
	acc float64
}

func (f *fixedDecider) Decide(_ core.State, o []core.Action) (core.Action, float64) {
	rt.Point("client decider")
	return o[f.idx], f.acc
}

// watchedStrategy passes on what a built-in strategy proposes and judges it.
type watchedStrategy struct {
	w     *W
	inner core.SyncStrategy
}

func (s *watchedStrategy) Propose(cur, tgt core.State, ctx core.Context) (core.Action, float64) {
	w := s.w
	act, conf := s.inner.Propose(cur, tgt, ctx)
	in := math.Mod(tgt.Phase-cur.Phase+5*math.Pi, twoPi) - math.Pi // shortest way there
	w.Check(conf >= 0 && conf <= 1, "confidence", "%s proposes with confidence %v", s.inner.Name(), conf)
	fin := func(v float64) bool { return !math.IsNaN(v) && !math.IsInf(v, 0) }
	w.Check(fin(act.Value) && fin(act.Benefit) && fin(act.Cost) && act.Cost >= 0, "proposal", "%s proposes %+v", s.inner.Name(), act)
	w.Check(math.Abs(act.Value) <= math.Abs(in)+1e-9, "overshoot", "%s proposes to move by %v where the goal is %v away", s.inner.Name(), act.Value, in)
	w.Check(act.Value*in >= -1e-9 || math.Abs(in) > math.Pi-1e-6, "wrong-way", "%s proposes to move by %v where the goal is %v away", s.inner.Name(), act.Value, in)
	return act, conf
}
func (s *watchedStrategy) Name() string { return s.inner.Name() }

// watchedDecider remembers what was put before the decision maker.
type watchedDecider struct {
	w       *W
	inner   core.DecisionMaker
	offered map[core.Action]bool
	forced  float64 // acceptance to claim, -1: the decision maker's own
}

func (d *watchedDecider) Decide(st core.State, o []core.Action) (core.Action, float64) {
	for _, a := range o {
		d.offered[a] = true
	}
	act, acc := d.inner.Decide(st, o)
	d.w.Check(acc >= 0 && acc <= 1, "acceptance", "the decision maker accepts with %v", acc)
	one := false
	for _, a := range o {
		one = one || a == act
	}
	d.w.Check(one, "invented", "the decision maker chose %+v, offered were %+v", act, o)
	if d.forced >= 0 {
		acc = d.forced
	}
	return act, acc
}

// bestRatio puts arbitrary options before the built-in decision maker, which
// chooses by the ratio of benefit to cost.
func bestRatio(w *W) {
	one := func() core.Action {
		return core.Action{Type: pick(w, "adjust_phase", "maintain", "frequency_lock"), Value: w.Unif(-3, 3),
			Cost: pick(w, 0.0, 0.05, 0.1, 0.5, 1, w.Unif(0, 5)), Benefit: pick(w, 0.0, 0, -0.5, -2, 0.01, w.Unif(-1, 5))}
	}
	for i, k := 0, w.Between(1, 6); i < k; i++ {
		var o []core.Action
		for j, n := 0, w.Between(1, 5); j < n; j++ {
			o = append(o, one())
		}
		best := math.Inf(-1)
		for _, a := range o {
			best = math.Max(best, a.Benefit/math.Max(a.Cost, 0.1))
		}
		d := &watchedDecider{w: w, inner: &decision.SimpleDecisionMaker{}, offered: map[core.Action]bool{}, forced: -1}
		act, acc := d.Decide(core.State{Coherence: w.Unif(0, 1)}, o)
		w.Check(act.Benefit/math.Max(act.Cost, 0.1) >= best-1e-9, "choice", "of %+v the decision maker chose %+v", o, act)
		w.Check(best > 0 || acc == 0, "choice", "the decision maker accepts %+v, which is no use, with %v", act, acc)
	}
	w.Probe("arbitrary options")
}

func proposals(w *W) {
	stub := pick(w, 0, 0, 0.2, 0.5, 1, 1)
	energy := w.Unif(0, 12)
	opts := []agent.Option{agent.WithEnergy(energy), agent.WithStubbornness(stub)}
	sure, never := false, false
	cost := 0.0
	dm := &watchedDecider{w: w, inner: &decision.SimpleDecisionMaker{}, offered: map[core.Action]bool{}, forced: pick(w, -1.0, -1, -1, 0, 1)}
	if dm.forced == 0 {
		never = true
	}
	withStrategy := func(s core.SyncStrategy) agent.Option { return agent.WithStrategy(&watchedStrategy{w, s}) }
	switch w.Rng.Intn(9) {
	case 8:
		opts = append(opts, agent.WithDecisionMaker(dm), agent.WithStrategy(w.adaptive()))
	case 0:
		opts = append(opts, agent.WithDecisionMaker(dm), withStrategy(&strategy.PhaseNudge{Rate: w.Unif(0, 1)}))
	case 1:
		opts = append(opts, agent.WithDecisionMaker(dm), withStrategy(&strategy.FrequencyLock{SyncRate: w.Unif(0, 1)}))
	case 2:
		opts = append(opts, agent.WithDecisionMaker(dm), withStrategy(&strategy.EnergyAware{Threshold: pick(w, 2.0, 5, 20)}))
	case 3:
		opts = append(opts, agent.WithDecisionMaker(dm), withStrategy(strategy.NewPulse(time.Microsecond, 1)))
	case 4:
		opts = append(opts, agent.WithDecisionMaker(dm), withStrategy(strategy.NewAdaptiveStrategy([]core.SyncStrategy{&strategy.PhaseNudge{Rate: 0.3}, strategy.NewPulse(time.Microsecond, 1)})))
	default:
		cost = float64(w.Between(0, 8))
		fs := pick(w, 1.0, 1, 1, 0)
		opts = append(opts, agent.WithStrategy(&fixedStrategy{core.Action{Type: "adjust_phase", Value: 0.5, Cost: cost, Benefit: 3}, fs}))
		fd := &fixedDecider{pick(w, 0, 0, 0, 1), pick(w, 1.0, 1, 1, 0)}
		if fd.idx == 1 {
			cost = 0.1
		}
		dm.inner = fd
		dm.forced = -1
		sure = stub == 0 && fs == 1 && fd.acc == 1
		never = fs == 0 || fd.acc == 0
		opts = append(opts, agent.WithDecisionMaker(dm))
	}
	if w.Rng.Bool(0.2) {
		bestRatio(w)
	}
	a := agent.New("a", opts...)
	a.SetEnergy(energy)
	quarters := w.Rng.Bool(0.3)
	if quarters { // exactly where angles are special
		q := func() float64 {
			return pick(w, 0, math.Pi/2, math.Pi, 3*math.Pi/2, math.Nextafter(twoPi, 0), 1e-12, w.Unif(0, twoPi))
		}
		a.SetPhase(q())
		a.SetLocalGoal(q())
	}
	for i := 0; i < w.Between(0, 3); i++ {
		n := agent.New(fmt.Sprintf("n%d", i))
		a.ConnectTo(n.ID, n)
	}
	nt := w.Between(1, 3)
	spend := w.Rng.Bool(0.6)
	for t := 0; t < nt; t++ {
		n := w.Between(1, 5)
		k := 0
		for i := 0; i < n; i++ {
			if w.Keep() {
				k++
			}
		}
		w.Go(fmt.Sprintf("client%d", t), func() {
			for i := 0; i < k; i++ {
				a.UpdateContext()
				before := a.Energy()
				p0, f0 := a.Phase(), a.Frequency()
				act, ok := a.ProposeAdjustment(core.State{Phase: 1, Coherence: 0.9, Frequency: time.Second})
				after := a.Energy()
				if !ok {
					w.Probe("declined")
					w.Check(act.Type == "maintain", "declined", "a declined adjustment was returned as %v", act)
					w.Check(!sure || after < cost, "refused", "a willing agent with energy %v declined an adjustment of cost %v", after, cost)
				} else {
					w.Probe("accepted")
					w.Check(!never, "unwilling", "an agent whose strategy or decision maker gives %v no chance accepted it", act)
					w.Check(dm.offered[act], "invented", "the agent accepted %+v, which was not among the options", act)
					w.Check(stub < 1, "stubborn", "a fully stubborn agent accepted %v", act)
					w.Check(act.Cost <= before, "unaffordable", "an agent with energy %v accepted an adjustment of cost %v", before, act.Cost)
				}
				if !spend {
					w.Check(before == after && a.Phase() == p0 && a.Frequency() == f0, "side-effect", "proposing an adjustment changed the agent (energy %v to %v, phase %v to %v)", before, after, p0, a.Phase())
				} else if ok {
					done, c, err := a.ApplyAction(act)
					w.Check((done && err == nil && c == act.Cost) || (!done && err != nil && c == 0), "outcome", "applying %v returned %v, %v, %v", act, done, c, err)
					if nt == 1 {
						w.Check(done, "unaffordable", "the adjustment %v the agent accepted with energy %v could not be applied: %v", act, before, err)
					}
				}
			}
		})
	}
	w.Note("stubbornness %v energy %v clients %d spend %v cost %v sure %v", stub, energy, nt, spend, cost, sure)
	w.Wait()
	w.Check(a.Energy() >= 0, "negative", "energy is %v", a.Energy())
}

// noted remembers that it was asked, and what it answered.
type noted struct {
	core.SyncStrategy
	asked int
	act   core.Action
	conf  float64
}

func (n *noted) Propose(cur, tgt core.State, ctx core.Context) (core.Action, float64) {
	act, conf := n.SyncStrategy.Propose(cur, tgt, ctx)
	n.asked++
	n.act, n.conf = act, conf
	return act, conf
}

// adaptiveProbe asks an adaptive strategy alone and judges whom it asks.
type adaptiveProbe struct {
	w      *W
	choice func(core.Context) int
	n      int
	own    bool
	rates  []float64

	stable, coherent float64
}

func (p *adaptiveProbe) Name() string { return "adaptive" }

func (p *adaptiveProbe) Propose(cur, tgt core.State, ctx core.Context) (core.Action, float64) {
	w := p.w
	if p.stable >= 0 { // what an agent perceives is never this stable
		ctx.Stability, ctx.LocalCoherence = p.stable, p.coherent
	}
	var list []core.SyncStrategy
	var ns []*noted
	for _, r := range p.rates {
		n := &noted{SyncStrategy: &strategy.PhaseNudge{Rate: r}}
		ns, list = append(ns, n), append(list, n)
	}
	s := strategy.NewAdaptiveStrategy(list)
	want := -1
	if p.own {
		k := p.choice(ctx)
		s = s.WithSelector(func(core.Context) int { return k })
		want = k
		if k < 0 || k >= len(list) {
			want = 0
		}
	} else {
		switch {
		case ctx.Stability > 0.7:
			want = 0
		case ctx.LocalCoherence > 0.5:
			want = min(1, len(list)-1)
		default:
			want = min(2, len(list)-1)
		}
	}
	act, conf := s.Propose(cur, tgt, ctx)
	if len(list) == 0 {
		w.Check(act.Type == "maintain" && act.Value == 0, "adaptive", "without any strategy to choose from, %+v was proposed", act)
		w.Probe("adaptive: none")
		return act, conf
	}
	for i, n := range ns {
		asked := 0
		if i == want {
			asked = 1
		}
		w.Check(n.asked == asked, "adaptive", "of %d strategies number %d was to be chosen, number %d was asked %d times", len(ns), want, i, n.asked)
	}
	w.Check(act == ns[want].act && conf == ns[want].conf, "adaptive", "the chosen strategy proposed %+v, the adaptive one %+v", ns[want].act, act)
	w.Probe("adaptive")
	return act, conf
}

func (w *W) adaptive() core.SyncStrategy {
	p := &adaptiveProbe{w: w, own: w.Rng.Bool(0.6), stable: -1}
	if w.Rng.Bool(0.7) {
		p.stable, p.coherent = pick(w, 0, 0.7, 0.71, w.Unif(0, 1), 1), pick(w, 0, 0.5, 0.51, w.Unif(0, 1), 1)
	}
	for i, n := 0, w.Between(0, 4); i < n; i++ {
		p.rates = append(p.rates, 0.1*float64(i+1))
	}
	k := w.Between(-3, 6)
	p.choice = func(core.Context) int { return k }
	return p
}
