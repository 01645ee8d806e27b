package main

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/resource"
)

const twoPi = 2 * math.Pi

const agentReal = "emerge/agent, emerge/core, emerge/decision, emerge/goal, emerge/strategy, internal/random, internal/resource"
const agentStub = "Go scheduler, sync, sync/atomic, time and crypto/rand are the simulator's"

func init() {
	register(&Scenario{Prop: "P01", Name: "agent-registers", Run: agentRegisters, Fine: 0.2, MaxSteps: 200000, MaxTime: time.Hour,
		StallMax: 10 * time.Millisecond, Freeze: true, Quick: 300000, Thorough: 6000000, Real: agentReal, Stub: agentStub})
	register(&Scenario{Prop: "P01", Name: "state-cells", Run: stateCells, Fine: 0.2, MaxSteps: 200000, MaxTime: time.Hour,
		StallMax: 10 * time.Millisecond, Quick: 150000, Thorough: 4000000, Real: agentReal, Stub: agentStub})
	register(&Scenario{Prop: "P02", Name: "agent-energy", Run: agentEnergy, Fine: 0.2, MaxSteps: 200000, MaxTime: time.Hour,
		StallMax: 10 * time.Millisecond, Freeze: true, Quick: 300000, Thorough: 6000000, Real: agentReal, Stub: agentStub})
	register(&Scenario{Prop: "P03", Name: "agent-wellformed", Run: agentWellFormed, Fine: 0.2, MaxSteps: 400000, MaxTime: time.Hour,
		StallMax: 10 * time.Millisecond, Freeze: true, RandEdge: true, Quick: 150000, Thorough: 4000000, Real: agentReal, Stub: agentStub})
	register(&Scenario{Prop: "P04", Name: "tokens", Run: tokens, Fine: 0.3, MaxSteps: 200000, MaxTime: time.Hour,
		StallMax: 10 * time.Millisecond, Quick: 300000, Thorough: 6000000, Real: "internal/resource", Stub: agentStub})
	register(&Scenario{Prop: "P05", Name: "neighbours", Run: neighbours, Fine: 0.3, MaxSteps: 200000, MaxTime: time.Hour,
		StallMax: 10 * time.Millisecond, Quick: 300000, Thorough: 6000000, Real: agentReal, Stub: agentStub})
	register(&Scenario{Prop: "P05", Name: "agent-links", Run: agentLinks, Fine: 0.2, MaxSteps: 400000, MaxTime: time.Hour,
		StallMax: 10 * time.Millisecond, Quick: 150000, Thorough: 3000000, Real: agentReal, Stub: agentStub})
}

// ---------------------------------------------------------------- P01

type regOp struct {
	write bool
	v     float64
}

func regStep(st any, o *Op) (bool, any) {
	in := o.In.(regOp)
	if in.write {
		return true, in.v
	}
	// phases are kept with rounding; written values are 0.01 apart or more
	return math.Abs(o.Out.(float64)-st.(float64)) < 1e-6, st
}

func fkey(st any) string { return fmt.Sprintf("%x", math.Float64bits(st.(float64))) }

var fieldNames = []string{"phase", "energy", "goal", "frequency", "influence", "stubbornness"}

func setField(a *agent.Agent, f int, v float64) {
	switch f {
	case 0:
		a.SetPhase(v)
	case 1:
		a.SetEnergy(v)
	case 2:
		a.SetLocalGoal(v)
	case 3:
		a.SetFrequency(time.Duration(v))
	case 4:
		a.SetInfluence(v)
	case 5:
		a.SetStubbornness(v)
	}
}

func getField(a *agent.Agent, f int) float64 {
	switch f {
	case 0:
		return a.Phase()
	case 1:
		return a.Energy()
	case 2:
		return a.LocalGoal()
	case 3:
		return float64(a.Frequency())
	case 4:
		return a.Influence()
	default:
		return a.Stubbornness()
	}
}

func fieldVal(f, uniq int) float64 {
	switch f {
	case 0, 2:
		return 0.01 + float64(uniq)*0.01
	case 1:
		return 100 + float64(uniq)
	case 3:
		return float64(1000 + uniq)
	default:
		return float64(uniq) / 1024
	}
}

func agentRegisters(w *W) {
	a := agent.New("a")
	var others []*agent.Agent
	ctxOps := w.Rng.Bool(0.4)
	if ctxOps {
		for i := 0; i < w.Between(1, 3); i++ {
			n := agent.New(fmt.Sprintf("n%d", i))
			others = append(others, n)
			a.ConnectTo(n.ID, n)
		}
	}
	hs := make([]*Hist, 6)
	init := make([]float64, 6)
	for f := range hs {
		hs[f] = &Hist{w: w}
		init[f] = getField(a, f)
	}
	nt := w.Between(2, 4)
	uniq := 0
	// a storm: one write among very many of a neighbouring attribute
	storm := w.storm()
	group := pick(w, []int{0, 1, 2, 3}, []int{4, 5})
	w0 := w.Rng.Intn(len(group))
	victim := group[w0]
	if storm {
		nt = len(group)
		w.Probe("storm")
	}
	type act struct{ kind, f, v int }
	// concentrate on few fields so that operations of a run interact
	fs := []int{w.Rng.Intn(6)}
	for len(fs) < w.Between(1, 3) {
		fs = append(fs, w.Rng.Intn(6))
	}
	for t := 0; t < nt; t++ {
		var plan []act
		n := w.Between(1, 5)
		if storm {
			n = pick(w, 5, 40, 150)
			if t == 0 {
				n = 2
			}
		}
		for i := 0; i < n; i++ {
			if !w.Keep() {
				continue
			}
			if storm {
				// each other client has an attribute of its own
				f := group[(t+w0)%len(group)]
				if t > 0 {
					plan = append(plan, act{3, f, i})
					continue
				}
				uniq++
				plan = append(plan, act{0, f, uniq})
				continue
			}
			f := fs[w.Rng.Intn(len(fs))]
			switch k := w.Rng.Intn(10); {
			case k < 6:
				uniq++
				plan = append(plan, act{0, f, uniq})
			case k < 9 || !ctxOps:
				plan = append(plan, act{1, f, 0})
			default:
				plan = append(plan, act{2, 0, 0})
			}
		}
		w.Note("t%d %v", t, plan)
		own := init[group[(t+w0)%len(group)]]
		w.Go(fmt.Sprintf("client%d", t), func() {
			for _, p := range plan {
				switch p.kind {
				case 0:
					v := fieldVal(p.f, p.v)
					o := hs[p.f].Begin(regOp{true, v}, fmt.Sprintf("set %s=%v", fieldNames[p.f], v))
					setField(a, p.f, v)
					hs[p.f].End(o, "ok")
				case 1:
					o := hs[p.f].Begin(regOp{}, "get "+fieldNames[p.f])
					hs[p.f].End(o, getField(a, p.f))
				case 2:
					a.UpdateContext()
				case 3: // in a storm only this client writes this attribute
					v := getField(a, p.f)
					w.Check(math.Abs(v-own) < 1e-6, "lost-update", "only one client writes the %s; it wrote %v and now reads %v", fieldNames[p.f], own, v)
					own = fieldVal(p.f, p.v)
					setField(a, p.f, own)
				}
			}
		})
	}
	w.Wait()
	for f := range hs {
		if storm && f != victim {
			continue
		}
		o := hs[f].Begin(regOp{}, "final get "+fieldNames[f])
		hs[f].End(o, getField(a, f))
		if f == 2 && ctxOps && !storm {
			continue // sensing rewrites the local goal
		}
		ok, _ := Linearizable(hs[f].Ops, init[f], regStep, fkey)
		w.Check(ok, "lost-update", "concurrent updates of one agent: no order of the %s operations explains what was read (initially %v):%s", fieldNames[f], init[f], hs[f].Format())
	}
}

func stateCells(w *W) {
	st := agent.NewAtomicState()
	be := agent.NewAtomicBehavior()
	nt := w.Between(2, 4)
	storm := w.storm()
	if storm {
		nt = w.Between(3, 6)
		w.Probe("storm")
	}
	var wantE, wantP, wantF, wantI float64
	for t := 0; t < nt; t++ {
		var plan []int
		n := w.Between(1, 4)
		if storm {
			n = pick(w, 10, 50, 200)
			if t == 0 {
				n = w.Between(1, 4)
			}
		}
		for i := 0; i < n; i++ {
			if !w.Keep() {
				continue
			}
			k := w.Rng.Intn(5)
			plan = append(plan, k)
			switch k {
			case 0:
				wantE++
			case 1:
				wantP++
			case 2:
				wantF++
			case 3:
				wantI++
			}
		}
		w.Note("t%d %v", t, plan)
		w.Go(fmt.Sprintf("client%d", t), func() {
			last := -1.0
			for _, k := range plan {
				switch k {
				case 0:
					st.Update(func(s *agent.StateData) { s.Energy++ })
				case 1:
					st.Update(func(s *agent.StateData) { s.Phase++ })
				case 2:
					st.Update(func(s *agent.StateData) { s.Frequency++ })
				case 3:
					be.Update(func(b *agent.BehaviorData) { b.Influence++ })
				case 4:
					e := st.Load().Energy
					w.Check(e >= last, "went-back", "a counter only incremented was read as %v after %v", e, last)
					last = e
				}
			}
		})
	}
	w.Wait()
	s, b := st.Load(), be.Load()
	w.Check(s.Energy == wantE, "lost-update", "%v concurrent increments of energy left %v", wantE, s.Energy)
	w.Check(s.Phase == wantP, "lost-update", "%v concurrent increments of phase left %v", wantP, s.Phase)
	w.Check(float64(s.Frequency) == wantF, "lost-update", "%v concurrent increments of frequency left %v", wantF, float64(s.Frequency))
	w.Check(b.Influence == wantI, "lost-update", "%v concurrent increments of influence left %v", wantI, b.Influence)
}

// ---------------------------------------------------------------- P02

type enOp struct {
	kind  int // 0 apply, 1 set energy, 2 read energy, 3 read phase
	typ   string
	cost  float64
	shift float64
}
type enOut struct {
	ok   bool
	cost float64
	err  int // 0 none 1 energy 2 unknown 3 other
	v    float64
}
type enState struct{ e, p float64 }

func phaseNear(a, b float64) bool {
	d := math.Abs(a - b)
	return d < 1e-6 || math.Abs(d-twoPi) < 1e-6
}

func enStep(st any, o *Op) (bool, any) {
	s := st.(enState)
	in, out := o.In.(enOp), o.Out.(enOut)
	switch in.kind {
	case 0:
		if out.err != 0 {
			if out.ok || out.cost != 0 {
				return false, s
			}
			return (out.err == 1 && in.cost > s.e) || (out.err == 2 && in.typ == "bogus"), s
		}
		if !out.ok || out.cost != in.cost || in.typ == "bogus" || in.cost > s.e {
			return false, s
		}
		s.e -= in.cost
		if in.typ != "maintain" {
			s.p = math.Mod(s.p+in.shift+4*math.Pi, twoPi)
		}
		return true, s
	case 1:
		s.e = math.Max(0, in.cost)
		return true, s
	case 2:
		return out.v == s.e, s
	default:
		return phaseNear(out.v, s.p), s
	}
}

func enKey(st any) string {
	s := st.(enState)
	return fmt.Sprintf("%v|%.6f", s.e, s.p)
}

func agentEnergy(w *W) {
	budget := float64(w.Between(0, 12))
	if w.Rng.Bool(0.1) {
		budget = float64(w.Between(0, 100))
	}
	if w.Rng.Bool(0.15) {
		budget = float64(w.Between(0, 8)) / 8
	}
	custom := w.Rng.Bool(0.6)
	var a *agent.Agent
	var rm *resource.TokenManager
	if custom {
		rm = resource.NewTokenManager(budget)
		a = agent.New("a", agent.WithResourceManager(rm))
	} else {
		a = agent.New("a", agent.WithEnergy(budget))
	}
	a.SetPhase(1)
	topups := w.Rng.Bool(0.3)
	h := &Hist{w: w}
	spent := 0.0
	moved := 0.0
	nt := w.Between(2, 4)
	// a storm: one action among very many others
	storm := w.storm()
	if storm {
		nt = w.Between(4, 6)
		topups = false
		w.Probe("storm")
	}
	types := []string{"adjust_phase", "phase_nudge", "frequency_lock", "energy_save", "pulse", "maintain", "bogus"}
	for t := 0; t < nt; t++ {
		var plan []enOp
		n := w.Between(1, 4)
		if storm {
			n = pick(w, 5, 30, 80)
			if t == 0 {
				n = 1
			}
		}
		for i := 0; i < n; i++ {
			if !w.Keep() {
				continue
			}
			if storm {
				plan = append(plan, enOp{kind: 0, typ: types[w.Rng.Intn(5)], cost: pick(w, 0.0, 0, 1), shift: float64(w.Between(-20, 20)) / 100})
				continue
			}
			switch k := w.Rng.Intn(10); {
			case k < 6:
				cost := float64(w.Between(0, 8))
				if w.Rng.Bool(0.15) { // a little more than what is left, perhaps
					cost = pick(w, cost, cost/8, budget) + 1/float64(int(1)<<w.Between(4, 30))
				}
				plan = append(plan, enOp{kind: 0, typ: types[w.Rng.Intn(len(types))], cost: cost, shift: float64(w.Between(-200, 200)) / 100})
			case k < 7 && topups:
				plan = append(plan, enOp{kind: 1, cost: float64(w.Between(-2, 10))})
			case k < 9:
				plan = append(plan, enOp{kind: 2})
			default:
				plan = append(plan, enOp{kind: 3})
			}
		}
		w.Note("t%d %v", t, plan)
		w.Go(fmt.Sprintf("client%d", t), func() {
			for _, p := range plan {
				switch p.kind {
				case 0:
					o := h.Begin(p, fmt.Sprintf("apply %s cost=%v shift=%v", p.typ, p.cost, p.shift))
					ok, c, err := a.ApplyAction(core.Action{Type: p.typ, Cost: p.cost, Value: p.shift})
					e := 0
					switch {
					case errors.Is(err, core.ErrInsufficientEnergy):
						e = 1
						w.Probe("refused: energy")
					case errors.Is(err, core.ErrUnknownActionType):
						e = 2
					case err != nil:
						e = 3
					default:
						spent += c
						if p.typ != "maintain" {
							moved += p.shift
						}
						w.Probe("applied")
					}
					h.End(o, enOut{ok: ok, cost: c, err: e})
				case 1:
					o := h.Begin(p, fmt.Sprintf("set energy %v", p.cost))
					a.SetEnergy(p.cost)
					h.End(o, enOut{})
				case 2:
					o := h.Begin(p, "energy")
					h.End(o, enOut{v: a.Energy()})
				default:
					o := h.Begin(p, "phase")
					h.End(o, enOut{v: a.Phase()})
				}
			}
		})
	}
	w.Wait()
	for _, k := range []int{2, 3} {
		p := enOp{kind: k}
		o := h.Begin(p, []string{"", "", "final energy", "final phase"}[k])
		v := a.Energy()
		if k == 3 {
			v = a.Phase()
		}
		h.End(o, enOut{v: v})
		w.Check(v >= 0, "negative", "energy or phase is negative: %v", v)
	}
	if !topups {
		w.Check(a.Energy() == budget-spent, "energy", "energy was %v, accepted actions cost %v, yet %v is left:%s", budget, spent, a.Energy(), h.Format())
		w.Check(phaseNear(a.Phase(), math.Mod(1+moved+8*twoPi, twoPi)), "energy", "phase was 1, accepted actions move it by %v, yet it is %v:%s", moved, a.Phase(), h.Format())
	}
	if storm {
		h.Ops = nil // too long a history; the totals above decide
	}
	ok, _ := Linearizable(h.Ops, enState{e: budget, p: 1}, enStep, enKey)
	w.Check(ok, "energy", "concurrent actions on one agent with energy %v: no sequential order of the actions explains the outcomes:%s", budget, h.Format())
	if !topups && rm != nil {
		w.Check(rm.Available() == budget-spent, "tokens", "the resource pool had %v, successful actions cost %v, yet %v are left:%s", budget, spent, rm.Available(), h.Format())
	}
	if !topups {
		w.Check(spent <= budget, "overspent", "actions costing %v were accepted with a budget of %v:%s", spent, budget, h.Format())
	}
}

// ---------------------------------------------------------------- P03

var oddFloats = []float64{0, math.Copysign(0, -1), 1e-320, -1e-320, 1e-17, -1e-17, math.Pi, -math.Pi, twoPi, -twoPi, 4 * math.Pi, -4 * math.Pi, 100, -100, 1e6, -1e6, 1e18, -1e18, 1e300, -1e300,
	math.Nextafter(twoPi, 0), math.Nextafter(twoPi, 10), math.Nextafter(0, -1), 0.5, 1, -1, 1 + 1e-16, 2}

func (w *W) odd() float64 {
	if w.Rng.Bool(0.5) {
		return oddFloats[w.Rng.Intn(len(oddFloats))]
	}
	switch w.Rng.Intn(3) {
	case 0:
		return w.Unif(-10, 10)
	case 1:
		return w.Unif(-1, 1) * math.Pow(10, w.Unif(-20, 20))
	default:
		return w.Unif(-1, 1) * 1e3 * math.Pi
	}
}

func (w *W) wellFormed(a *agent.Agent) {
	in := func(what string, v, lo, hi float64) {
		w.Check(v >= lo && v <= hi, "ill-formed", "%s of agent %s is %v, outside [%v, %v]", what, a.ID, v, lo, hi)
	}
	in("phase", a.Phase(), 0, twoPi)
	in("local goal", a.LocalGoal(), 0, twoPi)
	in("energy", a.Energy(), 0, math.MaxFloat64)
	in("influence", a.Influence(), 0, 1)
	in("stubbornness", a.Stubbornness(), 0, 1)
}

// ctxStrategy is a client's strategy: it checks what agents perceive.
type ctxStrategy struct {
	w    *W
	gain float64
}

func (c *ctxStrategy) Propose(cur, tgt core.State, ctx core.Context) (core.Action, float64) {
	w := c.w
	w.Check(ctx.LocalCoherence >= 0 && ctx.LocalCoherence <= 1+1e-9, "ill-formed", "an agent perceived a local coherence of %v", ctx.LocalCoherence)
	w.Check(cur.Coherence >= 0 && cur.Coherence <= 1+1e-9, "ill-formed", "an agent reported its local coherence as %v", cur.Coherence)
	w.Check(cur.Phase >= 0 && cur.Phase <= twoPi && tgt.Phase >= 0 && tgt.Phase <= twoPi, "ill-formed", "an agent reasons about phase %v and goal %v", cur.Phase, tgt.Phase)
	w.Check(ctx.Neighbors >= 0, "ill-formed", "an agent perceives %d neighbours", ctx.Neighbors)
	d := core.PhaseDifference(tgt.Phase, cur.Phase)
	return core.Action{Type: "adjust_phase", Value: d * c.gain, Cost: math.Abs(d), Benefit: 1}, 0.9
}
func (*ctxStrategy) Name() string { return "client" }

func agentWellFormed(w *W) {
	n := w.Between(1, 3)
	var as []*agent.Agent
	for i := 0; i < n; i++ {
		var opts []agent.Option
		desc := ""
		add := func(name string, f func(float64) agent.Option) {
			if w.Rng.Bool(0.4) {
				v := w.odd()
				opts = append(opts, f(v))
				desc += fmt.Sprintf(" %s=%v", name, v)
			}
		}
		add("phase", agent.WithPhase)
		add("goal", agent.WithLocalGoal)
		add("energy", agent.WithEnergy)
		add("influence", agent.WithInfluence)
		add("stubbornness", agent.WithStubbornness)
		if w.Rng.Bool(0.3) {
			opts = append(opts, agent.WithRandomPhase(), agent.WithRandomLocalGoal(), agent.WithRandomFrequency())
		}
		if w.Rng.Bool(0.7) {
			opts = append(opts, agent.WithStrategy(&ctxStrategy{w, w.Unif(-2, 3)}))
		}
		opts = append(opts, agent.WithSwarmInfo(n, 0))
		a := agent.New(fmt.Sprintf("a%d", i), opts...)
		w.Note("agent%d%s", i, desc)
		w.wellFormed(a)
		as = append(as, a)
	}
	nt := w.Between(2, 4)
	for t := 0; t < nt; t++ {
		var plan []func()
		for i, k := 0, w.Between(1, 7); i < k; i++ {
			if !w.Keep() {
				continue
			}
			a := as[w.Rng.Intn(n)]
			b := as[w.Rng.Intn(n)]
			v, c := w.odd(), math.Abs(w.odd())
			op := w.Rng.Intn(12)
			typ := pick(w, "adjust_phase", "phase_nudge", "frequency_lock", "energy_save", "pulse", "maintain")
			w.Note("t%d op%d %s %v %v", t, op, a.ID, v, c)
			plan = append(plan, func() {
				switch op {
				case 0:
					a.SetPhase(v)
				case 1:
					a.SetLocalGoal(v)
				case 2:
					a.SetEnergy(v)
				case 3:
					a.SetInfluence(v)
				case 4:
					a.SetStubbornness(v)
				case 5, 6:
					_, _, _ = a.ApplyAction(core.Action{Type: typ, Value: v, Cost: c})
				case 7:
					a.UpdateContext()
				case 8, 9:
					act, ok := a.ProposeAdjustment(core.State{Phase: 1, Coherence: 0.9, Frequency: time.Second})
					if ok {
						_, _, _ = a.ApplyAction(act)
					}
				case 10:
					a.ConnectTo(b.ID, b)
				default:
					a.DisconnectFrom(b.ID)
				}
				w.wellFormed(a)
				w.wellFormed(b)
			})
		}
		w.Go(fmt.Sprintf("client%d", t), func() {
			for _, f := range plan {
				f()
			}
		})
	}
	w.Wait()
	for _, a := range as {
		w.wellFormed(a)
	}
}

// ---------------------------------------------------------------- P04

type tokOp struct {
	kind int
	v    float64
}

func tokens(w *W) {
	max := float64(w.Between(-1, 12))
	// a storm: one request among very many others; only requests, or only
	// releases after everything was taken, so that the total is known
	storm := w.storm()
	if storm {
		max = float64(w.Between(20, 200))
	}
	tm := resource.NewTokenManager(max)
	eff := math.Max(0, max)
	h := &Hist{w: w}
	nt := w.Between(2, 4)
	total, back := 0.0, w.Rng.Bool(0.5)
	if storm {
		nt = w.Between(4, 6)
		w.Probe("storm")
		if back {
			w.Check(tm.Request(max) == max, "tokens", "a full pool of %v did not grant that much", max)
		}
	}
	for t := 0; t < nt; t++ {
		var plan []tokOp
		n := w.Between(1, 5)
		if storm {
			n = pick(w, 5, 30, 80)
			if t == 0 {
				n = 1
			}
		}
		for i := 0; i < n; i++ {
			if !w.Keep() {
				continue
			}
			if storm {
				v := float64(w.Between(0, 2))
				k := 0
				if back {
					k = 1
				}
				total += v
				plan = append(plan, tokOp{k, v})
				continue
			}
			k := pick(w, 0, 0, 0, 1, 1, 2)
			v := float64(w.Between(-1, 9))
			if w.Rng.Bool(0.3) { // sums of these are exact
				v = pick(w, 0.5, 0.25, 1.0/(1<<31), 3+1.0/(1<<31), float64(w.Between(0, 4096))/1024)
			}
			plan = append(plan, tokOp{k, v})
		}
		w.Note("t%d %v", t, plan)
		w.Go(fmt.Sprintf("client%d", t), func() {
			for _, p := range plan {
				switch p.kind {
				case 0:
					o := h.Begin(p, fmt.Sprintf("request %v", p.v))
					h.End(o, tm.Request(p.v))
				case 1:
					o := h.Begin(p, fmt.Sprintf("release %v", p.v))
					tm.Release(p.v)
					h.End(o, 0.0)
				default:
					o := h.Begin(p, "available")
					h.End(o, tm.Available())
				}
			}
		})
	}
	w.Wait()
	o := h.Begin(tokOp{kind: 2}, "final available")
	h.End(o, tm.Available())
	if storm {
		want := math.Max(0, max-total)
		if back {
			want = math.Min(max, total)
		}
		w.Check(tm.Available() == want, "tokens", "resource pool of %v, %v requested or (%v) released in all: %v available instead of %v", max, total, back, tm.Available(), want)
		return
	}
	ok, _ := Linearizable(h.Ops, eff, func(st any, o *Op) (bool, any) {
		s, in, out := st.(float64), o.In.(tokOp), o.Out.(float64)
		switch in.kind {
		case 0:
			g := math.Min(math.Max(0, in.v), s)
			return out == g, s - g
		case 1:
			return true, math.Min(s+math.Max(0, in.v), eff)
		default:
			return out == s, s
		}
	}, fkey)
	w.Check(ok, "tokens", "resource pool of %v: no sequential order explains what was granted:%s", max, h.Format())
}

// ---------------------------------------------------------------- P05

type nbOp struct {
	kind int // 0 store 1 load 2 delete 3 count 4 all 5 range 6 clear
	id   string
	ver  int
}

func nbFmt(m map[string]int) string {
	var ks []string
	for k, v := range m {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func nbParse(s string) map[string]int {
	m := map[string]int{}
	if s == "" {
		return m
	}
	for _, p := range strings.Split(s, ",") {
		k, v, _ := strings.Cut(p, "=")
		n := 0
		_, _ = fmt.Sscanf(v, "%d", &n)
		m[k] = n
	}
	return m
}

// nbStep: states and outputs are canonical strings "id=version,...".
func nbStep(cap int) func(st any, o *Op) (bool, any) {
	return func(st any, o *Op) (bool, any) {
		s, in := st.(string), o.In.(nbOp)
		out := fmt.Sprint(o.Out)
		m := nbParse(s)
		switch in.kind {
		case 0:
			_, had := m[in.id]
			if had || len(m) < cap {
				m[in.id] = in.ver
				return out == "true" || out == "?", nbFmt(m)
			}
			return out == "false" || out == "?", s
		case 1:
			v, had := m[in.id]
			if !had {
				return out == "none", s
			}
			return out == fmt.Sprint(v) || out == "some", s
		case 2:
			delete(m, in.id)
			return true, nbFmt(m)
		case 3:
			return out == fmt.Sprint(len(m)), s
		case 4:
			return out == s, s
		case 5:
			return out == s, s
		case 9: // going through them until told to stop
			return out == fmt.Sprint(min(in.ver, len(m))), s
		default:
			return true, ""
		}
	}
}

func skey(st any) string { return st.(string) }

func neighbours(w *W) {
	cp := w.Between(1, 4)
	if w.Rng.Bool(0.05) {
		cp = w.Between(-1, 0)
	}
	ns := agent.NewNeighborStorage(cp)
	if cp <= 0 {
		cp = 20
	}
	ids := []string{"a", "b", "c", "d", "e"}[:w.Between(2, 5)]
	ag := map[*agent.Agent]string{}
	ver := 0
	init := map[string]int{}
	if w.Rng.Bool(0.15) { // many neighbours to begin with
		cp = w.Between(1, 40)
		ns = agent.NewNeighborStorage(cp)
		for i, n := 0, w.Between(0, cp); i < n; i++ {
			id := fmt.Sprintf("%c%d", 'a'+i%26, i/26)
			if i < len(ids) {
				id = ids[i]
			}
			ver++
			a := &agent.Agent{ID: id}
			ag[a] = fmt.Sprintf("%s=%d", id, ver)
			init[id] = ver
			w.Check(ns.Store(id, a), "registry", "neighbour %d does not fit into a registry of capacity %d", i+1, cp)
		}
		w.Probe("many at first")
	}
	h := &Hist{w: w}
	nt := w.Between(2, 4)
	var kept [][]*agent.Agent
	var was []string
	names := func(l []*agent.Agent) string {
		var out []string
		for _, a := range l {
			if a == nil {
				out = append(out, "nil")
			} else {
				out = append(out, ag[a])
			}
		}
		sort.Strings(out)
		return strings.Join(out, ",")
	}
	for t := 0; t < nt; t++ {
		type step struct {
			op nbOp
			a  *agent.Agent
		}
		var plan []step
		for i, n := 0, w.Between(1, 5); i < n; i++ {
			if !w.Keep() {
				continue
			}
			op := nbOp{kind: pick(w, 0, 0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 9), id: ids[w.Rng.Intn(len(ids))]}
			if op.kind == 9 {
				op.ver = w.Between(1, 3)
			}
			var a *agent.Agent
			if op.kind == 0 {
				ver++
				op.ver = ver
				a = &agent.Agent{ID: op.id}
				ag[a] = fmt.Sprintf("%s=%d", op.id, ver)
			}
			plan = append(plan, step{op, a})
			w.Note("t%d %v", t, op)
		}
		w.Go(fmt.Sprintf("client%d", t), func() {
			for _, p := range plan {
				o := h.Begin(p.op, fmt.Sprintf("%s(%s)", []string{"store", "load", "delete", "count", "all", "range", "clear", "", "", "range until told to stop"}[p.op.kind], p.op.id))
				switch p.op.kind {
				case 0:
					h.End(o, ns.Store(p.op.id, p.a))
				case 1:
					a, ok := ns.Load(p.op.id)
					if !ok {
						h.End(o, "none")
					} else {
						_, v, _ := strings.Cut(ag[a], "=")
						h.End(o, v)
					}
				case 2:
					ns.Delete(p.op.id)
					h.End(o, "ok")
				case 3:
					h.End(o, ns.Count())
				case 4:
					l := ns.All()
					kept, was = append(kept, l), append(was, names(l))
					h.End(o, names(l))
				case 5:
					var out []string
					ns.Range(func(id string, a *agent.Agent) bool {
						s := "nil"
						if a != nil {
							s = ag[a]
						}
						if !strings.HasPrefix(s, id+"=") {
							s = id + "~" + s
						}
						out = append(out, s)
						return true
					})
					sort.Strings(out)
					h.End(o, strings.Join(out, ","))
				case 9:
					asked := 0
					ns.Range(func(string, *agent.Agent) bool {
						asked++
						return asked < p.op.ver
					})
					h.End(o, asked)
				default:
					ns.Clear()
					h.End(o, "ok")
				}
			}
		})
	}
	w.Wait()
	// a list once given belongs to whoever asked for it
	for i, l := range kept {
		w.Check(names(l) == was[i], "list", "a list of neighbours given out as %s has become %s", was[i], names(l))
		clear(l)
	}
	o := h.Begin(nbOp{kind: 3}, "final count")
	h.End(o, ns.Count())
	o = h.Begin(nbOp{kind: 4}, "final list")
	h.End(o, names(ns.All()))
	ok, _ := Linearizable(h.Ops, nbFmt(init), nbStep(cp), skey)
	w.Check(ok, "registry", "neighbour registry of capacity %d: no sequential order explains the history:%s", cp, h.Format())
}

// viewStrategy is a client's strategy that records what its agent perceives.
type viewStrategy struct{ n int }

func (v *viewStrategy) Propose(_, _ core.State, ctx core.Context) (core.Action, float64) {
	v.n = ctx.Neighbors
	return core.Action{Type: "maintain"}, 0
}
func (*viewStrategy) Name() string { return "client" }

// agentLinks: an agent's links, however they were made (ConnectTo, or stored in
// the map as a swarm does), are the same for every way of looking at them.
// While fewer than the fixed capacity are held the whole history, counts
// included, must be linearizable; beyond it each link must be, and the totals
// must agree once the clients are done.
func agentLinks(w *W) {
	vs := &viewStrategy{}
	a := agent.New("self", agent.WithStrategy(vs), agent.WithStubbornness(0))
	state := map[string]int{}
	big := w.Rng.Bool(0.5)
	if big {
		for i, n := 0, w.Between(14, 24); i < n; i++ {
			id := fmt.Sprintf("p%d", i)
			b := agent.New(id)
			if w.Rng.Bool(0.2) {
				a.Neighbors().Store(id, b)
			} else {
				a.ConnectTo(id, b)
			}
			state[id] = 0
		}
	}
	pre := len(state)
	ids := []string{"self", "x", "y", "z", "p0", "p1", "p15"}
	ag := map[string]*agent.Agent{"self": a}
	for _, id := range append(ids[1:], "m") {
		ag[id] = agent.New(id)
	}
	h := &Hist{w: w}
	nt := w.Between(2, 3)
	for t := 0; t < nt; t++ {
		var plan []nbOp
		for i, n := 0, w.Between(1, 5); i < n; i++ {
			if !w.Keep() {
				continue
			}
			op := nbOp{kind: pick(w, 0, 0, 0, 1, 1, 2, 3, 3, 7, 8), id: ids[w.Rng.Intn(len(ids))]}
			if big && op.kind == 3 {
				op.kind = 1
			}
			// links a swarm makes are not also made through ConnectTo
			if op.kind == 8 {
				op.id = "m"
				if !big {
					op.kind = 1
				}
			} else if op.kind >= 1 && op.kind <= 2 && w.Rng.Bool(0.15) {
				op.id = "m"
			}
			plan = append(plan, op)
			w.Note("t%d %v", t, op)
		}
		w.Go(fmt.Sprintf("client%d", t), func() {
			for _, p := range plan {
				o := h.Begin(p, fmt.Sprintf("%s(%s)", []string{"connect", "connected?", "disconnect", "count", "", "", "", "connect-nil", "map-store"}[p.kind], p.id))
				switch p.kind {
				case 0:
					a.ConnectTo(p.id, ag[p.id])
					h.End(o, "?")
				case 1:
					if a.IsConnectedTo(p.id) {
						h.End(o, "some")
					} else {
						h.End(o, "none")
					}
				case 2:
					a.DisconnectFrom(p.id)
					h.End(o, "ok")
				case 3:
					h.End(o, a.NeighborCount())
				case 8:
					a.Neighbors().Store(p.id, ag[p.id])
					h.End(o, "?")
				default:
					a.ConnectTo("ghost", nil)
					h.End(o, "ok")
				}
			}
		})
	}
	w.Wait()
	linked := 0
	ids = append(ids, "m")
	final := append([]string{"ghost"}, ids...)
	for id := range state {
		if !contains(final, id) {
			final = append(final, id)
		}
	}
	sort.Strings(final)
	for _, id := range final {
		if !contains(ids, id) {
			if a.IsConnectedTo(id) {
				linked++
			}
			w.Check(a.IsConnectedTo(id) == (id != "ghost"), "links", "link to %s lost or invented although nobody touched it", id)
			continue
		}
		r := "none"
		o := h.Begin(nbOp{kind: 1, id: id}, "final connected? "+id)
		if a.IsConnectedTo(id) {
			r = "some"
			linked++
		}
		h.End(o, r)
	}
	n := a.NeighborCount()
	w.Check(n == linked, "links", "an agent is connected to %d agents but counts %d neighbours", linked, n)
	a.UpdateContext()
	vs.n = -1
	for i := 0; i < 3 && vs.n < 0; i++ {
		a.ProposeAdjustment(core.State{Coherence: 0.5})
	}
	w.Check(vs.n < 0 || vs.n == linked, "links", "an agent is connected to %d agents but perceives %d", linked, vs.n)
	if linked > 20 {
		w.Probe("over the fixed capacity")
	}
	base := nbStep(1 << 30)
	for k, part := range splitOps(h.Ops, big) {
		init := nbFmt(map[string]int{})
		if !big {
			init = nbFmt(state)
		} else if _, ok := state[k]; ok {
			init = nbFmt(map[string]int{k: 0})
		}
		ok, _ := Linearizable(part, init, func(st any, o *Op) (bool, any) {
			in := o.In.(nbOp)
			if in.kind == 7 || (in.kind == 0 && in.id == "self") {
				return true, st
			}
			if in.kind == 8 {
				in.kind = 0
				return base(st, &Op{In: in, Out: o.Out})
			}
			return base(st, o)
		}, skey)
		w.Check(ok, "links", "an agent with %d links at first: no sequential order explains the history:%s", pre, (&Hist{Ops: part}).Format())
	}
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// splitOps splits a history by the id operated on.
func splitOps(ops []*Op, split bool) map[string][]*Op {
	m := map[string][]*Op{}
	for _, o := range ops {
		k := ""
		if split {
			k = o.In.(nbOp).id
		}
		m[k] = append(m[k], o)
	}
	return m
}

// storm: whether one operation is to meet very many others, more likely when
// there are slow goroutines.
func (w *W) storm() bool {
	p := 0.02
	if w.slow {
		p = 0.3
	}
	return w.Rng.Bool(p)
}
