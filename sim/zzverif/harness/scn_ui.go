package main

import (
	"context"
	"errors"
	"math"
	"strings"
	"time"

	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/simulations/display"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
	"github.com/carlisia/bio-adapt/simulations/emerge/ui"
	zctx "github.com/carlisia/bio-adapt/zzverif/context"
	"github.com/carlisia/bio-adapt/zzverif/rt"
	"github.com/mum4k/termdash/keyboard"
	"github.com/mum4k/termdash/terminal/terminalapi"
)

const uiReal = "simulations/emerge/ui, the keyboard and automated controllers of simulations/display, simulations/emerge/simulation and everything below it"

func init() {
	register(&Scenario{Prop: "P23", Name: "keys", Run: keys, Fine: 0, MaxSteps: 300000000, MaxTime: time.Hour,
		StallMax: 300 * time.Millisecond, Freeze: true, StepNs: []int64{1000, 3000}, Quick: 500, Thorough: 15000, Real: uiReal, Stub: agentStub + "; the terminal display is a recording stand-in that can fail"})
	register(&Scenario{Prop: "P23", Name: "script", Run: script, Fine: 0.2, MaxSteps: 1000000, MaxTime: time.Hour,
		StallMax: 300 * time.Millisecond, Freeze: true, Quick: 4000, Thorough: 100000, Real: uiReal, Stub: agentStub})
}

// screen stands in for the terminal.
type screen struct {
	w       *W
	initErr error
	failAt  time.Duration // Run fails after this long
	opened  int
	closed  int
	welcome int
	summary []display.Statistics
	last    display.SimulationSnapshot
	updates int
	lastAt  time.Duration
	resets  int
	disrupt int
	pauses  int
	n       int
	ended   bool
}

func (s *screen) Initialize() error { s.opened++; return s.initErr }
func (s *screen) Close() error      { s.closed++; return nil }
func (s *screen) ShowWelcome()      { s.welcome++ }
func (s *screen) ShowSummary(st display.Statistics) {
	s.summary = append(s.summary, st)
}
func (s *screen) Update(sn display.SimulationSnapshot) {
	rt.Point("display")
	s.updates++
	s.lastAt = s.w.Now()
	s.last = sn
	if sn.Reset {
		s.resets++
	}
	if sn.Disrupted {
		s.disrupt++
	}
	if sn.Paused {
		s.pauses++
	}
	// the same figures as the simulation's own snapshot
	c := simulation.Snapshot{Coherence: sn.Coherence, PendingTasks: sn.PendingTasks, BatchesProcessed: sn.BatchesProcessed, CostWithoutSync: sn.CostWithoutSync,
		CostWithSync: sn.CostWithSync, Savings: sn.Savings, SavingsPercent: sn.SavingsPercent, LastBatchSize: sn.LastBatchSize}
	for _, a := range sn.Agents {
		c.Agents = append(c.Agents, simulation.AgentSnapshot{ID: a.ID, Phase: a.Phase, PendingTasks: a.PendingTasks, BatchesSent: a.BatchesSent})
	}
	s.w.snap(c, s.n)
}

// same: what stood still between two of the simulation's own snapshots is what
// the latest update showed.
func (s *screen) same(a, b simulation.Snapshot) {
	l, w := s.last, s.w
	w.Check(len(l.Agents) == len(a.Agents), "shown", "the display shows %d agents of %d", len(l.Agents), len(a.Agents))
	cmp := func(name string, x, y, shown any) {
		if x == y {
			w.Check(shown == x, "shown", "the simulation is paused with %s %v, the display shows %v", name, x, shown)
		}
	}
	for i, x := range a.Agents {
		y, z := b.Agents[i], l.Agents[i]
		cmp("agent", x, y, simulation.AgentSnapshot{ID: z.ID, Type: z.Type, Icon: z.Icon, Phase: z.Phase, PendingTasks: z.PendingTasks, BatchesSent: z.BatchesSent, InBurstMode: z.InBurstMode, ActivityLevel: z.ActivityLevel})
		if x.InBurstMode {
			w.Probe("paused in a burst")
		}
	}
	cmp("coherence", a.Coherence, b.Coherence, l.Coherence)
	cmp("target", a.TargetCoherence, b.TargetCoherence, l.TargetCoherence)
	cmp("pending tasks", a.PendingTasks, b.PendingTasks, l.PendingTasks)
	cmp("batch size", a.CurrentBatchSize, b.CurrentBatchSize, l.CurrentBatchSize)
	cmp("batches", a.BatchesProcessed, b.BatchesProcessed, l.BatchesProcessed)
	cmp("cost without", a.CostWithoutSync, b.CostWithoutSync, l.CostWithoutSync)
	cmp("cost with", a.CostWithSync, b.CostWithSync, l.CostWithSync)
	cmp("savings", a.Savings, b.Savings, l.Savings)
	cmp("savings percent", a.SavingsPercent, b.SavingsPercent, l.SavingsPercent)
	cmp("last batch size", a.LastBatchSize, b.LastBatchSize, l.LastBatchSize)
	cmp("last batch time", a.LastBatchTime, b.LastBatchTime, l.LastBatchTime)
	w.Check(l.ElapsedTime <= b.ElapsedTime && l.ElapsedTime >= a.ElapsedTime-settled, "shown", "the display shows %v elapsed, the simulation %v", l.ElapsedTime, b.ElapsedTime)
	w.Probe("updates compared")
}

var errScreen = errors.New("the terminal is gone")

func (s *screen) Run(ctx context.Context, _ *display.KeyboardController) error {
	end := int64(math.MaxInt64)
	if s.failAt > 0 {
		end = int64(s.w.Now() + s.failAt)
	}
	for rt.Now() < end {
		if ctx.Err() != nil {
			s.ended = true
			return nil
		}
		s.w.Sleep(10 * time.Millisecond)
	}
	s.ended = true
	return errScreen
}

type keyOf struct {
	key keyboard.Key
	ev  display.EventType
}

var switches = []keyOf{
	{'1', display.ScaleTiny}, {'2', display.ScaleSmall}, {'3', display.ScaleMedium}, {'4', display.ScaleLarge}, {'5', display.ScaleHuge},
	{'b', display.GoalBatch}, {'l', display.GoalLoad}, {'c', display.GoalConsensus}, {'t', display.GoalLatency}, {'e', display.GoalEnergy},
	{'m', display.GoalRhythm}, {'f', display.GoalFailure}, {'a', display.GoalTraffic},
	{'h', display.PatternHighFreq}, {'u', display.PatternBurst}, {'y', display.PatternSteady}, {'x', display.PatternMixed}, {'z', display.PatternSparse},
}

var goalKeys = map[goal.Type]keyboard.Key{goal.MinimizeAPICalls: 'b', goal.DistributeLoad: 'l', goal.ReachConsensus: 'c', goal.MinimizeLatency: 't',
	goal.SaveEnergy: 'e', goal.MaintainRhythm: 'm', goal.RecoverFromFailure: 'f', goal.AdaptToTraffic: 'a'}
var patternKeys = map[pattern.Type]keyboard.Key{pattern.HighFrequency: 'h', pattern.Burst: 'u', pattern.Steady: 'y', pattern.Mixed: 'x', pattern.Sparse: 'z'}

func keys(w *W) {
	gts := []goal.Type{goal.MinimizeAPICalls, goal.DistributeLoad, goal.ReachConsensus, goal.MinimizeLatency, goal.SaveEnergy, goal.MaintainRhythm, goal.RecoverFromFailure, goal.AdaptToTraffic}
	gt := gts[w.Rng.Intn(len(gts))]
	pt := pick(w, pattern.Steady, pattern.Steady, pattern.HighFrequency, pattern.Burst, pattern.Mixed, pattern.Sparse)
	sim, err := simulation.New(simulation.BuildConfig{Goal: gt, Scale: scale.Tiny, Pattern: pt, TargetCoherence: 0.7})
	if err != nil {
		w.Fail("create", "no simulation: %v", err)
	}
	scr := &screen{w: w, n: scale.Tiny.DefaultAgentCount()}
	if w.Rng.Bool(0.03) {
		scr.initErr = errScreen
	}
	// the runner compares with the scale it is told, whatever runs
	sc := w.Rng.Intn(5)
	here := keyboard.Key('1' + sc)
	cfg := ui.RunnerConfig{UpdateInterval: time.Duration(w.Between(50, 200)) * time.Millisecond, CurrentGoal: gt,
		CurrentScale: []scale.Size{scale.Tiny, scale.Small, scale.Medium, scale.Large, scale.Huge}[sc], CurrentPattern: pt}
	how := pick(w, "q", "q", "esc", "switch", "switch", "switch", "cancel", "timeout", "error")
	if how == "timeout" {
		cfg.Timeout = time.Duration(w.Between(500, 9000)) * time.Millisecond
	}
	if how == "error" {
		scr.failAt = time.Duration(w.Between(500, 9000)) * time.Millisecond
	}
	kb := display.NewKeyboardController()
	var ctl display.Controller = kb
	foreign := w.Rng.Bool(0.03)
	if foreign {
		ctl = display.NewAutomatedController(nil, nil)
	}
	r := ui.NewRunner(cfg, sim, scr, ctl)
	ctx, cancel := zctx.WithCancel(context.Background())
	defer cancel()
	var res *ui.RunResult
	var back time.Duration
	t0 := w.Now()
	w.Go("runner", func() { res = r.Run(ctx); back = w.Now() })
	w.Note("%v %v ends by %s, timeout %v, failure %v", gt, pt, how, cfg.Timeout, scr.failAt)
	if scr.initErr != nil {
		w.Sleep(settled)
		w.Check(res != nil && errors.Is(res.Error, errScreen), "error", "a display that cannot be set up made the run return %+v", res)
		w.Check(len(scr.summary) == 0 && scr.welcome == 0 && scr.updates == 0, "error", "a display that could not be set up was used")
		cancel()
		w.Wait()
		w.Check(len(w.Live()) == 0, "leak", "goroutines are left: %v", w.Live())
		return
	}
	if foreign {
		w.Sleep(settled)
		w.Check(res != nil && res.Error != nil && res.ScaleEvent == 0, "error", "a controller that is no keyboard made the run return %+v", res)
		w.Check(scr.opened == 1 && scr.closed == 1 && len(scr.summary) == 0, "error", "the display was set up %d times, closed %d times, %d summaries were shown", scr.opened, scr.closed, len(scr.summary))
		w.Wait()
		w.StopFaults()
		w.Sleep(2 * time.Second)
		w.Check(len(w.Live()) == 0, "leak", "goroutines are left: %v", w.Live())
		w.Probe("no keyboard")
		return
	}
	press := func(k keyboard.Key) {
		if k >= 'a' && k <= 'z' && w.Rng.Bool(0.3) {
			k -= 'a' - 'A'
		}
		kb.(*display.KeyboardController).ProcessKey(&terminalapi.Keyboard{Key: k})
	}
	paused, resets, disrupts := false, 0, 0
	want := display.EventType(0) // switch asked for
	single := how != "timeout" && how != "error"
	for round, rounds := 0, w.Between(0, 3); round < rounds && single; round++ {
		for i, k := 0, w.Between(0, 8); i < k; i++ {
			gap := time.Duration(pick(w, 0, 0, 0, w.Between(0, 20), w.Between(0, 400))) * time.Millisecond
			var key keyboard.Key
			switch w.Rng.Intn(8) {
			case 0, 1:
				key = 'p'
			case 2:
				key = ' '
			case 3:
				key = 'r'
			case 4:
				key = 'd'
			case 5:
				key = here // already there
			case 6:
				key = pick(w, goalKeys[gt], patternKeys[pt])
			default:
				key = pick(w, keyboard.Key('w'), keyboard.KeyEnter, keyboard.Key('9'), keyboard.KeyArrowUp)
			}
			if !w.Keep() {
				continue
			}
			w.Sleep(gap)
			w.Note("%v %q", gap, rune(key))
			press(key)
			switch key {
			case 'p':
				paused = !paused
			case ' ':
				paused = false
			case 'r':
				if !paused {
					resets++
				}
			case 'd':
				if !paused {
					disrupts++
				}
			}
		}
		was := scr.updates
		w.Sleep(settled)
		w.Check(res == nil, "ended", "the run ended although no key asked for it: %+v", res)
		w.Check(scr.updates > was, "no-update", "the display got no update in %v", settled)
		w.Check(scr.last.Paused == paused && sim.Snapshot().Paused == paused, "pause", "after these keys paused is %v", scr.last.Paused)
		w.Check((scr.resets > 0) == (resets > 0), "reset", "%d resets were asked for, %d updates showed one", resets, scr.resets)
		w.Check(disrupts > 0 || scr.disrupt == 0, "disrupt", "no disruption was asked for, %d updates showed one", scr.disrupt)
		if paused {
			a := sim.Snapshot()
			w.Sleep(time.Duration(w.Between(100, 900)) * time.Millisecond)
			b := sim.Snapshot()
			for i := range a.Agents {
				w.Check(a.Agents[i].Phase == b.Agents[i].Phase, "pause", "the simulation is paused, agent %s went from %v to %v", a.Agents[i].ID, a.Agents[i].Phase, b.Agents[i].Phase)
			}
			w.Probe("stands still")
			scr.same(a, b)
		}
		w.Probe("keys judged")
	}
	still := paused && single
	switch how {
	case "q", "esc":
		press(map[string]keyboard.Key{"q": 'q', "esc": keyboard.KeyEsc}[how])
	case "switch":
		for want == 0 {
			k := switches[w.Rng.Intn(len(switches))]
			if k.key == here || k.key == goalKeys[gt] || k.key == patternKeys[pt] {
				continue
			}
			want = k.ev
			press(k.key)
			w.Note("switch %q", rune(k.key))
		}
	case "cancel":
		cancel()
	}
	// keys pressed too late have no effect
	for i, k := 0, w.Between(0, 3); single && how != "cancel" && i < k; i++ {
		press(pick(w, keyboard.Key('2'), keyboard.Key('3'), 'q', 'r', 'x', 'p'))
		still = false
	}
	t1 := w.Now()
	deadline := t1 + settled
	switch how {
	case "timeout":
		deadline = t0 + cfg.Timeout + settled
	case "error":
		deadline = t0 + scr.failAt + settled
	}
	for res == nil && w.Now() < deadline {
		w.Sleep(10 * time.Millisecond)
	}
	w.Check(res != nil, "not-ended", "the run has not ended (%s)", how)
	switch how {
	case "error":
		w.Check(errors.Is(res.Error, errScreen), "error", "the display failed, the run returned %+v", res)
		w.Check(len(scr.summary) == 0, "summary", "a summary was shown on a failed display")
	default:
		w.Check(res.Error == nil, "error", "the run returned %v", res.Error)
		w.Check(res.ScaleEvent == want, "switch", "the key for event %d made the run return event %d", want, res.ScaleEvent)
		w.Check((len(scr.summary) == 1) == (want == 0) && len(scr.summary) <= 1, "summary", "%d summaries were shown (%s)", len(scr.summary), how)
	}
	if how == "timeout" {
		w.Check(back-t0 >= cfg.Timeout, "too-early", "with a timeout of %v the run ended after %v", cfg.Timeout, back-t0)
	}
	w.Check(scr.opened == 1 && scr.closed == 1 && scr.welcome == 1, "display", "the display was set up %d times, closed %d times, %d welcomes", scr.opened, scr.closed, scr.welcome)
	w.Probe("ended by " + how)
	// nobody takes keys any more, they hold nothing up
	w.Sleep(settled)
	done := false
	w.Go("keys", func() {
		for i := 0; i < 24; i++ {
			press(pick(w, keyboard.Key('p'), 'r', 'd', ' '))
		}
		done = true
	})
	w.Sleep(settled)
	w.Check(done, "stuck", "a key pressed after the end never returns")
	w.StopFaults()
	w.Sleep(2 * time.Second)
	was := scr.updates
	stats := sim.Statistics()
	for _, s := range scr.summary {
		w.Check(nearly(s.CostWithoutSync, float64(s.TotalAPICalls)*simulation.CostPerCall) && nearly(s.TotalSavings, s.CostWithoutSync-s.CostWithSync) &&
			s.TotalBatches <= stats.TotalBatches && s.TotalAPICalls <= stats.TotalAPICalls && s.PeakCoherence <= stats.PeakCoherence+1e-9, "summary", "the summary %+v does not fit the statistics %+v", s, stats)
		if still {
			same := s.TotalAPICalls == stats.TotalAPICalls && s.TotalBatches == stats.TotalBatches && nearly(s.AverageBatchSize, stats.AverageBatchSize) &&
				nearly(s.CostWithSync, stats.CostWithSync) && nearly(s.SavingsPercent, stats.SavingsPercent) && nearly(s.FinalCoherence, stats.FinalCoherence) && s.TimeToConverge == stats.TimeToConverge
			w.Check(same, "summary", "the summary %+v differs from the statistics %+v", s, stats)
			w.Probe("summary compared")
		}
	}
	w.Sleep(32 * time.Second)
	w.Check(scr.updates == was, "goes-on", "the display was updated %d times after the run had ended", scr.updates-was)
	left := w.Live()
	w.Check(len(left) == 0, "leak", "goroutines are left 34 s after the run ended: %s", strings.Join(left, ", "))
	w.Wait()
}

// script: a scripted controller delivers its events once each, in order, not
// before their delays are over.
func script(w *W) {
	n := w.Between(1, 25)
	var evs []display.ControlEvent
	var delays []time.Duration
	for i := 0; i < n; i++ {
		d := time.Duration(pick(w, 0, 0, w.Between(0, 500))) * time.Millisecond
		if !w.Keep() {
			continue
		}
		evs = append(evs, display.ControlEvent{Type: switches[w.Rng.Intn(len(switches))].ev, Data: i})
		delays = append(delays, d)
	}
	if w.Rng.Bool(0.2) && len(delays) > 0 {
		delays = delays[:w.Rng.Intn(len(delays))]
	}
	w.Note("%d events, %v", len(evs), delays)
	t0 := w.Now()
	c := display.NewAutomatedController(evs, delays)
	var sum time.Duration
	slow := w.Rng.Bool(0.3)
	for i := range evs {
		if i < len(delays) {
			sum += delays[i]
		}
		if slow {
			w.Sleep(time.Duration(w.Between(0, 300)) * time.Millisecond)
		}
		e := rt.Recv(c.Events())
		w.Check(e == evs[i], "order", "event %d is %+v instead of %+v", i, e, evs[i])
		w.Check(w.Now()-t0 >= sum, "too-early", "event %d came after %v, its delays come to %v", i, w.Now()-t0, sum)
	}
	w.Sleep(time.Second)
	w.Check(rt.ChanLen(c.Events()) == 0, "extra", "%d events too many", rt.ChanLen(c.Events()))
	w.Check(len(w.Live()) == 0, "leak", "the controller is still running: %v", w.Live())
	w.Probe("script")
}
