package main

import (
	"errors"
	"fmt"
	"math"
	"os"
	"slices"
	"strings"
	"syscall"
	"time"

	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/simulations/display"
	emergeapp "github.com/carlisia/bio-adapt/simulations/emerge"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
	"github.com/carlisia/bio-adapt/zzverif/sysio"
	"github.com/mum4k/termdash/cell"
	"github.com/mum4k/termdash/keyboard"
	"github.com/mum4k/termdash/terminal/terminalapi"
)

const appReal = "the application simulations/emerge from main on, its runner, displays and controllers, termdash's containers and widgets, the simulation and everything below it"
const appStub = "the terminal and its event loop (in memory, can fail), command line, standard output, exit and signals"

func init() {
	register(&Scenario{Prop: "P28", Name: "app", Run: app, Fine: 0, MaxSteps: 300000000, MaxTime: time.Hour,
		StallMax: 300 * time.Millisecond, Freeze: true, StepNs: []int64{500, 2000}, NoStarve: true, Quick: 600, Thorough: 20000, Real: appReal, Stub: appStub})
	register(&Scenario{Prop: "P29", Name: "panels", Run: panels, Fine: 0, MaxSteps: 20000000, MaxTime: time.Hour,
		Quick: 15000, Thorough: 500000, Real: "the terminal and text displays of simulations/display, termdash's containers and widgets", Stub: appStub + "; the snapshots shown are generated"})
}

var errTerminal = errors.New("the terminal is gone")

var (
	allScales   = []scale.Size{scale.Tiny, scale.Small, scale.Medium, scale.Large, scale.Huge}
	scaleNames  = []string{"tiny", "small", "medium", "large", "huge"}
	scaleAgents = []int{20, 50, 200, 1000, 2000}
	allGoals    = []goal.Type{goal.MinimizeAPICalls, goal.DistributeLoad, goal.ReachConsensus, goal.MinimizeLatency, goal.SaveEnergy, goal.MaintainRhythm, goal.RecoverFromFailure, goal.AdaptToTraffic}
	allPatterns = []pattern.Type{pattern.HighFrequency, pattern.Burst, pattern.Steady, pattern.Mixed, pattern.Sparse}
)

// running is one run of the application.
type running struct {
	w    *W
	env  *sysio.Env
	over bool
	code int // exit code
	at   time.Duration
}

func start(w *W, env *sysio.Env) *running {
	sysio.Cur = env
	r := &running{w: w, env: env}
	w.Go("main", func() {
		defer func() {
			if p := recover(); p != nil {
				x, ok := p.(sysio.Exited)
				if !ok {
					panic(p)
				}
				r.code = x.Code
			}
			r.over, r.at = true, w.Now()
		}()
		emergeapp.ZzMain()
	})
	return r
}

// until waits for a condition at most d long.
func (r *running) until(d time.Duration, f func() bool) bool {
	for end := r.w.Now() + d; !f(); r.w.Sleep(20 * time.Millisecond) {
		if r.w.Now() >= end {
			return f()
		}
	}
	return true
}

// live is the session under way, nil if there is none.
func (r *running) live() *sysio.Session {
	if n := len(r.env.Sessions); n > 0 && !r.env.Sessions[n-1].Ended {
		return r.env.Sessions[n-1]
	}
	return nil
}

func app(w *W) {
	sc := pick(w, 0, 0, 0, 0, 0, 0, 1, 1, 1, 2)
	if w.Rng.Bool(0.004) {
		sc = pick(w, 3, 4)
	}
	env := &sysio.Env{TTY: w.Rng.Bool(0.8), W: w.Between(60, 220), H: w.Between(20, 70)}
	if w.Rng.Bool(0.1) {
		env.W, env.H = w.Between(1, 60), w.Between(1, 20)
	}
	if sc > 0 || w.Rng.Bool(0.2) {
		env.Args = append(env.Args, pick(w, "-scale=", "--scale=")+scaleNames[sc])
	}
	if w.Rng.Bool(0.3) {
		env.Args = append(env.Args, "-interval="+(time.Duration(w.Between(50, 300))*time.Millisecond).String())
	}
	switch k := w.Rng.Intn(40); {
	case k == 0: // only asks
		env.Args = append(env.Args, "-list")
		r := start(w, env)
		w.Wait()
		w.Check(r.over && r.code == 0 && len(env.Sessions) == 0 && env.Opened == 0, "list", "-list ended with code %d, opened %d terminals", r.code, env.Opened)
		for i, n := range scaleNames {
			w.Check(strings.Contains(env.Out.String(), fmt.Sprintf("%-6s - %d agents", n, scaleAgents[i])), "list", "-list does not name %s with %d agents", n, scaleAgents[i])
		}
		w.Probe("list")
		return
	case k == 1: // no such scale
		env.Args = []string{"-scale=" + pick(w, "gigantic", "Tiny", "TINY", "", "tiny ", "50", "medium,large")}
		r := start(w, env)
		w.Wait()
		w.Check(r.over && r.code == 1 && len(env.Sessions) == 0 && env.Opened == 0, "unknown-scale", "%q ended with code %d, opened %d terminals", env.Args[0], r.code, env.Opened)
		w.Probe("unknown scale")
		return
	}
	how := pick(w, "q", "q", "esc", "signal", "signal", "signal", "error", "error", "timeout")
	if !env.TTY {
		how = pick(w, "signal", "timeout")
	}
	timeout := 5 * time.Minute
	if how == "timeout" {
		timeout = time.Duration(w.Between(1000, 15000)) * time.Millisecond
		env.Args = append(env.Args, "-timeout="+timeout.String())
	} else if w.Rng.Bool(0.3) {
		env.Args = append(env.Args, "-timeout=0s")
		timeout = 0
	}
	if env.TTY && w.Rng.Bool(0.03) {
		env.TermErr = errTerminal
	}
	w.Note("%v terminal %v %dx%d, ends by %s", env.Args, env.TTY, env.W, env.H, how)
	r := start(w, env)
	if env.TermErr != nil {
		w.Check(r.until(settled, func() bool { return r.over }), "not-ended", "without a terminal the application has not ended")
		w.Check(r.code == 1 && env.Opened == 0, "error", "without a terminal the application ended with code %d", r.code)
		w.Probe("no terminal")
		return
	}
	if env.TTY {
		r.screen(sc, how, timeout)
	} else {
		r.plain(how, timeout)
	}
}

// plain: without a terminal the application reports in lines of text.
func (r *running) plain(how string, timeout time.Duration) {
	w, env := r.w, r.env
	w.Sleep(time.Duration(w.Between(5, 12)) * time.Second)
	w.Check(timeout > 0 && w.Now() >= timeout || !r.over, "ended", "the application ended by itself")
	if how == "signal" {
		r.signal()
	} else {
		for w.Now() < timeout && !r.over {
			w.Sleep(20 * time.Millisecond)
		}
	}
	w.Check(r.until(settled, func() bool { return r.over }), "not-ended", "the application has not ended (%s)", how)
	w.Check(r.code == 0, "exit", "the application ended with code %d", r.code)
	if how == "timeout" {
		w.Check(r.at >= timeout, "too-early", "with a timeout of %v the application ended after %v", timeout, r.at)
	}
	w.Check(env.Opened == 0 && len(env.Sessions) == 0, "terminal", "a terminal was opened although there is none")
	lines := 0
	for _, l := range strings.Split(env.Out.String(), "\n") {
		if strings.HasPrefix(l, "[") && strings.Contains(l, "Coherence:") {
			lines++
		}
	}
	w.Check(strings.Count(env.Out.String(), "SIMULATION COMPLETE") == 1, "summary", "%d summaries were printed", strings.Count(env.Out.String(), "SIMULATION COMPLETE"))
	w.Check(lines <= int(r.at/time.Second)+1, "flood", "%d status lines in %v", lines, r.at)
	w.Check(how == "timeout" || lines >= 1, "no-update", "no status line in %v", r.at)
	w.Check(len(env.Errs) == 0, "errors", "%s", strings.Join(env.Errs, "; "))
	r.rest()
	w.Probe("without terminal, " + how)
}

// signal asks the application to end the way the system does.
func (r *running) signal() {
	for i, k := 0, r.w.Between(1, 2); i < k; i++ {
		sig := pick[os.Signal](r.w, os.Interrupt, syscall.SIGTERM)
		if !r.env.Raise(sig) {
			r.w.Fail("signal", "nobody waits for the signal %v", sig)
		}
	}
}

// rest: nothing of the application but the wait for signals goes on.
func (r *running) rest() {
	w := r.w
	w.StopFaults()
	w.Sleep(32 * time.Second)
	r.env.Raise(os.Interrupt)
	w.Sleep(2 * time.Second)
	left := w.Live()
	w.Check(len(left) == 0, "leak", "goroutines are left 34 s after the end: %s", strings.Join(left, ", "))
	w.Wait()
}

func (r *running) screen(sc int, how string, timeout time.Duration) {
	w, env := r.w, r.env
	gi, pi := 0, -1
	press := func(s *sysio.Session, k keyboard.Key) {
		if k >= 'a' && k <= 'z' && w.Rng.Bool(0.3) {
			k -= 'a' - 'A'
		}
		for _, f := range s.Keys {
			f(&terminalapi.Keyboard{Key: k})
		}
	}
	// the session shows the configuration
	paused := false
	using := func() pattern.Type {
		if pi >= 0 {
			return allPatterns[pi]
		}
		return pattern.BestPatternForGoal(gi)
	}
	shows := func(s *sysio.Session) {
		pt := using()
		n := scaleAgents[sc]
		want := []string{"Goal:     " + allGoals[gi].String(), "Pattern:  " + pt.String(), strings.ToUpper(scaleNames[sc]) + " SWARM", fmt.Sprintf("(%d workloads)", n), fmt.Sprintf("... and %d more", n-10)}
		if paused {
			want = append(want, "Paused:    YES")
		} else {
			want = append(want, "Paused:    NO")
		}
		want = append(want, "• Pattern: "+map[string]string{pattern.QualifierOptimal: "Optimal", pattern.QualifierExcellent: "Good", pattern.QualifierGood: "Good",
			pattern.QualifierFair: "Fair", pattern.QualifierPoor: "Poor"}[pattern.GetQualifier(gi, n, pt)],
			"• Scale: "+map[bool]string{true: "Good", false: "Poor"}[allGoals[gi].IsRecommendedForSize(n)])
		missing := ""
		ok := r.until(settled, func() bool {
			t := s.Shown()
			missing = ""
			for _, x := range want {
				if !strings.Contains(t, x) {
					missing = x
				}
			}
			return missing == ""
		})
		w.Check(ok, "shown", "the panels do not show %q", missing)
		w.Check(len(s.Gauges) > 0, "gauges", "no gauges")
		for _, g := range s.Gauges {
			p, l := g.Value()
			w.Check(p >= -1 && p <= 100, "gauge", "the gauge %q stands at %d", l, p)
		}
		if w.Rng.Bool(0.5) {
			err := s.Draw()
			w.Check(err == nil, "draw", "the screen cannot be drawn at %dx%d: %v", env.W, env.H, err)
			w.Probe("drawn")
		}
	}
	bound := settled + time.Duration(scaleAgents[sc])*10*time.Millisecond
	// an earlier session is left alone
	var calm *sysio.Session
	calmN := 0
	left := func() {
		if calm != nil {
			w.Check(calm.Writes() == calmN, "goes-on", "the panels of an earlier session were written %d times after its end", calm.Writes()-calmN)
			w.Probe("earlier session at rest")
		}
	}
	begun := func(n int) *sysio.Session {
		ok := r.until(bound, func() bool { return len(env.Sessions) >= n })
		w.Check(ok && len(env.Sessions) == n, "start", "%d sessions have begun instead of %d", len(env.Sessions), n)
		w.Check(!r.over && !env.Sessions[n-1].Ended, "ended", "the application ended by itself: %q", env.Out.String())
		return env.Sessions[n-1]
	}
	if how == "timeout" {
		// each session has the whole time
		begunAt := time.Duration(0)
		w.Check(r.until(timeout+settled+bound, func() bool {
			if len(env.Sessions) == 1 && begunAt == 0 {
				begunAt = w.Now()
			}
			return r.over
		}), "not-ended", "with a timeout of %v the application has not ended after %v", timeout, w.Now())
		w.Check(r.at >= timeout, "too-early", "with a timeout of %v the application ended after %v", timeout, r.at)
	} else {
		n := 1
		s := begun(n)
		switches := 0
		for round, rounds := 0, w.Between(1, 5); round < rounds; round++ {
			if !w.Keep() {
				continue
			}
			shows(s)
			// keys that change nothing
			for i, k := 0, w.Between(0, 4); i < k; i++ {
				w.Sleep(time.Duration(pick(w, 0, 0, w.Between(0, 300))) * time.Millisecond)
				switch w.Rng.Intn(6) {
				case 0, 1:
					press(s, 'p')
					paused = !paused
				case 2:
					press(s, ' ')
					paused = false
				case 3:
					press(s, pick(w, keyboard.Key('r'), 'd'))
				case 4:
					press(s, pick(w, keyboard.Key('1'+sc), goalKeys[allGoals[gi]], patternKeys[using()]))
				default:
					press(s, pick(w, keyboard.Key('w'), keyboard.KeyEnter, keyboard.Key('9'), keyboard.KeyArrowUp))
				}
			}
			if n > 1 {
				w.Sleep(settled)
				calm = env.Sessions[n-2]
				calmN = calm.Writes()
			}
			w.Sleep(settled)
			w.Check(!r.over && len(env.Sessions) == n && !s.Ended, "ended", "the session ended although no key asked for it: %q", env.Out.String())
			shows(s)
			left()
			if how == "timeout" || !w.Rng.Bool(0.7) {
				continue
			}
			key := keyboard.Key(0)
			switch w.Rng.Intn(3) {
			case 0:
				to := pick(w, 0, 0, 0, 0, 1, 1, 1, 2)
				if w.Rng.Bool(0.03) {
					to = pick(w, 3, 4)
				}
				if to == sc {
					continue
				}
				sc, key = to, keyboard.Key('1'+to)
			case 1:
				to := w.Rng.Intn(len(allGoals))
				if to == gi {
					continue
				}
				gi, key = to, goalKeys[allGoals[to]]
			default:
				to := w.Rng.Intn(len(allPatterns))
				if to == pi {
					continue
				}
				if pi < 0 && allPatterns[to] == pattern.BestPatternForGoal(gi) {
					continue // it is the one in use
				}
				pi, key = to, patternKeys[allPatterns[to]]
			}
			w.Note("switch %q", rune(key))
			press(s, key)
			if w.Rng.Bool(0.3) { // too late
				press(s, pick(w, keyboard.Key('q'), 'r', 'p', 'x', '2'))
			}
			switches++
			n++
			paused = false
			bound = settled + time.Duration(scaleAgents[sc])*10*time.Millisecond
			if how == "signal" && w.Rng.Bool(0.2) {
				w.Probe("signal during a switch")
				w.Sleep(time.Duration(w.Between(0, 300)) * time.Millisecond)
				break
			}
			s = begun(n)
			w.Probe("switched")
		}
		t1 := w.Now()
		switch how {
		case "q", "esc":
			press(r.live(), map[string]keyboard.Key{"q": 'q', "esc": keyboard.KeyEsc}[how])
		case "signal":
			r.signal()
		case "error":
			env.RunErr = errTerminal
		}
		w.Check(r.until(bound, func() bool { return r.over }), "not-ended", "%v after %s the application has not ended (%d switches before)", w.Now()-t1, how, switches)
	}
	if how == "error" {
		w.Check(r.code == 1, "exit", "the terminal failed, the application ended with code %d", r.code)
	} else {
		w.Check(r.code == 0, "exit", "the application ended with code %d (%s): %q", r.code, how, env.Out.String())
		// what is written to panels after the end nobody sees
		t := env.Out.String()[env.Shut:]
		w.Check(strings.Count(t, "SIMULATION COMPLETE") == 1 && strings.Count(env.Out.String(), "SIMULATION COMPLETE") == 1, "summary", "%d summaries are left to be read (%s)", strings.Count(t, "SIMULATION COMPLETE"), how)
	}
	w.Check(env.Opened == env.Closed, "terminal", "%d terminals were opened, %d closed", env.Opened, env.Closed)
	w.Check(len(env.Errs) == 0 || how == "error", "errors", "%s", strings.Join(env.Errs, "; "))
	w.Probe("ended by " + how)
	if how != "error" {
		r.rest()
	}
}

// off is the distance of a phase from the beat, around the circle; before is
// true for a phase ahead of it.
func off(p float64) (d float64, before bool) {
	r := math.Remainder(p, 2*math.Pi)
	return math.Abs(r), r < 0
}

// far says whether x keeps clear of every limit.
func far(x float64, limits ...float64) bool {
	for _, l := range limits {
		if math.Abs(x-l) < 1e-6 {
			return false
		}
	}
	return true
}

var workTypes = []string{"DataETL", "LogAnalysis", "EmailProcessor", "Leader", "UserAnalytics", "Sensor", "X", "ExactElevenX", "ElevenChars"}

// frame is a generated snapshot.
func frame(w *W, target float64) display.SimulationSnapshot {
	n := pick(w, 1, 2, 5, 9, 10, 11, 20, 20, 50, w.Between(1, 200))
	sn := display.SimulationSnapshot{ElapsedTime: time.Duration(w.Unif(0, 600) * 1e9), TargetCoherence: target, Paused: w.Rng.Bool(0.3), Disrupted: w.Rng.Bool(0.3), Reset: w.Rng.Bool(0.3),
		PendingTasks: w.Between(0, 500), CurrentBatchSize: pick(w, 0, w.Between(0, 300)), BatchesProcessed: w.Between(0, 5000), BatchJustSent: w.Rng.Bool(0.3), LastBatchSize: w.Between(1, 99),
		CostWithoutSync: w.Unif(0, 100), LastBatchTime: time.Now()}
	sn.CostWithSync = w.Unif(0, sn.CostWithoutSync)
	sn.Savings = sn.CostWithoutSync - sn.CostWithSync
	sn.SavingsPercent = sn.Savings / sn.CostWithoutSync * 100
	for sn.Coherence = w.Unif(0, 1); !far(sn.Coherence, 0.3, 0.5, 0.6, 0.7, 0.8, 0.9, 0.95, target); {
		sn.Coherence = w.Unif(0, 1)
	}
	if w.Rng.Bool(0.1) {
		sn.Coherence = pick(w, 0, 1.0, target, target)
	}
	mode := w.Rng.Intn(6)
	c := w.Unif(0, 2*math.Pi)
	out := w.Unif(0.02, 0.4)
	for i := 0; i < n; i++ {
		var p float64
		for {
			switch mode {
			case 0:
				p = w.Unif(0, 2*math.Pi)
			case 1: // around the beat
				p = w.Unif(-0.3, 0.3)
			case 2:
				p = c + w.Unif(-0.8, 0.8)
			case 4: // together, but for some
				if p = c + w.Unif(-0.6, 0.6); w.Rng.Bool(out) {
					p = w.Unif(0, 2*math.Pi)
				}
			case 3: // spread out
				p = 2*math.Pi*float64(i)/float64(n) + 0.01
			default:
				p = pick(w, 0, w.Unif(0, 0.12), 2*math.Pi-w.Unif(0, 0.12), w.Unif(0, 2*math.Pi))
			}
			p = math.Mod(p, 2*math.Pi)
			if p < 0 {
				p += 2 * math.Pi
			}
			d, _ := off(p)
			h := (math.Sin(p) + 1) / 2 * 8
			if far(d, 0.1, 0.3, 0.5, 1, 2, math.Pi, math.Pi-0.5, math.Pi/2-0.5, math.Pi/2+0.5, math.Pi/2) && (p == 0 || far(h, 0, 1, 2, 3, 4, 5, 6, 7, 8)) && far(p, 1.5, 2.5, 3.5, 4.5) || mode == 3 {
				break
			}
		}
		sn.Agents = append(sn.Agents, display.AgentSnapshot{ID: fmt.Sprint(i), Type: pick(w, workTypes...), Icon: pick(w, "A", "B", "C"), Phase: p,
			PendingTasks: pick(w, 0, 10, 11, w.Between(0, 30), w.Between(0, 20000)), BatchesSent: pick(w, w.Between(0, 2000), w.Between(0, 99999)), InBurstMode: w.Rng.Bool(0.3), ActivityLevel: pick(w, "burst", "quiet", "steady", "active", "quiet")})
	}
	return sn
}

// after is a snapshot that differs from the one before in a few figures only.
func after(w *W, sn display.SimulationSnapshot, target float64) display.SimulationSnapshot {
	b := frame(w, target)
	if w.Rng.Bool(0.2) {
		return b
	}
	some := func() bool { return w.Rng.Bool(0.15) }
	flag := func(x *bool) {
		if some() {
			*x = !*x
		}
	}
	flag(&sn.Paused)
	flag(&sn.Disrupted)
	flag(&sn.Reset)
	flag(&sn.BatchJustSent)
	if some() {
		sn.ElapsedTime = b.ElapsedTime
	}
	if some() {
		sn.Coherence = b.Coherence
	}
	if some() {
		sn.PendingTasks = b.PendingTasks
	}
	if some() {
		sn.CurrentBatchSize = b.CurrentBatchSize
	}
	if some() {
		sn.BatchesProcessed = b.BatchesProcessed
	}
	if some() {
		sn.LastBatchSize, sn.LastBatchTime = b.LastBatchSize, b.LastBatchTime
	}
	if some() {
		sn.CostWithoutSync, sn.CostWithSync, sn.Savings, sn.SavingsPercent = b.CostWithoutSync, b.CostWithSync, b.Savings, b.SavingsPercent
	}
	sn.Agents = append([]display.AgentSnapshot(nil), sn.Agents...)
	for i := range sn.Agents {
		if i >= len(b.Agents) || !w.Rng.Bool(0.05) {
			continue
		}
		switch w.Rng.Intn(4) {
		case 0:
			sn.Agents[i].Phase = b.Agents[i].Phase
		case 1:
			sn.Agents[i].PendingTasks = b.Agents[i].PendingTasks
		case 2:
			sn.Agents[i].BatchesSent = b.Agents[i].BatchesSent
		default:
			sn.Agents[i].ActivityLevel, sn.Agents[i].InBurstMode = b.Agents[i].ActivityLevel, b.Agents[i].InBurstMode
		}
	}
	return sn
}

// light is the indicator of one agent.
func light(g goal.Type, p float64) string {
	d, _ := off(p)
	const red, yellow, green = "🔴", "🟡", "🟢"
	in := func(c, r float64) bool { return math.Abs(math.Remainder(p-c, 2*math.Pi)) < r }
	switch g {
	case goal.DistributeLoad, goal.RecoverFromFailure:
		switch {
		case d < 0.5:
			return red
		case in(math.Pi, 0.5) || in(math.Pi/2, 0.5) || in(3*math.Pi/2, 0.5):
			return green
		}
		return yellow
	case goal.SaveEnergy:
		switch {
		case d < 0.3:
			return yellow
		case in(math.Pi, 0.5):
			return green
		}
		return red
	case goal.ReachConsensus:
		if in(0, 0.5) || in(2, 0.5) || in(4, 0.5) {
			return green
		}
		return yellow
	}
	switch {
	case d < 0.5:
		return green
	case d < 1:
		return yellow
	}
	return red
}

// level picks by thresholds, from the top.
func level(x float64, at []float64, names ...string) string {
	for i, a := range at {
		if x >= a {
			return names[i]
		}
	}
	return names[len(at)]
}

// wants lists what the panels show for a snapshot.
func wants(g goal.Type, sn display.SimulationSnapshot) []string {
	n := len(sn.Agents)
	yes := map[bool]string{true: "YES\n", false: "NO\n"}
	v := []string{"Paused:    " + yes[sn.Paused], "Disrupted: " + yes[sn.Disrupted], "Resetting: " + yes[sn.Reset],
		fmt.Sprintf("Without Synchronization:\n  $%.2f (", sn.CostWithoutSync), fmt.Sprintf("With Synchronization:\n  $%.2f (", sn.CostWithSync),
		fmt.Sprintf("SAVINGS: $%.2f (%.1f%%)", sn.Savings, sn.SavingsPercent)}
	if sn.ElapsedTime < time.Minute {
		v = append(v, fmt.Sprintf("Elapsed:  %.1fs\n", sn.ElapsedTime.Seconds()))
	} else {
		v = append(v, fmt.Sprintf("Elapsed:  %.1fm\n", sn.ElapsedTime.Minutes()))
	}
	for i, a := range sn.Agents {
		if i == 10 {
			v = append(v, fmt.Sprintf("... and %d more\n", n-10))
			break
		}
		t, many := a.Type, ""
		if len(t) > 11 {
			t = t[:11]
		}
		if a.PendingTasks > 10 {
			many = "!"
		}
		v = append(v, fmt.Sprintf("%s %-11s %s   %4d%s  %4d\n", a.Icon, t, light(g, a.Phase), a.PendingTasks, many, a.BatchesSent))
	}
	quiet, busy, working := 0, 0, 0
	ontime, early, late, healthy, degraded, failed := 0, 0, 0, 0, 0, 0
	var ms [5]int
	for _, a := range sn.Agents {
		switch a.ActivityLevel {
		case "quiet":
			quiet++
		case "burst":
			busy++
			working++
		case "active":
			working++
		}
		d, before := off(a.Phase)
		switch {
		case d < 0.1:
			ontime++
		case before:
			early++
		default:
			late++
		}
		switch {
		case sn.Disrupted && d > 2:
			failed++
		case d > 1:
			degraded++
		default:
			healthy++
		}
		ms[min(int((10+5*d)/10), 4)]++
	}
	pc := sn.Coherence * 100
	idle := float64(quiet) / float64(n) * 100
	whole := func(f string, x float64) { // unless it may be rounded either way
		if m := math.Mod(x, 1); math.Abs(m-0.5) > 1e-6 {
			v = append(v, fmt.Sprintf(f, x))
		}
	}
	switch g {
	case goal.MinimizeAPICalls:
		v = append(v, level(sn.Coherence, []float64{0.9, 0.7}, "In sync!", "Syncing...", "Not synced")+fmt.Sprintf(" %.0f%%\n", pc), fmt.Sprintf("Sent: %d batches\n", sn.BatchesProcessed), fmt.Sprintf("Sync: %.1f%% ", pc))
		if sn.CurrentBatchSize > 0 {
			v = append(v, fmt.Sprintf("Collecting: %d tasks\n", sn.CurrentBatchSize))
		} else {
			v = append(v, "Waiting for tasks")
		}
		if sn.BatchJustSent {
			v = append(v, fmt.Sprintf("BATCH SENT! (%d items)", sn.LastBatchSize))
		}
	case goal.DistributeLoad:
		v = append(v, "Distribution: "+level(1-sn.Coherence, []float64{0.7, 0.5}, "BALANCED", "FAIR", "IMBALANCED")+"\n", fmt.Sprintf("Phase Spread: %.1f%%\n", (1-sn.Coherence)*100), fmt.Sprintf("Load/Server: %.1f%%\n", 100/float64(n)))
	case goal.ReachConsensus:
		v = append(v, "Status: "+level(sn.Coherence, []float64{0.95, 0.8}, "CONSENSUS!", "CONVERGING", "NO CONSENSUS")+"\n", fmt.Sprintf("Agreement: %.1f%%\n", pc))
		if r := sn.ElapsedTime.Seconds() * 2; far(math.Mod(r, 1), 0, 1) {
			v = append(v, fmt.Sprintf("Voting Rounds: %d\n", int(r)))
		}
	case goal.MinimizeLatency:
		j := (1 - sn.Coherence) * 20
		v = append(v, "Timing: "+level(sn.Coherence, []float64{0.9, 0.7}, "PREDICTABLE", "FAIR", "UNPREDICTABLE")+"\n", fmt.Sprintf("P95 Latency: %.1fms\n", 10+j), fmt.Sprintf("Jitter: ±%.1fms\n", j/2))
		for i, l := range []string{"0-10ms", "10-20ms", "20-30ms", "30-40ms", "40ms+"} {
			v = append(v, fmt.Sprintf("%-8s: ", l)+strings.Repeat("█", int(float64(ms[i])/float64(n)*30))+fmt.Sprintf(" %d\n", ms[i]))
		}
	case goal.SaveEnergy:
		st := "HIGH DRAIN"
		if idle > 70 {
			st = "EFFICIENT"
		} else if idle > 50 {
			st = "MODERATE"
		}
		v = append(v, "Energy Use: "+st+"\n", fmt.Sprintf("Sleeping: %d sensors\n", quiet), fmt.Sprintf("Active: %d sensors\n", n-quiet))
		whole("Sensors Idle: %.0f%%\n", idle)
		whole("Battery: ["+bar(idle)+"] %.0f%%\n", idle)
		if idle > 70 {
			v = append(v, "✓ EFFICIENT")
		} else {
			v = append(v, "⚠ HIGH DRAIN")
		}
	case goal.MaintainRhythm:
		v = append(v, "Status: "+level(sn.Coherence, []float64{0.9, 0.7}, "ON SCHEDULE", "DRIFTING", "OFF SCHEDULE")+"\n", fmt.Sprintf("Phase Lock: %.1f%%\n", pc), fmt.Sprintf("On Schedule: %d/%d\n", ontime, n))
		v = append(v, fmt.Sprintf("Timing Drift: ±%.0fms\n", (1-sn.Coherence)*1000))
		k := 15 / float64(max(early, ontime, late))
		v = append(v, "\n"+strings.Repeat("◀", int(float64(early)*k))+" "+strings.Repeat("█", int(float64(ontime)*k))+" "+strings.Repeat("▶", int(float64(late)*k))+"\n")
	case goal.RecoverFromFailure:
		st := level(sn.Coherence, []float64{0.8, 0.6}, "RESILIENT", "PARTIAL", "VULNERABLE")
		if sn.Disrupted {
			st = "RECOVERING"
		}
		v = append(v, "Status: "+st+"\n", fmt.Sprintf("Sync Health: %.1f%%\n", pc), fmt.Sprintf(" %d\n", healthy))
		if degraded > 0 {
			v = append(v, fmt.Sprintf(" %d\n", degraded))
		}
		if failed > 0 {
			v = append(v, fmt.Sprintf(" %d\n", failed))
		}
		if !sn.Disrupted && healthy == n {
			v = append(v, "FULLY RESILIENT")
		}
	case goal.AdaptToTraffic:
		use := float64(n-quiet) / float64(n) * 100
		whole("Current Load: %.0f%%\n", float64(working)/float64(n)*100)
		whole("Capacity: ["+bar(use)+"] %.0f%%\n", use)
		st := "SLOW"
		if load := float64(working) / float64(n) * 100; sn.Coherence >= 0.8 && load > 30 {
			st = "RESPONSIVE"
		} else if sn.Coherence >= 0.6 {
			st = "ADAPTING"
		}
		v = append(v, "Adaptation: "+st+"\n")
		switch {
		case !far(use, 30, 80): // either way
		case use > 80:
			v = append(v, "SCALE UP")
		case use < 30:
			v = append(v, "SCALE DOWN")
		default:
			v = append(v, "OPTIMAL")
		}
		v = append(v, level(sn.Coherence, []float64{sn.TargetCoherence, sn.TargetCoherence * 0.9}, "Agents synchronized!", "Agents learning...", "Agents scattered."))
		v = append(v, fmt.Sprintf("Scaled Units: %d/%d\n", working, n),
			fmt.Sprintf("Idle: %d units\n", quiet), fmt.Sprintf("Normal: %d units\n", n-quiet-busy), fmt.Sprintf("Busy: %d units\n", busy))
	}
	return v
}

// bar is a bar of twenty for a share in percent.
func bar(x float64) string {
	k := int(x / 5)
	return strings.Repeat("█", k) + strings.Repeat("░", 20-k)
}

// gaugesFor is what the two gauges show, within one percent.
func gaugesFor(g goal.Type, sn display.SimulationSnapshot) (now, aim float64) {
	n := float64(len(sn.Agents))
	share := func(levels ...string) float64 {
		k := 0.0
		for _, a := range sn.Agents {
			if slices.Contains(levels, a.ActivityLevel) {
				k++
			}
		}
		return k / n * 100
	}
	now, aim = sn.Coherence*100, sn.TargetCoherence*100
	switch g {
	case goal.DistributeLoad:
		now, aim = 100-now, 100-aim
	case goal.ReachConsensus:
		aim = 95
	case goal.SaveEnergy:
		now, aim = share("quiet"), 70
	case goal.RecoverFromFailure:
		if sn.Disrupted {
			now /= 2
		}
		aim = 80
	case goal.AdaptToTraffic:
		now, aim = share("burst", "active"), 60
	}
	return now, aim
}

// reached says whether the gauge shows the goal as reached, if that is certain.
func reached(g goal.Type, sn display.SimulationSnapshot, now float64) (green, sure bool) {
	aim := sn.TargetCoherence * 100
	switch g {
	case goal.MinimizeAPICalls:
		return now >= aim, true
	case goal.MinimizeLatency, goal.MaintainRhythm:
		return now >= aim, math.Abs(now-aim) > 1 || now == aim
	case goal.DistributeLoad:
		return now >= 50, far(now, 50)
	case goal.ReachConsensus:
		return now >= 95, far(now, 95)
	case goal.SaveEnergy:
		return now >= 70, far(now, 70)
	case goal.RecoverFromFailure:
		return now >= 80 && !sn.Disrupted, far(now, 80)
	case goal.AdaptToTraffic:
		return now >= 40 && now <= 80, math.Abs(now-80) > 1 && far(now, 40)
	}
	return false, false
}

// waves: a bar is as green as the agent is aligned with the others.
func waves(w *W, env *sysio.Env, sn display.SimulationSnapshot) {
	var c, s float64
	for _, a := range sn.Agents {
		c, s = c+math.Cos(a.Phase), s+math.Sin(a.Phase)
	}
	n := float64(len(sn.Agents))
	r, mean := math.Hypot(c, s)/n, math.Atan2(s, c)
	groups := r < 0.3
	if math.Abs(r-0.3) < 1e-3 {
		return
	}
	shades := map[int]cell.Color{}
	for _, p := range env.Panels {
		t := p.Content()
		if !strings.Contains(t, "PHASE CONVERGENCE") {
			continue
		}
		cols, i, col := p.Colors(), 0, 0
		for _, x := range t {
			if x == '█' {
				d := math.Abs(math.Remainder(sn.Agents[col].Phase-mean, 2*math.Pi))
				if groups { // a colour for each third of the circle
					third := (math.Remainder(sn.Agents[col].Phase, 2*math.Pi) + math.Pi) * 3 / (2 * math.Pi)
					if far(third, 0, 1, 2, 3) {
						k := int(third)
						if c, ok := shades[k]; ok {
							w.Check(c == cols[i], "waves", "the bars of agents in the same third of the circle are %v and %v", c, cols[i])
						}
						shades[k] = cols[i]
						for o, c := range shades {
							w.Check(o == k || c != cols[i], "waves", "the bars of agents in different thirds of the circle are both %v", c)
						}
						w.Probe("thirds")
					}
				} else if far(d, math.Pi*(1-r)) {
					w.Check((cols[i] == cell.ColorGreen) == (d < math.Pi*(1-r)), "waves", "the bar of an agent %.2f away from the others, coherent to %.2f, is green is %v", d, r, cols[i] == cell.ColorGreen)
				}
			}
			i, col = i+1, col+1
			if x == '\n' {
				col = 0
			}
		}
		w.Probe("waves")
	}
}

func panels(w *W) {
	env := &sysio.Env{TTY: true, W: w.Between(40, 220), H: w.Between(15, 70)}
	sysio.Cur = env
	if w.Rng.Bool(0.1) {
		lines(w, env)
		return
	}
	td := display.NewTerminalDisplay().(*display.TerminalDisplay)
	g, sc, pt := allGoals[w.Rng.Intn(len(allGoals))], allScales[w.Rng.Intn(5)], allPatterns[w.Rng.Intn(len(allPatterns))]
	td.SetSimulationName("NAME-" + sc.String())
	td.SetGoalName(g.String())
	td.SetGoalAndScale(g, sc)
	td.SetPattern(pt)
	w.Check(td.Initialize() == nil, "init", "the display cannot be set up")
	td.ShowWelcome()
	t := sysio.Text(env.Panels)
	good := pattern.GetQualifier(int(g), sc.DefaultAgentCount(), pt)
	mark := map[bool]string{true: "✓", false: "✗"}
	pm := mark[true]
	switch good {
	case pattern.QualifierFair:
		pm = "⚠"
	case pattern.QualifierPoor:
		pm = mark[false]
	}
	for _, x := range []string{g.String(), pt.String() + "  " + pm, "NAME-" + sc.String() + "  " + mark[g.IsRecommendedForSize(sc.DefaultAgentCount())]} {
		w.Check(strings.Contains(t, x), "welcome", "the welcome does not show %q", x)
	}
	w.Note("%v %v %v %dx%d", g, sc, pt, env.W, env.H)
	target := w.Unif(0.05, 0.95)
	var hist []float64
	frozen := false
	var prev display.SimulationSnapshot
	for i, k := 0, pick(w, 1, 2, 3, 10, w.Between(45, 130)); i < k; i++ {
		if !w.Keep() {
			continue
		}
		a := frame(w, target)
		if prev.Agents != nil && w.Rng.Bool(0.4) {
			a = after(w, prev, target)
		}
		prev = a
		cand := []display.SimulationSnapshot{a}
		if w.Rng.Bool(0.2) {
			b := frame(w, target)
			b.Paused = a.Paused
			cand = append(cand, b)
			for _, c := range cand {
				w.Go("update", func() { td.Update(c) })
			}
			w.Wait()
			w.Probe("two updates at once")
			if !a.Paused { // the chart tells in which order
				c := env.Charts[0]
				last := func(k int) float64 {
					x := c.Values("above")
					if i := len(x) - k; i >= 0 && !math.IsNaN(x[i]) {
						return x[i]
					}
					x = c.Values("below")
					if i := len(x) - k; i >= 0 {
						return x[i]
					}
					return -1
				}
				if last(1) == a.Coherence*100 {
					cand[0], cand[1] = cand[1], cand[0]
				}
				w.Check(last(2) == cand[0].Coherence*100 && last(1) == cand[1].Coherence*100, "chart", "two updates at once left %v, %v in the chart, not %v and %v", last(2), last(1), a.Coherence*100, b.Coherence*100)
				hist = append(hist, last(2), last(1))
				if a.Coherence != b.Coherence {
					cand = cand[1:]
				}
			}
		} else {
			td.Update(a)
			if !a.Paused {
				hist = append(hist, a.Coherence*100)
			}
		}
		if a.Paused {
			frozen = true
		}
		t := sysio.Text(env.Panels)
		missing := ""
		var sn display.SimulationSnapshot
		for _, c := range cand {
			missing = ""
			for _, x := range wants(g, c) {
				if !strings.Contains(t, x) {
					missing = x
					break
				}
			}
			if missing == "" {
				sn = c
				break
			}
		}
		w.Check(missing == "", "shown", "%v: the panels do not show %q", g, missing)
		w.Check(strings.Count(t, "Workload ") == 1 && strings.Count(t, "STATUS INDICATORS") == 1 && strings.Count(t, "SAVINGS:") == 1 && strings.Count(t, "Goals: ") == 1, "twice", "a panel is missing or shown twice")
		w.Check(strings.Contains(t, g.String()) && strings.Contains(t, pt.String()) && strings.Contains(t, "NAME-"+sc.String()), "config", "the configuration is not shown")
		moves(w, t, sn)
		switch g {
		case goal.DistributeLoad:
			servers(w, t, sn)
		case goal.ReachConsensus:
			votes(w, t, sn)
		case goal.MinimizeAPICalls:
			bars := 0
			for i, a := range sn.Agents {
				if i < 35 {
					bars += int((math.Sin(a.Phase) + 1) / 2 * 8)
				}
			}
			waves(w, env, sn)
			w.Check(strings.Count(t, "█") == bars, "bars", "the bars have %d blocks instead of %d", strings.Count(t, "█"), bars)
		}
		// the gauges
		now, aim := gaugesFor(g, sn)
		var got []int
		for _, x := range env.Gauges {
			p, _ := x.Value()
			got = append(got, p)
		}
		near := func(p int, x float64) bool { return math.Abs(float64(p)-x) <= 1 }
		w.Check(len(got) == 2 && (near(got[0], aim) && near(got[1], now) || near(got[1], aim) && near(got[0], now)), "gauge", "%v: the gauges stand at %v instead of %.1f and %.1f", g, got, aim, now)
		shade := env.Gauges[1].Shade()
		if got[0] != got[1] && near(got[0], now) && !near(got[1], now) {
			shade = env.Gauges[0].Shade()
		}
		if green, sure := reached(g, sn, now); sure {
			w.Check((shade == cell.ColorGreen) == green, "colour", "%v: with %.1f%% of %.1f%% the gauge is green is %v", g, now, aim, shade == cell.ColorGreen)
			w.Probe("gauge colour")
		}
		// the chart
		c := env.Charts[0]
		if len(hist) > 50 {
			hist = hist[len(hist)-50:]
			w.Probe("chart full")
		}
		above, below, aims := c.Values("above"), c.Values("below"), c.Values("target")
		w.Check(len(above) == len(hist) && len(below) == len(hist) && len(aims) == len(hist), "chart", "the chart has %d, %d and %d points instead of %d", len(above), len(below), len(aims), len(hist))
		for i, h := range hist {
			x := above
			if h < target*100 {
				x = below
			}
			w.Check(x[i] == h, "chart", "point %d of the chart is %v instead of %v", i, x[i], h)
			for _, y := range []float64{above[i], below[i]} {
				w.Check(math.IsNaN(y) || y == h, "chart", "point %d of the chart is also %v", i, y)
			}
			w.Check(aims[i] == target*100, "chart", "the target at point %d is %v", i, aims[i])
		}
		w.Check(len(env.Errs) == 0, "errors", "%s", strings.Join(env.Errs, "; "))
		w.Probe(g.String())
	}
	if frozen {
		w.Probe("paused")
	}
	st := display.Statistics{TotalAPICalls: w.Between(0, 9999), TotalBatches: w.Between(0, 999), AverageBatchSize: w.Unif(0, 30), TotalSavings: w.Unif(0, 99), SavingsPercent: w.Unif(0, 100), PeakCoherence: w.Unif(0, 1),
		TimeToConverge: pick(w, 0, time.Duration(w.Unif(0, 59)*1e9), time.Duration(w.Unif(61, 900)*1e9))}
	td.ShowSummary(st)
	t = sysio.Text(env.Panels)
	for _, x := range []string{"SIMULATION COMPLETE", fmt.Sprintf("Total Savings: $%.2f (%.1f%%)", st.TotalSavings, st.SavingsPercent), fmt.Sprintf("(individual): %d\n", st.TotalAPICalls), fmt.Sprintf("(batched):    %d\n", st.TotalBatches),
		fmt.Sprintf("Batch Size:     %.1f\n", st.AverageBatchSize), fmt.Sprintf("Coherence:         %.1f%%\n", st.PeakCoherence*100), "Converge:       " + span(st.TimeToConverge) + "\n"} {
		w.Check(strings.Contains(t, x), "summary", "the summary does not show %q", x)
	}
	for _, x := range []string{"STATUS INDICATORS", "Workload ", "SAVINGS:", "⊕"} {
		w.Check(!strings.Contains(t, x), "summary", "the summary still shows %q", x)
	}
	w.Check(td.Close() == nil && env.Closed == 1, "close", "the terminal was closed %d times", env.Closed)
	total(w, env.Out.String()[env.Shut:], st)
	w.Check(len(env.Errs) == 0, "errors", "%s", strings.Join(env.Errs, "; "))
}

// span is a duration the way the panels show it.
func span(d time.Duration) string {
	if d < time.Minute {
		return fmt.Sprintf("%.1fs", d.Seconds())
	}
	return fmt.Sprintf("%.1fm", d.Minutes())
}

// total: the summary as text.
func total(w *W, t string, st display.Statistics) {
	for _, x := range []string{"SIMULATION COMPLETE", fmt.Sprintf("(without sync): %d\n", st.TotalAPICalls), fmt.Sprintf("(with sync):       %d\n", st.TotalBatches), fmt.Sprintf("Batch Size:              %.1f\n", st.AverageBatchSize),
		fmt.Sprintf("$%.2f (%.1f%%)\n", st.TotalSavings, st.SavingsPercent), fmt.Sprintf("Peak Coherence:                  %.1f%%\n", st.PeakCoherence*100)} {
		w.Check(strings.Count(t, x) == 1, "summary", "the summary left behind does not show %q", x)
	}
}

// moves: the map of the swarm shows agents on, near and far from the beat.
func moves(w *W, t string, sn display.SimulationSnapshot) {
	i := strings.Index(t, "⊕")
	w.Check(i >= 0, "map", "there is no map")
	panel := t[strings.LastIndexByte(t[:i], 0)+1:]
	if j := strings.IndexByte(panel, 0); j >= 0 {
		panel = panel[:j]
	}
	if j := strings.LastIndex(panel, "⊕"); j >= 0 { // the legend
		panel = panel[:j]
	}
	kinds := map[rune]bool{}
	for i, a := range sn.Agents {
		if i >= 20 {
			break
		}
		d, _ := off(a.Phase)
		switch {
		case d < 0.5:
			kinds['●'] = true
		case d < 1:
			kinds['o'] = true
		default:
			kinds['∙'] = true
		}
	}
	marks := 0
	for _, r := range panel {
		if strings.ContainsRune("●o∙", r) {
			marks++
			w.Check(kinds[r], "map", "the map shows a %c, no agent is that far from the beat", r)
		}
	}
	w.Check(marks <= min(len(sn.Agents), 20), "map", "the map shows %d agents of %d", marks, len(sn.Agents))
}

// servers: each agent loads the server of its quarter of the circle.
func servers(w *W, t string, sn display.SimulationSnapshot) {
	want := make([]int, 4)
	for _, a := range sn.Agents {
		r := math.Mod(a.Phase, 2*math.Pi)
		if !far(r, 0, math.Pi/2, math.Pi, 3*math.Pi/2, 2*math.Pi) {
			return // it may count on either side
		}
		want[int(r/(math.Pi/2))]++
	}
	got := make([]int, 4)
	for i := range got {
		k := strings.Index(t, fmt.Sprintf("Server%d: ", i+1))
		w.Check(k >= 0, "servers", "server %d is not shown", i+1)
		l := strings.SplitN(t[k:], "\n", 2)[0]
		_, err := fmt.Sscan(l[strings.LastIndex(l, " ")+1:], &got[i])
		w.Check(err == nil, "servers", "no load in %q", l)
	}
	mean, v := float64(len(sn.Agents))/4, 0.0
	for _, x := range want {
		v += (float64(x) - mean) * (float64(x) - mean) / 4
	}
	slices.Sort(want)
	slices.Sort(got)
	w.Check(slices.Equal(want, got), "servers", "the servers have loads %v instead of %v", got, want)
	if far(math.Sqrt(v), 2) {
		st := "BALANCED"
		if math.Sqrt(v) > 2 {
			st = "IMBALANCED"
		}
		w.Check(strings.Contains(t, "\nStatus: "+st+"\n"), "servers", "loads %v are not called %s", got, st)
	}
}

// votes: the share of the largest group of agents close together.
func votes(w *W, t string, sn display.SimulationSnapshot) {
	i := strings.Index(t, "] ")
	w.Check(i >= 0, "votes", "no votes are shown")
	p := 0.0
	_, err := fmt.Sscanf(t[i:], "] %f%%", &p)
	w.Check(err == nil, "votes", "no votes in %q", t[i:i+12])
	n := len(sn.Agents)
	most := func(width float64) int {
		m := 0
		for _, a := range sn.Agents {
			k := 0
			for _, b := range sn.Agents {
				if d := math.Mod(b.Phase-a.Phase+2*math.Pi, 2*math.Pi); d <= width {
					k++
				}
			}
			m = max(m, k)
		}
		return m
	}
	hi, lo := float64(most(1))/float64(n)*100, float64(most(0.49))/4/float64(n)*100
	w.Check(p <= hi+1 && p >= lo-1, "votes", "%.0f%% agree, the largest group has between %.0f%% and %.0f%%", p, lo, hi)
	w.Check(strings.Contains(t, "CONSENSUS REACHED") == (p >= 94.5) || math.Abs(p-95) < 1, "votes", "%.0f%% agree, consensus is %v", p, strings.Contains(t, "CONSENSUS REACHED"))
}

// lines: the display without a terminal.
func lines(w *W, env *sysio.Env) {
	td := display.NewTextDisplay()
	_ = td.Initialize()
	td.ShowWelcome()
	last, count := time.Duration(-1), 0
	for i := 0; i < 20; i++ {
		w.Sleep(time.Duration(pick(w, 0, 100, w.Between(0, 2500))) * time.Millisecond)
		sn := frame(w, 0.5)
		was := env.Out.Len()
		before := w.Now()
		td.Update(sn)
		out := env.Out.String()[was:]
		if out != "" {
			want := fmt.Sprintf("Coherence: %.1f%% | Savings: $%.2f (%.1f%%) | Batches: %d\n", sn.Coherence*100, sn.Savings, sn.SavingsPercent, sn.BatchesProcessed)
			w.Check(strings.Count(out, "\n") == 1 && strings.HasSuffix(out, want), "line", "the line is %q instead of %q", out, want)
			var at int
			unit := "s"
			el := sn.ElapsedTime.Seconds()
			if el >= 60 {
				unit, el = "m", el/60
			}
			_, err := fmt.Sscanf(out, "[%d"+unit+"]", &at)
			w.Check(err == nil && math.Abs(float64(at)-el) <= 1, "line", "after %v the line is %q", sn.ElapsedTime, out)
			w.Check(last < 0 || w.Now()-last >= time.Second, "line", "two lines within %v", w.Now()-last)
			last = before
			count++
		} else {
			w.Check(last >= 0 && before-last < time.Second+time.Millisecond, "line", "no line although the last was %v ago", before-last)
		}
	}
	st := display.Statistics{TotalAPICalls: w.Between(0, 9999), TotalBatches: w.Between(0, 999), AverageBatchSize: w.Unif(0, 30), TotalSavings: w.Unif(0, 99), SavingsPercent: w.Unif(0, 100), PeakCoherence: w.Unif(0, 1)}
	was := env.Out.Len()
	td.ShowSummary(st)
	total(w, env.Out.String()[was:], st)
	w.Probe("lines of text")
}
