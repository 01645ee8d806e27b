// Package rt is the deterministic simulator: it owns every goroutine of the
// system under test, runs exactly one at a time, and decides every
// interleaving, timer, delay and fault from a seed.  A run can be recorded as
// a sparse list of decisions and replayed from that list exactly.
package rt

import (
	"fmt"
	"hash/maphash"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

var _ = maphash.String

// Site describes an instrumented memory access.
type Site struct{ Pos, Func, Expr string }

// Sites is filled by the generated file sites_gen.go.
var Sites []Site

type taskState uint8

const (
	stReady taskState = iota
	stRunning
	stBlocked
	stDone
)

// Task is one simulated goroutine.
type Task struct {
	ID      int
	Name    string
	Harness bool // started by the test harness, not by the system under test
	state   taskState
	wake    chan struct{}
	vc      VC
	why     string
	killed  bool
	prio    int64
	parent  int
	created string
	stalled bool
	spin    int
}

// Decision kinds.
const (
	DSwitch = "switch" // run task Arg next
	DStall  = "stall"  // suspend the running task for Dur ns
	DFreeze = "freeze" // the whole process stops for Dur ns (clock leap)
)

// Decision is one recorded scheduling or fault decision.
type Decision struct {
	Step int64  `json:"step"`
	Kind string `json:"kind"`
	Arg  int    `json:"arg,omitempty"`
	Dur  int64  `json:"dur,omitempty"`
	At   string `json:"at,omitempty"`
}

// Config of one run; fully determined by the seed, but stored in replay files.
type Config struct {
	Seed       uint64     `json:"seed"`
	Fine       bool       `json:"fine"`
	Race       bool       `json:"race"`
	Strategy   string     `json:"strategy"`          // walk, pct, fair
	SlowBy     int        `json:"slow_by,omitempty"` // walk: some goroutines get a step only once in so many
	MeanGap    int64      `json:"mean_gap"`
	PCTDepth   int        `json:"pct_depth"`
	PCTLen     int64      `json:"pct_len"`
	StepNs     int64      `json:"step_ns"`
	StallProb  float64    `json:"stall_prob"`
	MaxStalls  int        `json:"max_stalls"`
	FreezeProb float64    `json:"freeze_prob"`
	MaxFreezes int        `json:"max_freezes"`
	StallMax   int64      `json:"stall_max"`
	PoolMiss   float64    `json:"pool_miss"`
	RandEdge   float64    `json:"rand_edge"`
	CPUs       int        `json:"cpus"`
	MaxSteps   int64      `json:"max_steps"`
	MaxTime    int64      `json:"max_time"`
	Replay     bool       `json:"-"`
	Decisions  []Decision `json:"-"`
}

// Failure is a violation observed in a run.
type Failure struct {
	Prop string `json:"prop"`
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
	Step int64  `json:"step"`
	Time int64  `json:"time"`
}

// Result of one run.
type Result struct {
	Failure   *Failure
	Capped    bool
	Steps     int64
	Switches  int64
	Time      int64
	Tasks     int
	Hash      uint64
	Faults    map[string]int64
	Decisions []Decision
	Log       []string
}

// Sim is the state of the current run.
type Sim struct {
	Cfg          Config
	epoch        uint32
	tasks        []*Task
	ready        []*Task
	cur          *Task
	now          int64
	steps        int64
	spin         int64
	countdown    int64
	nextPick     int64
	timers       timerHeap
	tseq         int64
	sched        RNG
	data         RNG
	dec          []Decision
	replayIdx    int
	stalls       int
	freezes      int
	faultsOff    bool
	switches     int64
	runLen       int64
	hash         uint64
	faults       map[string]int64
	failure      *Failure
	capped       bool
	ended        bool
	done         chan struct{}
	chans        map[uintptr]*chanState
	addrSync     map[uintptr]*SyncVar
	race         *raceState
	pctPoints    []int64
	log          []string
	noYield      int
	live         int
	lastWhat     string
	harnessSpawn bool
	OnRace       func(key, msg string)
}

// S is the running simulation, nil outside a run.
var S *Sim

// fine is true while memory accesses are scheduling points.
var fine bool

var epochs uint32

// RNG is splitmix64: small, fast, stable across Go versions.
type RNG struct{ s uint64 }

func NewRNG(seed uint64) RNG { return RNG{seed} }
func (r *RNG) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *RNG) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *RNG) Int63n(n int64) int64 {
	if n <= 1 {
		return 0
	}
	return int64(r.U64() % uint64(n))
}
func (r *RNG) Float() float64 { return float64(r.U64()>>11) / (1 << 53) }
func (r *RNG) Bool(p float64) bool {
	if p <= 0 {
		return false
	}
	return r.Float() < p
}
func (r *RNG) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}

// Mix combines seed parts.
func Mix(a ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, x := range a {
		r := RNG{h ^ x}
		h = r.U64()
	}
	return h
}

// Active reports whether the caller runs inside a simulation.
func Active() bool { return S != nil && S.cur != nil }

// Epoch identifies the run; synchronisation objects reset when it changes.
func Epoch() uint32 {
	if S == nil {
		return 0
	}
	return S.epoch
}

// Run executes main as the first task of a fresh simulation.
func Run(cfg Config, main func()) Result {
	if S != nil {
		panic("rt: nested Run")
	}
	epochs++
	s := &Sim{Cfg: cfg, epoch: epochs, done: make(chan struct{}, 1),
		faults: map[string]int64{}, chans: map[uintptr]*chanState{}, addrSync: map[uintptr]*SyncVar{}}
	s.sched = NewRNG(Mix(cfg.Seed, 1))
	s.data = NewRNG(Mix(cfg.Seed, 2))
	if s.Cfg.MaxSteps == 0 {
		s.Cfg.MaxSteps = 2_000_000
	}
	if s.Cfg.MaxTime == 0 {
		s.Cfg.MaxTime = int64(3600e9)
	}
	if s.Cfg.CPUs == 0 {
		s.Cfg.CPUs = 4
	}
	if cfg.Race {
		s.race = newRace()
	}
	if cfg.Strategy == "pct" && !cfg.Replay {
		n := cfg.PCTLen
		if n < 100 {
			n = 100
		}
		for i := 0; i < cfg.PCTDepth; i++ {
			s.pctPoints = append(s.pctPoints, 1+s.sched.Int63n(n))
		}
		sort.Slice(s.pctPoints, func(i, j int) bool { return s.pctPoints[i] < s.pctPoints[j] })
	}
	S = s
	fine = cfg.Fine
	t := s.newTask("main", main)
	t.Harness = true
	s.refill()
	s.removeReady(t)
	s.cur = t
	t.state = stRunning
	t.wake <- struct{}{}
	<-s.done
	// kill what is left, one at a time
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		if t.state == stDone {
			continue
		}
		t.killed = true
		s.cur = t
		t.state = stRunning
		t.wake <- struct{}{}
		<-s.done
	}
	fine = false
	S = nil
	r := Result{Failure: s.failure, Capped: s.capped, Steps: s.steps, Switches: s.switches, Time: s.now,
		Tasks: len(s.tasks), Hash: s.hash, Faults: s.faults, Decisions: s.dec, Log: s.log}
	return r
}

func (s *Sim) newTask(name string, f func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name, wake: make(chan struct{}, 1), state: stReady}
	if s.cur != nil {
		t.parent = s.cur.ID
		t.Harness = s.harnessSpawn
	}
	if s.race != nil || true {
		var base VC
		if s.cur != nil {
			base = s.cur.vc.clone()
			s.cur.vc.tick(s.cur.ID)
		}
		base.set(t.ID, 1)
		t.vc = base
	}
	if s.Cfg.Strategy == "pct" {
		t.prio = int64(s.sched.U64()>>2) + 1<<40
	}
	s.tasks = append(s.tasks, t)
	s.live++
	s.ready = append(s.ready, t)
	go func() {
		<-t.wake
		defer t.exit()
		if t.killed {
			return
		}
		f()
	}()
	return t
}

func (t *Task) exit() {
	s := S
	if !t.killed {
		if r := recover(); r != nil {
			if _, ok := r.(abortRun); !ok {
				st := trimStack(string(debug.Stack()))
				s.fail("panic", fmt.Sprintf("panic: %v [task %s]\n%s", r, t.Name, st))
			}
		}
	} else {
		_ = recover()
	}
	t.state = stDone
	s.live--
	if t.killed {
		s.cur = nil
		s.done <- struct{}{}
		return
	}
	if t.ID == 0 || s.ended || s.failure != nil {
		s.ended = true
		s.cur = nil
		s.done <- struct{}{}
		return
	}
	s.steps++
	s.pickAndRun(nil)
}

type abortRun struct{}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.Contains(l, "zzverif/rt.") || strings.HasPrefix(l, "runtime") || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "goroutine ") {
			if !strings.HasPrefix(l, "\t") && i+1 < len(lines) && strings.HasPrefix(lines[i+1], "\t") {
				i++
			}
			continue
		}
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if k := strings.LastIndex(l, "("); k > 0 {
			l = l[:k]
		}
		out = append(out, "  "+l)
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

var address = regexp.MustCompile(`0x[0-9a-f]{8,16}\b`)

// plain leaves out of a message what differs from process to process.
func plain(msg string) string { return address.ReplaceAllString(msg, "0x..") }

func (s *Sim) fail(kind, msg string) {
	if s.failure == nil {
		s.failure = &Failure{Kind: kind, Msg: plain(msg), Step: s.steps, Time: s.now}
	}
}

// FailProp records a violation and ends the run; it does not return.
func FailProp(prop, kind, msg string) {
	s := S
	if s.failure == nil {
		s.failure = &Failure{Prop: prop, Kind: kind, Msg: plain(msg), Step: s.steps, Time: s.now}
	}
	s.abort()
}

// EndQuietly ends the run without a violation; it does not return.
func EndQuietly() { S.abort() }

// Soft records a violation but lets the run go on to its end.
func (s *Sim) softFail(kind, msg string) {
	s.fail(kind, msg)
}

func (s *Sim) abort() {
	// unwind the current task; exit() sees failure/ended and stops the run
	s.ended = true
	s.cur.killed = true
	runtime.Goexit()
}

// EndRun stops the run without a violation (e.g. cap reached).
func (s *Sim) cap() {
	s.capped = true
	s.abort()
}

// ---------------------------------------------------------------- scheduling

func (s *Sim) removeReady(t *Task) {
	for i, x := range s.ready {
		if x == t {
			s.ready = append(s.ready[:i], s.ready[i+1:]...)
			return
		}
	}
}

func (s *Sim) makeReady(t *Task) {
	if t.state != stBlocked {
		return
	}
	t.state = stReady
	t.why = ""
	s.ready = append(s.ready, t)
	if s.Cfg.Strategy == "pct" && !s.Cfg.Replay && s.cur != nil && t.prio > s.cur.prio {
		s.countdown = 0
	}
}

// refill computes the distance to the next point where a preemption is decided.
func (s *Sim) refill() {
	if s.Cfg.Replay {
		for s.replayIdx < len(s.Cfg.Decisions) && s.Cfg.Decisions[s.replayIdx].Step < s.steps {
			s.replayIdx++
		}
		if s.replayIdx < len(s.Cfg.Decisions) {
			s.countdown = s.Cfg.Decisions[s.replayIdx].Step - s.steps
			if s.countdown < 1 {
				s.countdown = 1
			}
		} else {
			s.countdown = 1 << 60
		}
		return
	}
	if s.faultsOff || s.Cfg.Strategy == "fair" {
		s.countdown = 1 + s.sched.Int63n(2*50)
		return
	}
	switch s.Cfg.Strategy {
	case "pct":
		s.countdown = 1 << 60
		if len(s.pctPoints) > 0 {
			s.countdown = s.pctPoints[0] - s.steps
			if s.countdown < 1 {
				s.countdown = 1
			}
		}
		if s.countdown > 20000 {
			s.countdown = 20000
		}
	default:
		g := s.Cfg.MeanGap
		if g < 1 {
			g = 1
		}
		s.countdown = 1 + s.sched.Int63n(2*g)
	}
}

// Point is a scheduling point: before every synchronisation operation (and, in
// fine mode, before every shared memory access) of the system under test.
func Point(what string) {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	if s.noYield > 0 {
		return
	}
	s.steps++
	s.spin = 0
	s.now += s.Cfg.StepNs
	if s.cur.killed {
		s.die()
	}
	s.countdown--
	if s.countdown > 0 && (len(s.timers) == 0 || s.now < s.timers[0].when) && s.steps < s.Cfg.MaxSteps {
		return
	}
	s.slowPoint(what)
}

// Loop is called on every turn of a for loop: one that turns for ever without
// reaching a scheduling point makes no progress.
func Loop() {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	s.spin++
	if s.spin > maxSpin {
		if s.cur.killed {
			s.die()
		}
		s.fail("no-progress", fmt.Sprintf("no progress: a loop has turned %d times without anything happening [task %s]\n%s", maxSpin, s.cur.Name, trimStack(string(debug.Stack()))))
		s.abort()
	}
}

const maxSpin = 100_000_000

func (s *Sim) die() {
	runtime.Goexit()
}

func (s *Sim) slowPoint(what string) {
	if s.steps >= s.Cfg.MaxSteps || s.now > s.Cfg.MaxTime {
		s.cap()
	}
	s.lastWhat = what
	for len(s.timers) > 0 && s.timers[0].when <= s.now {
		s.fireNext()
	}
	if s.countdown > 0 {
		return
	}
	s.decide(what)
}

// decide takes the preemption and fault decisions due at this step.
func (s *Sim) decide(what string) {
	if s.Cfg.Replay {
		var sw *Decision
		for s.replayIdx < len(s.Cfg.Decisions) && s.Cfg.Decisions[s.replayIdx].Step <= s.steps {
			d := s.Cfg.Decisions[s.replayIdx]
			s.replayIdx++
			if d.Step < s.steps {
				continue
			}
			switch d.Kind {
			case DSwitch:
				dd := d
				sw = &dd
			case DStall:
				s.doStall(d.Dur)
			case DFreeze:
				s.doFreeze(d.Dur)
			}
		}
		s.refill()
		if sw != nil {
			for _, t := range s.ready {
				if t.ID == sw.Arg {
					s.switchTo(t, what)
					return
				}
			}
		}
		return
	}
	if !s.faultsOff {
		if s.stalls < s.Cfg.MaxStalls && s.sched.Bool(s.Cfg.StallProb) {
			s.stalls++
			d := logDur(&s.sched, 1000, s.Cfg.StallMax)
			s.dec = append(s.dec, Decision{Step: s.steps, Kind: DStall, Dur: d, Arg: s.cur.ID, At: what})
			s.doStall(d)
			s.refill()
			return
		}
		if s.freezes < s.Cfg.MaxFreezes && s.sched.Bool(s.Cfg.FreezeProb) {
			s.freezes++
			d := logDur(&s.sched, 1000, s.Cfg.StallMax)
			s.dec = append(s.dec, Decision{Step: s.steps, Kind: DFreeze, Dur: d, At: what})
			s.doFreeze(d)
		}
	}
	if len(s.ready) == 0 {
		s.refill()
		return
	}
	var next *Task
	if s.Cfg.Strategy == "pct" && !s.faultsOff {
		atPoint := len(s.pctPoints) > 0 && s.pctPoints[0] <= s.steps
		if atPoint {
			s.cur.prio = int64(len(s.pctPoints)) // below every initial priority
			for len(s.pctPoints) > 0 && s.pctPoints[0] <= s.steps {
				s.pctPoints = s.pctPoints[1:]
			}
		} else if s.runLen > 0 && s.steps-s.runLen > 15000 {
			s.cur.prio = -s.steps // hogging: demote so that others progress
		}
		next = s.cur
		for _, t := range s.ready {
			if t.prio > next.prio {
				next = t
			}
		}
	} else {
		i := s.sched.Intn(len(s.ready) + 1)
		if s.faultsOff || s.Cfg.Strategy == "fair" {
			i = 0
		}
		if i < len(s.ready) {
			next = s.ready[i]
		} else {
			next = s.cur
		}
		if s.slow(next) {
			if t := s.quick(true); t != nil && s.sched.Intn(s.Cfg.SlowBy) > 0 {
				next = t
			}
		}
	}
	s.refill()
	if s.slow(next) {
		s.countdown = 1 // a slow goroutine is interrupted at every step
	}
	if next != s.cur {
		s.dec = append(s.dec, Decision{Step: s.steps, Kind: DSwitch, Arg: next.ID, At: what})
		s.faults["preemption"]++
		s.switchTo(next, what)
	}
}

// slow tells whether a goroutine is one of the run's slow ones.
func (s *Sim) slow(t *Task) bool {
	return s.Cfg.SlowBy > 0 && !s.Cfg.Replay && !s.faultsOff && Mix(s.Cfg.Seed, 5, uint64(t.ID))%4 == 0
}

// quick chooses one of the goroutines that are not slow, nil if there is none.
func (s *Sim) quick(cur bool) *Task {
	var ts []*Task
	for _, t := range s.ready {
		if !s.slow(t) {
			ts = append(ts, t)
		}
	}
	if cur && !s.slow(s.cur) {
		ts = append(ts, s.cur)
	}
	if len(ts) == 0 {
		return nil
	}
	return ts[s.sched.Intn(len(ts))]
}

func logDur(r *RNG, lo, hi int64) int64 {
	if hi <= lo {
		return lo
	}
	d := lo
	for d < hi && r.Intn(8) != 0 {
		d *= 2 + r.Int63n(3)
	}
	if d > hi {
		d = hi
	}
	return d + r.Int63n(d/4+1)
}

func (s *Sim) doStall(d int64) {
	s.faults["stall"]++
	t := s.cur
	t.stalled = true
	s.addTimer(s.now+d, func() { t.stalled = false; s.makeReady(t) }, nil)
	s.park("stalled by fault injection")
}

func (s *Sim) doFreeze(d int64) {
	s.faults["freeze"]++
	s.now += d
	for len(s.timers) > 0 && s.timers[0].when <= s.now {
		s.fireNext()
	}
}

// switchTo hands the processor to next; the current task stays ready.
func (s *Sim) switchTo(next *Task, what string) {
	t := s.cur
	t.state = stReady
	s.removeReady(next)
	s.ready = append(s.ready, t)
	s.handoff(t, next)
}

func (s *Sim) handoff(t, next *Task) {
	s.switches++
	s.runLen = s.steps
	s.hash = (s.hash ^ uint64(next.ID)*0x9e3779b97f4a7c15 ^ uint64(s.steps)) * 0x100000001b3
	s.cur = next
	next.state = stRunning
	next.wake <- struct{}{}
	if t != nil {
		<-t.wake
		if t.killed {
			s.die()
		}
		if s.ended { // cannot happen: ended runs wake only killed tasks
			s.die()
		}
	}
}

// park blocks the current task until makeReady.
func (s *Sim) park(why string) {
	t := s.cur
	if s.noYield > 0 {
		panic("rt: blocking operation inside a no-yield section: " + why)
	}
	if t.killed {
		s.die()
	}
	t.state = stBlocked
	t.why = why
	s.steps++
	s.pickAndRun(t)
}

// pickAndRun chooses the next task after the current one blocked or ended.
func (s *Sim) pickAndRun(t *Task) {
	if s.steps >= s.Cfg.MaxSteps {
		s.capped = true
	}
	for len(s.ready) == 0 && !s.capped {
		if len(s.timers) == 0 {
			break
		}
		if s.timers[0].when > s.now {
			s.now = s.timers[0].when
		}
		if s.now > s.Cfg.MaxTime {
			s.capped = true
			break
		}
		s.fireNext()
	}
	if len(s.ready) == 0 || s.capped {
		if !s.capped {
			s.fail("deadlock", s.deadlockMsg())
		}
		s.ended = true
		s.cur = nil
		s.done <- struct{}{}
		if t != nil {
			<-t.wake
			s.die()
		}
		return
	}
	// time may have passed: fire what is due
	for len(s.timers) > 0 && s.timers[0].when <= s.now {
		s.fireNext()
	}
	next := s.ready[0]
	if s.Cfg.Replay {
		for s.replayIdx < len(s.Cfg.Decisions) && s.Cfg.Decisions[s.replayIdx].Step <= s.steps {
			d := s.Cfg.Decisions[s.replayIdx]
			s.replayIdx++
			if d.Step == s.steps && d.Kind == DSwitch {
				for _, x := range s.ready {
					if x.ID == d.Arg {
						next = x
					}
				}
			}
		}
		s.refill()
	} else {
		if len(s.ready) > 1 && !s.faultsOff {
			switch s.Cfg.Strategy {
			case "pct":
				for _, x := range s.ready {
					if x.prio > next.prio {
						next = x
					}
				}
			case "fair":
			default:
				next = s.ready[s.sched.Intn(len(s.ready))]
				if s.slow(next) {
					if t := s.quick(false); t != nil && s.sched.Intn(s.Cfg.SlowBy) > 0 {
						next = t
					}
				}
			}
		}
		if s.slow(next) {
			s.countdown = 1
		}
		if next != s.ready[0] {
			s.dec = append(s.dec, Decision{Step: s.steps, Kind: DSwitch, Arg: next.ID, At: "blocked"})
		}
	}
	s.removeReady(next)
	if next == t { // became ready again through a timer
		t.state = stRunning
		s.cur = t
		return
	}
	s.handoff(t, next)
}

func (s *Sim) deadlockMsg() string {
	var b strings.Builder
	b.WriteString("deadlock: no goroutine can run and no timer is pending\n")
	for _, t := range s.tasks {
		if t.state == stBlocked {
			fmt.Fprintf(&b, "  task %d %s: %s\n", t.ID, t.Name, t.why)
		}
	}
	return b.String()
}

// ---------------------------------------------------------------- goroutines

// Go starts a goroutine.
func Go(f func()) { GoNamed("", f) }

// GoNamed starts a named goroutine.
func GoNamed(name string, f func()) {
	s := S
	if s == nil || s.cur == nil {
		go f()
		return
	}
	if s.cur.killed {
		return
	}
	Point("go")
	if name == "" {
		name = callerName(f)
	}
	t := s.newTask(name, f)
	if s.Cfg.Strategy == "pct" && !s.Cfg.Replay && t.prio > s.cur.prio {
		s.countdown = 0
	}
}

func callerName(f func()) string {
	var pcs [6]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if !strings.Contains(f.Function, "zzverif/rt.") && !strings.Contains(f.Function, "zzverif/sync.") {
			nm := f.Function
			if k := strings.LastIndex(nm, "/"); k >= 0 {
				nm = nm[k+1:]
			}
			return nm
		}
		if !more {
			return "?"
		}
	}
}
