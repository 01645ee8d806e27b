package rt

import "fmt"

// ---- used by shims

// Park blocks the current task.
func Park(why string) { S.park(why) }

// Cur is the running task.
func Cur() *Task {
	if S == nil {
		return nil
	}
	return S.cur
}

// Killed reports whether the current task is being torn down.
func Killed() bool { return S != nil && S.cur != nil && S.cur.killed }

// Wake makes a parked task runnable.
func Wake(t *Task) { S.makeReady(t) }

// Data is the stream of environment randomness (not scheduling).
func Data() *RNG { return &S.data }

// Fault counts an injected fault.
func Fault(kind string) {
	if S != nil {
		S.faults[kind]++
	}
}

// Cfg is the current configuration.
func Cfg() *Config { return &S.Cfg }

// FaultsOff reports whether fault injection has been stopped.
func FaultsOff() bool { return S == nil || S.faultsOff }

// NumTasks is the number of live tasks.
func NumTasks() int { return S.live }

// Fatal ends the run like an unrecoverable runtime error.
func Fatal(msg string) {
	s := S
	if s == nil {
		panic(msg)
	}
	s.fail("fatal", "fatal error: "+msg+" [task "+s.cur.Name+"]")
	s.abort()
}

// ---- used by the harness

// StopFaults ends fault injection; scheduling becomes fair.
func StopFaults() {
	s := S
	s.faultsOff = true
	if !s.Cfg.Replay {
		s.refill()
	}
}

// HarnessGo starts a harness (client) task.
func HarnessGo(name string, f func()) {
	s := S
	Point("go")
	s.harnessSpawn = true
	t := s.newTask(name, f)
	_ = t
	s.harnessSpawn = false
	if s.Cfg.Strategy == "pct" && !s.Cfg.Replay && t.prio > s.cur.prio {
		s.countdown = 0
	}
}

// Atomically runs f without any scheduling point: for oracles that look at the
// whole state at one instant.  f must not block.
func Atomically(f func()) {
	s := S
	if s == nil {
		f()
		return
	}
	of := fine
	s.noYield++
	fine = false
	f()
	fine = of
	s.noYield--
}

// Logf adds to the run's log.
func Logf(format string, a ...any) {
	if S != nil && len(S.log) < 4000 {
		S.log = append(S.log, fmt.Sprintf("[step %d t=%.6fs task %d] ", S.steps, float64(S.now)/1e9, curID())+fmt.Sprintf(format, a...))
	}
}

func curID() int {
	if S == nil || S.cur == nil {
		return -1
	}
	return S.cur.ID
}

// Steps so far.
func Steps() int64 { return S.steps }

// LiveTasks lists the system's own live tasks (not harness tasks).
func LiveTasks() []*Task {
	var out []*Task
	for _, t := range S.tasks {
		if t.state != stDone && !t.Harness {
			out = append(out, t)
		}
	}
	return out
}

// Blocked describes why a task is not running.
func (t *Task) Blocked() string { return t.why }

// Current is the running task.
func Current() *Task { return S.cur }

// Waiting reports whether a task is parked in an operation of that kind.
func (t *Task) Waiting(kind string) bool {
	return len(t.why) >= len(kind) && t.why[:len(kind)] == kind
}

// SetOnRace installs a race callback for this run.
func SetOnRace(f func(key, msg string)) { S.OnRace = f }

// Freeze stops the whole process for d, as doFreeze does, where a scenario
// asks for it.
func Freeze(d int64) { S.doFreeze(d) }

// Advance lets simulated time pass for the calling harness task.
func Advance(d int64) { Sleep(d) }

// GoQuiet starts a task from shim code without a scheduling point; it may run
// in timer context.
func GoQuiet(name string, f func()) {
	if S == nil {
		go f()
		return
	}
	S.newTask(name, f)
}
