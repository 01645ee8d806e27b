// Command harness runs the simulated scenarios: see DESIGN.md.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/carlisia/bio-adapt/zzverif/rt"
)

// Replay is the file a violation is reported with.
type Replay struct {
	Property  string        `json:"property"`
	Scenario  string        `json:"scenario"`
	Seed      uint64        `json:"seed"`
	Config    rt.Config     `json:"config"`
	Decisions []rt.Decision `json:"decisions"`
	Skip      []int         `json:"skip_ops,omitempty"`
	Failure   rt.Failure    `json:"failure"`
	Workload  []string      `json:"workload,omitempty"`
	Log       []string      `json:"log,omitempty"`
	Note      string        `json:"note,omitempty"`
	// Seeded: the run ended the process (or never ended), so there is no
	// decision list; it is replayed from its seed.
	Seeded bool `json:"seeded,omitempty"`
}

// Known is an entry of the known-findings file.
type Known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Commit   string `json:"commit,omitempty"`
	Scenario string `json:"scenario,omitempty"`
	Kind     string `json:"kind,omitempty"`  // regexp on the violation class
	Match    string `json:"match,omitempty"` // regexp on the message
	What     string `json:"what"`
}

func loadKnown(path string) []Known {
	var ks []Known
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &ks); err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		os.Exit(2)
	}
	return ks
}

func (k Known) matches(sc string, f *rt.Failure) bool {
	if k.Status != "known" || k.Property != f.Prop {
		return false
	}
	if k.Scenario != "" && k.Scenario != sc {
		return false
	}
	if k.Kind == "" && k.Match == "" {
		return false
	}
	if k.Kind != "" {
		if ok, _ := regexp.MatchString("^(?:"+k.Kind+")$", f.Kind); !ok {
			return false
		}
	}
	if k.Match != "" {
		if ok, _ := regexp.MatchString(k.Match, f.Msg); !ok {
			return false
		}
	}
	return true
}

func find(name string) *Scenario {
	for _, s := range scenarios {
		if s.Name == name {
			return s
		}
	}
	fmt.Fprintln(os.Stderr, "no scenario", name)
	os.Exit(2)
	return nil
}

// out is where the harness itself prints. In the commands that run simulations
// the standard output is closed to everything else: the code under test may
// print.
var out = os.Stdout

func silence() {
	fd, err := syscall.Dup(1)
	if err != nil {
		return
	}
	syscall.CloseOnExec(fd)
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		return
	}
	out = os.NewFile(uintptr(fd), "out")
	_ = syscall.Dup3(int(null.Fd()), 1, 0)
	_ = null.Close()
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check|worker|replay|minimise|list|log")
		os.Exit(2)
	}
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	debug.SetMaxStack(128 << 20)
	switch os.Args[1] {
	case "worker", "replay", "minimise", "digest", "one":
		silence()
	}
	switch os.Args[1] {
	case "list":
		for _, s := range scenarios {
			fmt.Println(s.Prop, s.Name, s.Quick, s.Thorough)
		}
	case "worker":
		worker(os.Args[2:])
	case "replay":
		os.Exit(replayCmd(os.Args[2:]))
	case "minimise":
		minimiseCmd(os.Args[2:])
	case "check":
		os.Exit(check(os.Args[2:]))
	case "digest":
		digest(os.Args[2:])
	case "one":
		one(os.Args[2:])
	default:
		os.Exit(2)
	}
}

func seedOf(base uint64, sc string, i int) uint64 {
	h := uint64(1469598103934665603)
	for _, c := range []byte(sc) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return rt.Mix(base, h, uint64(i))
}

// WorkerOut is one line of worker output.
type WorkerOut struct {
	Scenario string
	Runs     int
	Steps    int64
	Switches int64
	SimNs    int64
	Evals    int64
	Tasks    int64
	Capped   int64
	Fine     int64
	MaxSteps int64
	Strategy map[string]int64
	Faults   map[string]int64
	Probe    map[string]int64
	Hashes   []uint64
	Nontriv  int64
	Known    map[int]int64
	Failure  *Replay
	Sample   []string
	Done     bool
	Running  string
}

var memLimit = uint64(900 << 20)

func maybeGC() {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if ms.HeapAlloc > memLimit {
		runtime.GC()
	}
}

// worker runs seeds from..to of a scenario, in steps of stride.
func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	scn := fs.String("scenario", "", "")
	base := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 0, "")
	stride := fs.Int("stride", 1, "")
	known := fs.String("known", "", "")
	budget := fs.Float64("budget", 1e9, "")
	mark := fs.String("mark", "", "file that names the seed being run")
	_ = fs.Parse(args)
	runtime.GOMAXPROCS(2)
	var mf *os.File
	if *mark != "" {
		mf, _ = os.Create(*mark)
	}
	ks := loadKnown(*known)
	sc := find(*scn)
	o := WorkerOut{Scenario: sc.Name, Strategy: map[string]int64{}, Faults: map[string]int64{}, Probe: map[string]int64{}, Known: map[int]int64{}}
	start := time.Now()
	enc := json.NewEncoder(out)
	n := 0
	lastBeat := time.Now()
	for i := *from; i < *to; i += *stride {
		if time.Since(start).Seconds() > *budget {
			break
		}
		seed := seedOf(*base, sc.Name, i)
		if time.Since(lastBeat) > 2*time.Second || n == 0 {
			_ = enc.Encode(WorkerOut{Scenario: sc.Name, Running: fmt.Sprint(seed)})
			lastBeat = time.Now()
		}
		if mf != nil {
			_, _ = mf.WriteAt([]byte(fmt.Sprintf("%020d", seed)), 0)
		}
		cfg := configFor(sc, seed)
		r := execRun(sc, cfg, nil)
		n++
		if n%16 == 0 || r.Steps > 20000 {
			maybeGC()
		}
		o.Runs++
		o.Steps += r.Steps
		o.Switches += r.Switches
		o.SimNs += r.Time
		o.Evals += r.Evals
		o.Tasks += int64(r.Tasks)
		if r.Steps > o.MaxSteps {
			o.MaxSteps = r.Steps
		}
		if r.Capped {
			o.Capped++
		}
		if cfg.Fine {
			o.Fine++
		}
		o.Strategy[cfg.Strategy]++
		for k, v := range r.Faults {
			o.Faults[k] += v
		}
		for k, v := range r.Probe {
			o.Probe[k] += v
		}
		if r.Switches > 1 && r.Evals > 0 {
			o.Nontriv++
			o.Hashes = append(o.Hashes, rt.Mix(r.Hash, uint64(r.Steps), hashStrs(r.Desc)))
		}
		if len(o.Sample) == 0 && r.Switches > 2 {
			o.Sample = append(o.Sample, fmt.Sprintf("scenario=%s seed=%d strategy=%s fine=%v steps=%d switches=%d simulated=%v workload: %s",
				sc.Name, seed, cfg.Strategy, cfg.Fine, r.Steps, r.Switches, time.Duration(r.Time), strings.Join(clip(r.Desc, 12), "; ")))
		}
		if r.Failure != nil {
			kn := -1
			for j, k := range ks {
				if k.matches(sc.Name, r.Failure) {
					kn = j
				}
			}
			if kn >= 0 {
				o.Known[kn]++
				continue
			}
			o.Failure = &Replay{Property: sc.Prop, Scenario: sc.Name, Seed: seed, Config: cfg, Decisions: r.Decisions, Failure: *r.Failure, Workload: r.Desc, Log: r.Log}
			break
		}
	}
	o.Done = true
	_ = enc.Encode(o)
}

func clip(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func hashStrs(ss []string) uint64 {
	h := uint64(1469598103934665603)
	for _, s := range ss {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
	}
	return h
}

// digest prints one line per run: used to prove determinism across processes.
func digest(args []string) {
	fs := flag.NewFlagSet("digest", flag.ExitOnError)
	scn := fs.String("scenario", "", "")
	base := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 0, "")
	procs := fs.Int("procs", 2, "")
	rep := fs.Bool("replay", false, "also replay each run from its decision list")
	_ = fs.Parse(args)
	runtime.GOMAXPROCS(*procs)
	w := bufio.NewWriter(out)
	defer w.Flush()
	for _, sc := range scenarios {
		if *scn != "" && sc.Name != *scn {
			continue
		}
		for i := *from; i < *to; i++ {
			seed := seedOf(*base, sc.Name, i)
			cfg := configFor(sc, seed)
			r := execRun(sc, cfg, nil)
			line := func(r RunOut) string {
				k := ""
				if r.Failure != nil {
					k = r.Failure.Kind
				}
				return fmt.Sprintf("%s %d steps=%d sw=%d t=%d h=%x tasks=%d ev=%d fail=%s d=%x", sc.Name, seed, r.Steps, r.Switches, r.Time, r.Hash, r.Tasks, r.Evals, k, hashStrs(r.Desc))
			}
			fmt.Fprintln(w, line(r))
			if *rep {
				c2 := cfg
				c2.Replay = true
				c2.Decisions = r.Decisions
				r2 := execRun(sc, c2, nil)
				if line(r2) != line(r) {
					fmt.Fprintln(w, "REPLAY-DIFF", line(r2))
				}
			}
			if i%16 == 0 {
				maybeGC()
			}
		}
	}
}

// ---------------------------------------------------------------- replay

func runReplay(rp *Replay) RunOut {
	cfg := rp.Config
	cfg.Replay = true
	cfg.Decisions = rp.Decisions
	skip := map[int]bool{}
	for _, i := range rp.Skip {
		skip[i] = true
	}
	return execRun(find(rp.Scenario), cfg, skip)
}

// seededLimit is how long a run that is suspected of never ending may take.
const seededLimit = 150 * time.Second

// replaySeeded runs a seed in a process of its own; what is reported is that
// the process dies or does not end.
func replaySeeded(file string, rp *Replay) int {
	self, _ := os.Executable()
	c := exec_(self, "one", rp.Scenario, fmt.Sprint(rp.Seed))
	var eb strings.Builder
	c.Stderr = &limited{w: &eb, n: 4000}
	if err := c.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	kind := ""
	select {
	case err := <-done:
		if err != nil {
			kind = "crash"
		}
	case <-time.After(seededLimit):
		_ = c.Process.Kill()
		<-done
		kind = "hang"
	}
	if kind == "" {
		fmt.Fprintln(out, "REPLAY no violation")
		return 0
	}
	fmt.Fprintf(out, "REPLAY property=%s kind=%s scenario=%s seed=%d\n%s\n", rp.Property, kind, rp.Scenario, rp.Seed, firstLines(eb.String(), 12))
	if kind != rp.Failure.Kind {
		return 3
	}
	return 1
}

func firstLines(s string, n int) string {
	return strings.Join(clip(strings.Split(s, "\n"), n), "\n")
}

// one performs a single run from its seed.
func one(args []string) {
	sc := find(args[0])
	var seed uint64
	_, _ = fmt.Sscan(args[1], &seed)
	runtime.GOMAXPROCS(2)
	r := execRun(sc, configFor(sc, seed), nil)
	fmt.Fprintln(out, "ended", r.Steps, r.Failure)
}

func replayCmd(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if rp.Seeded {
		return replaySeeded(args[0], &rp)
	}
	r := runReplay(&rp)
	if r.Failure == nil {
		fmt.Fprintln(out, "REPLAY no violation")
		return 0
	}
	fmt.Fprintf(out, "REPLAY property=%s kind=%s step=%d time=%v\n%s\n", r.Failure.Prop, r.Failure.Kind, r.Failure.Step, time.Duration(r.Failure.Time), r.Failure.Msg)
	if len(args) < 2 || args[1] != "-q" {
		for _, d := range rp.Decisions {
			fmt.Fprintf(out, "  decision step=%d %s arg=%d dur=%v at %s\n", d.Step, d.Kind, d.Arg, time.Duration(d.Dur), d.At)
		}
		for _, l := range r.Log {
			fmt.Fprintln(out, "  log", l)
		}
	}
	if r.Failure.Kind != rp.Failure.Kind {
		fmt.Fprintf(out, "REPLAY-MISMATCH recorded kind=%s\n", rp.Failure.Kind)
		return 3
	}
	if r.Failure.Msg != rp.Failure.Msg {
		fmt.Fprintf(out, "REPLAY-DIFFERS recorded %s\n", rp.Failure.Msg)
		return 4
	}
	return 1
}

func minimiseCmd(args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		os.Exit(2)
	}
	limit := 30 * time.Second
	if len(args) > 2 {
		if d, err := time.ParseDuration(args[2]); err == nil {
			limit = d
		}
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		os.Exit(2)
	}
	end := time.Now().Add(limit)
	first := runReplay(&rp)
	if first.Failure == nil || first.Failure.Kind != rp.Failure.Kind {
		fmt.Fprintf(os.Stderr, "minimise: original does not replay (%v)\n", first.Failure)
		os.Exit(4)
	}
	nruns := 0
	try := func(c Replay) bool {
		nruns++
		if nruns%16 == 0 {
			maybeGC()
		}
		r := runReplay(&c)
		return r.Failure != nil && r.Failure.Kind == rp.Failure.Kind
	}
	ops := first.Ops
	// operations first, then decisions, then operations again
	for pass := 0; pass < 2; pass++ {
		skip := map[int]bool{}
		for _, i := range rp.Skip {
			skip[i] = true
		}
		var live []int
		for i := 0; i < ops; i++ {
			if !skip[i] {
				live = append(live, i)
			}
		}
		kept := ddmin(live, end, func(keep []int) bool {
			c := rp
			in := map[int]bool{}
			for _, i := range keep {
				in[i] = true
			}
			c.Skip = nil
			for i := 0; i < ops; i++ {
				if !in[i] {
					c.Skip = append(c.Skip, i)
				}
			}
			return try(c)
		})
		in := map[int]bool{}
		for _, i := range kept {
			in[i] = true
		}
		rp.Skip = nil
		for i := 0; i < ops; i++ {
			if !in[i] {
				rp.Skip = append(rp.Skip, i)
			}
		}
		idx := make([]int, len(rp.Decisions))
		for i := range idx {
			idx[i] = i
		}
		all := rp.Decisions
		sub := func(keep []int) []rt.Decision {
			var d []rt.Decision
			for _, i := range keep {
				d = append(d, all[i])
			}
			return d
		}
		keptD := ddmin(idx, end, func(keep []int) bool {
			c := rp
			c.Decisions = sub(keep)
			return try(c)
		})
		rp.Decisions = sub(keptD)
	}
	r := runReplay(&rp)
	if r.Failure == nil || r.Failure.Kind != rp.Failure.Kind {
		os.Exit(4)
	}
	rp.Failure = *r.Failure
	rp.Workload = r.Desc
	rp.Log = r.Log
	rp.Note = fmt.Sprintf("minimised in %d runs; %d of %d operations skipped; %d scheduling/fault decisions kept", nruns, len(rp.Skip), ops, len(rp.Decisions))
	out, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(args[1], out, 0o644); err != nil {
		os.Exit(2)
	}
}

// ddmin returns a small subset of xs for which ok still holds.
func ddmin(xs []int, end time.Time, ok func([]int) bool) []int {
	if len(xs) == 0 || ok(nil) {
		return nil
	}
	n := 2
	for len(xs) >= 2 && time.Now().Before(end) {
		chunk := (len(xs) + n - 1) / n
		reduced := false
		for i := 0; i < len(xs) && time.Now().Before(end); i += chunk {
			j := i + chunk
			if j > len(xs) {
				j = len(xs)
			}
			rest := append(append([]int{}, xs[:i]...), xs[j:]...)
			if ok(rest) {
				xs = rest
				if n > 2 {
					n--
				}
				reduced = true
				break
			}
		}
		if !reduced {
			if n >= len(xs) {
				break
			}
			n *= 2
			if n > len(xs) {
				n = len(xs)
			}
		}
	}
	return xs
}

// ---------------------------------------------------------------- check

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	verif := fs.String("verif", "/verif", "")
	workers := fs.Int("workers", 8, "")
	scale := fs.Float64("scale", 1, "")
	budget := fs.Float64("budget", 0, "wall seconds for the search")
	only := fs.String("scenario", "", "")
	built := fs.String("built", "", "build note for the evidence")
	_ = fs.Parse(args)
	start := time.Now()
	if *budget == 0 {
		*budget = 60
		if *tier == "thorough" {
			*budget = 600
		}
	}
	self, _ := os.Executable()
	knownPath := filepath.Join(*verif, "known_findings.json")
	known := loadKnown(knownPath)

	var todo []*Scenario
	for _, s := range scenarios {
		if s.Prop == *prop && (*only == "" || s.Name == *only) {
			todo = append(todo, s)
		}
	}
	if len(todo) == 0 {
		fmt.Fprintln(os.Stderr, "no scenario for", *prop)
		return 2
	}
	total := map[string]*WorkerOut{}
	hashes := map[uint64]bool{}
	var fail *Replay
	var fails []*Replay
	var infra string
	for si, sc := range todo {
		runs := sc.Quick
		if *tier == "thorough" {
			runs = sc.Thorough
		}
		runs = int(float64(runs) * *scale)
		if runs < *workers {
			runs = *workers
		}
		left := *budget - time.Since(start).Seconds()
		share := left / float64(len(todo)-si)
		if share < 5 {
			share = 5
		}
		outs := make([]*WorkerOut, *workers)
		errs := make([]string, *workers)
		var wg sync.WaitGroup
		for k := 0; k < *workers; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				outs[k], errs[k] = runWorker(self, sc, *seed, k, runs, *workers, knownPath, share)
			}()
		}
		wg.Wait()
		agg := &WorkerOut{Scenario: sc.Name, Strategy: map[string]int64{}, Faults: map[string]int64{}, Probe: map[string]int64{}, Known: map[int]int64{}}
		for k := range outs {
			if errs[k] != "" {
				infra = errs[k]
			}
			o := outs[k]
			if o == nil {
				continue
			}
			agg.Runs += o.Runs
			agg.Steps += o.Steps
			agg.Switches += o.Switches
			agg.SimNs += o.SimNs
			agg.Evals += o.Evals
			agg.Tasks += o.Tasks
			agg.Capped += o.Capped
			agg.Fine += o.Fine
			agg.Nontriv += o.Nontriv
			if o.MaxSteps > agg.MaxSteps {
				agg.MaxSteps = o.MaxSteps
			}
			add := func(d, s map[string]int64) {
				for k, v := range s {
					d[k] += v
				}
			}
			add(agg.Strategy, o.Strategy)
			add(agg.Faults, o.Faults)
			add(agg.Probe, o.Probe)
			for i, n := range o.Known {
				agg.Known[i] += n
			}
			for _, h := range o.Hashes {
				hashes[h] = true
			}
			if len(agg.Sample) < 2 {
				agg.Sample = append(agg.Sample, o.Sample...)
			}
			if o.Failure != nil {
				fails = append(fails, o.Failure)
			}
			if o.Failure != nil && (fail == nil || fail.Seeded || !o.Failure.Seeded && len(o.Failure.Decisions) < len(fail.Decisions)) {
				fail = o.Failure
			}
		}
		total[sc.Name] = agg
		if fail != nil {
			break
		}
	}
	searchWall := time.Since(start).Seconds()

	status := 0
	viol := 0
	var lines []string
	if fail != nil {
		path, ok := report(self, *verif, fail, *tier)
		for i := 0; i < len(fails) && i < 4 && !ok; i++ {
			if fails[i] != fail {
				path, ok = report(self, *verif, fails[i], *tier)
			}
		}
		if ok {
			viol = 1
			status = 1
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, path))
		} else {
			fmt.Fprintf(os.Stderr, "a failure did not reproduce on replay: simulator error, seed %d scenario %s: %s\n", fail.Seed, fail.Scenario, fail.Failure.Msg)
			status = 2
		}
	} else if infra != "" {
		fmt.Fprintln(os.Stderr, infra)
		status = 2
	}
	for i, k := range known {
		if k.Property == *prop && k.Status == "known" {
			n := int64(0)
			for _, a := range total {
				n += a.Known[i]
			}
			fmt.Printf("KNOWN-FINDING: property=%s %s (seen in %d runs)\n", *prop, k.What, n)
		}
	}
	writeEvidence(*verif, *prop, *tier, *seed, todo, total, len(hashes), viol, time.Since(start).Seconds(), searchWall, *built)
	for _, l := range lines {
		fmt.Println(l)
	}
	return status
}

func runWorker(self string, sc *Scenario, seed uint64, k, runs, workers int, known string, budget float64) (*WorkerOut, string) {
	mark := ""
	if f, err := os.CreateTemp("", "zzverif"); err == nil {
		mark = f.Name()
		_ = f.Close()
		defer os.Remove(mark)
	}
	cmd := exec_(self, "worker", "-mark", mark, "-scenario", sc.Name, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(k), "-to", fmt.Sprint(runs),
		"-stride", fmt.Sprint(workers), "-known", known, "-budget", fmt.Sprint(budget))
	var errb strings.Builder
	cmd.Stderr = &limited{w: &errb, n: 20000}
	pipe, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err.Error()
	}
	if err := cmd.Start(); err != nil {
		return nil, err.Error()
	}
	var mu sync.Mutex
	last := time.Now()
	running := ""
	stop := make(chan struct{})
	hung := false
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Second):
			}
			mu.Lock()
			idle := time.Since(last)
			mu.Unlock()
			if idle > 200*time.Second {
				hung = true
				_ = cmd.Process.Kill()
				return
			}
		}
	}()
	var out *WorkerOut
	dec := json.NewDecoder(pipe)
	for {
		var o WorkerOut
		if err := dec.Decode(&o); err != nil {
			break
		}
		mu.Lock()
		last = time.Now()
		running = o.Running
		mu.Unlock()
		if o.Done {
			x := o
			out = &x
		}
	}
	werr := cmd.Wait()
	close(stop)
	if out != nil {
		return out, ""
	}
	kind, what := "crash", fmt.Sprintf("the process died (%v): %s", werr, firstLines(errb.String(), 3))
	if hung {
		kind, what = "hang", "the run did not end"
	}
	b, _ := os.ReadFile(mark)
	var sd uint64
	if _, err := fmt.Sscan(strings.TrimLeft(string(b), "0"), &sd); err != nil || ended(werr) {
		return nil, fmt.Sprintf("worker for %s: %s near seed %s\n%s", sc.Name, what, running, errb.String())
	}
	return &WorkerOut{Scenario: sc.Name, Failure: &Replay{Property: sc.Prop, Scenario: sc.Name, Seed: sd, Config: configFor(sc, sd), Seeded: true,
		Failure: rt.Failure{Prop: sc.Prop, Kind: kind, Msg: what}}}, ""
}

// ended reports that a worker was killed from outside (not by the watchdog):
// nothing follows from that.
func ended(err error) bool {
	ee, ok := err.(*exec.ExitError)
	if !ok {
		return false
	}
	ws, ok := ee.Sys().(syscall.WaitStatus)
	return ok && ws.Signaled() && ws.Signal() == syscall.SIGTERM
}

type limited struct {
	w *strings.Builder
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.w.Len() < l.n {
		l.w.Write(p)
	}
	return len(p), nil
}

func exec_(name string, args ...string) *exec.Cmd { return exec.Command(name, args...) }

// report minimises a failure, verifies it in fresh processes and writes the
// replay file.
func report(self, verif string, f *Replay, tier string) (string, bool) {
	dir := filepath.Join(verif, "replays")
	_ = os.MkdirAll(dir, 0o755)
	raw := filepath.Join(dir, fmt.Sprintf("%s_%s_%d.raw.json", f.Property, f.Scenario, f.Seed))
	min := filepath.Join(dir, fmt.Sprintf("%s_%s_%d.json", f.Property, f.Scenario, f.Seed))
	b, _ := json.MarshalIndent(f, "", " ")
	if err := os.WriteFile(raw, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return "", false
	}
	confirm := func(p string, enough int) bool {
		for i := 0; i < 2 && (i == 0 || f.Failure.Kind != "hang"); i++ {
			c := exec_(self, "replay", p, "-q")
			o, err := c.CombinedOutput()
			ee, _ := err.(*exec.ExitError)
			if ee == nil || ee.ExitCode() != 1 && ee.ExitCode() != enough {
				fmt.Fprintf(os.Stderr, "replay of %s: %v\n%s\n", p, err, o)
				return false
			}
			if i == 0 {
				fmt.Print(string(o))
			}
		}
		return true
	}
	if f.Seeded {
		return raw, confirm(raw, 1)
	}
	lim := "20s"
	if tier == "thorough" {
		lim = "90s"
	}
	if err := exec_(self, "minimise", raw, min, lim).Run(); err == nil {
		if confirm(min, 1) {
			_ = os.Remove(raw)
			return min, true
		}
		_ = os.Remove(min)
	}
	// Code that depends on something outside the simulation may word the same
	// violation differently each time.
	if confirm(raw, 4) {
		return raw, true
	}
	return "", false
}

func writeEvidence(verif, prop, tier string, seed uint64, todo []*Scenario, total map[string]*WorkerOut, distinct, viol int, wall, searchWall float64, built string) {
	faults := map[string]int64{}
	strat := map[string]int64{}
	var runs, steps, sw, sim, evals, fine, capped, nontriv int64
	var samples []string
	per := []map[string]any{}
	real, stub := map[string]bool{}, map[string]bool{}
	for _, sc := range todo {
		a := total[sc.Name]
		if a == nil {
			continue
		}
		runs += int64(a.Runs)
		steps += a.Steps
		sw += a.Switches
		sim += a.SimNs
		evals += a.Evals
		fine += a.Fine
		capped += a.Capped
		nontriv += a.Nontriv
		for k, v := range a.Faults {
			faults[k] += v
		}
		for k, v := range a.Strategy {
			strat[k] += v
		}
		samples = append(samples, a.Sample...)
		real[sc.Real] = true
		stub[sc.Stub] = true
		per = append(per, map[string]any{"scenario": sc.Name, "runs": a.Runs, "oracle_evaluations": a.Evals, "steps": a.Steps, "max_steps_in_a_run": a.MaxSteps, "context_switches": a.Switches, "simulated_s": float64(a.SimNs) / 1e9, "probes": a.Probe, "capped": a.Capped})
	}
	keys := func(m map[string]bool) []string {
		var o []string
		for k := range m {
			if k != "" {
				o = append(o, k)
			}
		}
		sort.Strings(o)
		return o
	}
	rate := 0.0
	if searchWall > 0 {
		rate = float64(runs) / searchWall * 3600
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": viol,
		"coverage": map[string]any{
			"evaluations":         runs,
			"distinct_nontrivial": distinct,
			"rule":                "one evaluation is one simulated run (one seed: workload, schedule and faults all derived from it); non-trivial means more than one context switch happened and at least one oracle was evaluated; distinct by the hash of the sequence of (step, task switched to) together with the workload",
			"samples":             clip(samples, 6),
			"oracle_evaluations":  evals,

			"runs_per_hour":          int64(rate),
			"simulated_time_s":       float64(sim) / 1e9,
			"scheduling_points":      steps,
			"context_switches":       sw,
			"faults_injected":        faults,
			"strategies":             strat,
			"runs_with_memory_level": fine,
			"runs_capped":            capped,
			"per_scenario":           per,
			"real_components":        keys(real),
			"stub_components":        keys(stub),
			"build":                  built,
		},
		"assumptions": []string{
			"sequentially consistent memory; weaker hardware orders are covered only through the happens-before race detector where it is on",
			"sampled schedules and faults, not an exhaustive enumeration",
			"the instrumenter and the simulator's sync, time, context and rand replacements behave like the Go originals",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
