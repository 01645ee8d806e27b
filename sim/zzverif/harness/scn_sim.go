package main

import (
	"context"
	"fmt"
	"math"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
	zctx "github.com/carlisia/bio-adapt/zzverif/context"
)

const simReal = "simulations/emerge/simulation (batch manager, metrics, workloads, simulation), client/emerge and the swarm below it"

func init() {
	sn := []int64{10000, 20000}
	register(&Scenario{Prop: "P17", Name: "batching", Run: batching, Fine: 0.05, MaxSteps: 20000000, MaxTime: time.Hour,
		StallMax: 80 * time.Millisecond, Freeze: true, StepNs: sn, Quick: 6000, Thorough: 150000, Real: simReal, Stub: agentStub})
	register(&Scenario{Prop: "P17", Name: "windows", Run: windows, Fine: 0.02, MaxSteps: 20000000, MaxTime: time.Hour,
		StepNs: sn, Quick: 2500, Thorough: 60000, Real: simReal, Stub: agentStub})
	register(&Scenario{Prop: "P17", Name: "workload", Run: workload, Fine: 0.02, NoStarve: true, MaxSteps: 20000000, MaxTime: time.Hour,
		StepNs: sn, Quick: 1000, Thorough: 40000, Real: simReal, Stub: agentStub})
	register(&Scenario{Prop: "P17", Name: "accounting", Run: accounting, Fine: 0, NoStarve: true, MaxSteps: 40000000, MaxTime: time.Hour,
		StepNs: []int64{1000, 3000}, Quick: 400, Thorough: 12000, Real: simReal, Stub: agentStub})
	register(&Scenario{Prop: "P18", Name: "sim-recovers", Run: simRecovers, Fine: 0, MaxSteps: 300000000, MaxTime: time.Hour, NoStarve: true,
		StallMax: 300 * time.Millisecond, Freeze: true, StepNs: []int64{1000, 3000}, Quick: 300, Thorough: 10000, Real: simReal, Stub: agentStub})
	register(&Scenario{Prop: "P18", Name: "lifecycle", Run: lifecycle, Fine: 0, MaxSteps: 300000000, MaxTime: time.Hour,
		StallMax: 300 * time.Millisecond, Freeze: true, StepNs: []int64{1000, 3000}, Quick: 400, Thorough: 12000, Real: simReal, Stub: agentStub})
	register(&Scenario{Prop: "P17", Name: "ledger", Run: ledger, Fine: 0.1, MaxSteps: 2000000, MaxTime: time.Hour,
		StallMax: 10 * time.Millisecond, Quick: 8000, Thorough: 200000, Real: "simulations/emerge/simulation (metrics)", Stub: agentStub})
}

func tasksOf(id string, n int) []simulation.Task {
	ts := make([]simulation.Task, n)
	for i := range ts {
		ts[i] = simulation.Task{ID: fmt.Sprintf("%s-%d", id, i), AgentID: id}
	}
	return ts
}

func nearly(a, b float64) bool { return math.Abs(a-b) <= 1e-9*math.Max(1, math.Abs(b)) }

// costs checks that the figures of one reading agree with each other.
func (w *W) costs(m simulation.MetricsSnapshot) {
	without := float64(m.TotalAPICalls) * simulation.CostPerCall
	with := float64(m.TotalBatches) * simulation.CostPerCall * (1 - simulation.BatchDiscount)
	w.Check(nearly(m.CostWithoutSync, without), "cost", "%d calls cost %v without synchronization instead of %v", m.TotalAPICalls, m.CostWithoutSync, without)
	w.Check(nearly(m.CostWithSync, with), "cost", "%d batches cost %v instead of %v", m.TotalBatches, m.CostWithSync, with)
	w.Check(nearly(m.TotalSavings, without-with), "cost", "savings are %v instead of %v", m.TotalSavings, without-with)
	if m.TotalBatches > 0 {
		w.Check(nearly(m.AverageBatchSize, float64(m.TotalAPICalls)/float64(m.TotalBatches)), "cost", "average batch size is %v with %d tasks in %d batches", m.AverageBatchSize, m.TotalAPICalls, m.TotalBatches)
		w.Check(m.AverageBatchSize >= 1 && m.AverageBatchSize <= simulation.MaxBatchSize, "batch-size", "%d tasks were sent in %d batches of at most %d", m.TotalAPICalls, m.TotalBatches, simulation.MaxBatchSize)
		w.Check(nearly(m.SavingsPercent, 100*(without-with)/without), "cost", "savings are %v %% instead of %v %%", m.SavingsPercent, 100*(without-with)/without)
	} else {
		w.Check(m.TotalAPICalls == 0 && m.AverageBatchSize == 0 && m.SavingsPercent == 0, "cost", "without any batch the figures are %+v", m)
	}
}

func (w *W) spread(m *simulation.MetricsCollector, batches int) {
	sum := 0
	for _, n := range m.BatchSizeDistribution() {
		sum += n
	}
	w.Check(sum == batches, "distribution", "the distribution counts %d batches, there were %d", sum, batches)
}

func ceilDiv(a, b int) int { return (a + b - 1) / b }

func (w *W) batchSize() int {
	return pick(w, 0, 1, 1, 2, 3, w.Between(1, 20), w.Between(20, 99), 99, 100, 101, w.Between(101, 350))
}

// submit says whether the manager took the batch, if it can tell.
func submit(bm *simulation.BatchManager, id string, ts []simulation.Task) (ok, known bool) {
	if b, is := any(bm).(interface {
		SubmitBatch(string, []simulation.Task) bool
	}); is {
		return b.SubmitBatch(id, ts), true
	}
	bm.SubmitBatch(id, ts)
	return true, false
}

// batching: clients submit while the processor runs, with resets, cancellation
// and overflow; every accepted task is counted exactly once.
func batching(w *W) {
	bm, m := simulation.NewBatchManager(), simulation.NewMetricsCollector()
	ctx, cancel := zctx.WithCancel(context.Background())
	defer cancel()
	running := false
	start := func() {
		running = true
		w.Go("processor", func() { bm.ProcessBatches(ctx, m); running = false })
	}
	mode := w.Rng.Intn(10)
	tasks, most, subs := 0, 0, 0
	overflow := 0
	if mode == 0 { // more than the queue holds, before anything is processed
		over := w.Between(0, 20)
		for i := 0; i < 100+over; i++ {
			n := w.Between(1, 5)
			if !w.Keep() {
				continue
			}
			ok, known := submit(bm, "early", tasksOf("early", n))
			w.Check(ok || subs >= 100, "refused", "with %d submissions waiting another one was refused", subs)
			if subs < 100 || ok && known {
				tasks += n
				most += ceilDiv(n, simulation.MaxBatchSize)
			} else {
				overflow++
			}
			subs++
		}
		w.Probe("queue overflow")
		w.StopFaults()
	}
	resets := mode == 1 || mode == 2
	cut := mode == 3
	nt := w.Between(1, 4)
	if mode == 0 {
		nt = 0
	}
	late := w.Rng.Bool(0.3)
	if !late {
		start()
	}
	busy := 0
	for t := 0; t < nt; t++ {
		type sub struct {
			gap  time.Duration
			size int
		}
		var plan []sub
		for i, n := 0, w.Between(1, 20); i < n; i++ {
			gap := time.Duration(pick(w, 0, 0, 0, w.Between(0, 100), w.Between(0, 5000), w.Between(0, 60000), w.Between(40000, 200000))) * time.Microsecond
			size := w.batchSize()
			if w.Keep() {
				plan = append(plan, sub{gap, size})
				tasks += size
				most += ceilDiv(size, simulation.MaxBatchSize)
			}
		}
		w.Note("client %d: %v", t, plan)
		busy++
		w.Go(fmt.Sprintf("client%d", t), func() {
			id := fmt.Sprintf("c%d", t)
			for _, s := range plan {
				w.Sleep(s.gap)
				ok, _ := submit(bm, id, tasksOf(id, s.size))
				w.Check(ok, "refused", "with room in the queue a submission was refused")
			}
			busy--
		})
	}
	if resets {
		k := w.Between(1, 6)
		var gaps []time.Duration
		for i := 0; i < k; i++ {
			gaps = append(gaps, time.Duration(pick(w, 0, w.Between(0, 200), w.Between(0, 1000), w.Between(0, 100000)))*time.Microsecond)
		}
		w.Note("resets after %v", gaps)
		busy++
		w.Go("resetter", func() {
			for _, g := range gaps {
				w.Sleep(g)
				m.Reset()
				bm.Reset()
			}
			busy--
		})
	}
	w.Note("mode %d late %v", mode, late)
	over := false
	w.Go("reader", func() {
		prev := simulation.MetricsSnapshot{}
		for !over {
			c := m.Current()
			w.costs(c)
			if !resets {
				w.Check(c.TotalAPICalls >= prev.TotalAPICalls && c.TotalBatches >= prev.TotalBatches, "went-back", "counters went from %+v to %+v", prev, c)
			}
			prev = c
			if at, n := bm.LastBatchInfo(); n != 0 || !at.IsZero() {
				w.Check(n >= 1 && n <= simulation.MaxBatchSize, "batch-size", "a batch of %d was sent", n)
			}
			w.Sleep(7 * time.Millisecond)
		}
	})
	if late && !cut {
		w.Sleep(time.Duration(w.Between(0, 300)) * time.Millisecond)
		start()
	}
	if cut {
		w.Sleep(time.Duration(w.Between(0, 200)) * time.Millisecond)
		cancel()
		w.StopFaults()
		w.Sleep(time.Duration(400+12*(ceilDiv(tasks, 100)+nt)) * time.Millisecond)
		w.Check(!running, "not-stopped", "batch processing goes on after it was cancelled")
		before := m.Current()
		bm.SubmitBatch("after", tasksOf("after", 3))
		w.Sleep(300 * time.Millisecond)
		w.Check(m.Current() == before, "not-stopped", "a batch submitted after the processor was stopped was processed")
		w.Probe("cancelled")
		over = true
		w.Wait()
		w.Check(m.Current().TotalAPICalls <= tasks, "invented", "%d tasks were submitted, %d were sent", tasks, m.Current().TotalAPICalls)
		return
	}
	for i := 0; busy > 0; i++ {
		w.Sleep(50 * time.Millisecond)
		w.Check(i < 400, "stuck", "a client is still inside Submit or Reset after %d ms", i*50)
	}
	w.StopFaults()
	// one window, one pause per batch
	bound := 300*time.Millisecond + time.Duration(most+2)*65*time.Millisecond
	for end := w.Now() + bound; w.Now() < end; {
		w.Sleep(20 * time.Millisecond)
		if !resets && m.Current().TotalAPICalls >= tasks {
			break
		}
	}
	w.Sleep(150 * time.Millisecond)
	c := m.Current()
	w.costs(c)
	w.spread(m, c.TotalBatches)
	if resets {
		w.Check(c.TotalAPICalls <= tasks && c.TotalBatches <= most, "invented", "%d tasks were submitted, %d were sent in %d batches", tasks, c.TotalAPICalls, c.TotalBatches)
		m.Reset()
		bm.Reset()
		z := m.Current()
		at, n := bm.LastBatchInfo()
		w.Check(z == simulation.MetricsSnapshot{} && n == 0 && at.IsZero() && bm.PendingCount() == 0, "not-reset", "after a reset the figures are %+v, last batch %d", z, n)
		w.spread(m, 0)
		tasks = w.Between(1, 250)
		w.Probe("reset")
		bm.SubmitBatch("x", tasksOf("x", tasks))
		w.Sleep(200 * time.Millisecond)
		c = m.Current()
		w.costs(c)
		w.Check(c.TotalAPICalls == tasks && c.TotalBatches == ceilDiv(tasks, 100), "lost", "after a reset %d tasks were counted as %d in %d batches", tasks, c.TotalAPICalls, c.TotalBatches)
	} else {
		if c.TotalAPICalls != tasks {
			w.Fail("lost", "%d tasks were submitted in %d batches of which %d did not fit the queue, %d were sent", tasks, subs, overflow, c.TotalAPICalls)
		}
		w.Check(c.TotalBatches <= most && c.TotalBatches >= ceilDiv(tasks, 100), "batch-count", "%d tasks went out in %d batches (between %d and %d are possible)", tasks, c.TotalBatches, ceilDiv(tasks, 100), most)
		if mode == 0 {
			w.Check(c.TotalBatches == ceilDiv(tasks, 100), "not-merged", "%d tasks waiting together went out in %d batches", tasks, c.TotalBatches)
		}
	}
	over = true
	cancel()
	w.Wait()
}

// ledger: batches recorded by several clients, up to thousands of them, while
// the figures are read.
func ledger(w *W) {
	m := simulation.NewMetricsCollector()
	nt := w.Between(1, 3)
	long := w.Between(1, 30)
	if w.Rng.Bool(0.03) {
		long = w.Between(300, 2500)
		w.Probe("long ledger")
	}
	want := map[string]int{"1-10": 0, "11-25": 0, "26-50": 0, "51-75": 0, "76-100": 0}
	tasks, batches, busy := 0, 0, nt
	for t := 0; t < nt; t++ {
		var sizes []int
		for i := 0; i < long; i++ {
			n := pick(w, 1, 10, 11, 25, 26, 50, 51, 75, 76, 100, w.Between(1, 100))
			if long < 100 && !w.Keep() {
				continue
			}
			sizes = append(sizes, n)
			tasks += n
			batches++
			for _, b := range []struct {
				to int
				in string
			}{{10, "1-10"}, {25, "11-25"}, {50, "26-50"}, {75, "51-75"}, {100, "76-100"}} {
				if n <= b.to {
					want[b.in]++
					break
				}
			}
		}
		w.Go(fmt.Sprintf("client%d", t), func() {
			for _, n := range sizes {
				one, all := simulation.CostPerCall*(1-simulation.BatchDiscount), float64(n)*simulation.CostPerCall
				m.RecordBatch(n, all, one, all-one)
			}
			busy--
		})
	}
	w.Go("reader", func() {
		for busy > 0 {
			c := m.Current()
			w.costs(c)
			w.Sleep(time.Microsecond)
		}
	})
	w.Note("%d clients, %d batches each", nt, long)
	w.Wait()
	c := m.Current()
	w.costs(c)
	w.Check(c.TotalAPICalls == tasks && c.TotalBatches == batches && m.Final() == c, "lost", "%d tasks were recorded in %d batches, the figures are %+v", tasks, batches, c)
	got := m.BatchSizeDistribution()
	for _, k := range sortedKeys(want) {
		w.Check(got[k] == want[k], "distribution", "%d batches of %s tasks were recorded, the distribution says %d", want[k], k, got[k])
	}
	w.spread(m, batches)
	m.Reset()
	w.spread(m, 0)
	w.Check(m.Current() == simulation.MetricsSnapshot{}, "not-reset", "after a reset the figures are %+v", m.Current())
}

// windows: groups of batches arriving together, well apart from the next
// group; each group is one API batch.
func windows(w *W) {
	bm, m := simulation.NewBatchManager(), simulation.NewMetricsCollector()
	ctx, cancel := zctx.WithCancel(context.Background())
	defer cancel()
	first := w.Rng.Bool(0.5)
	if first {
		w.Go("processor", func() { bm.ProcessBatches(ctx, m) })
	}
	groups := w.Between(1, 5)
	batches, tasks := 0, 0
	for g := 0; g < groups; g++ {
		n := w.Between(1, 6)
		sum, early := 0, 0
		var t0 time.Duration
		each := 0
		waiting := g == 0 && !first
		for i := 0; i < n; i++ {
			size := w.Between(1, 16)
			if waiting {
				size = w.batchSize()
			} else if sum == 0 && i == n-1 && w.Rng.Bool(0.2) {
				size = w.batchSize() // alone
			}
			gap := time.Duration(w.Between(0, 6)) * time.Millisecond
			if !w.Keep() {
				continue
			}
			w.Note("group %d +%v %d", g, gap, size)
			if sum > 0 {
				w.Sleep(gap)
			} else {
				t0 = w.Now()
			}
			each += ceilDiv(size, 100)
			bm.SubmitBatch("a", tasksOf("a", size))
			sum += size
			early++
		}
		together := waiting || w.Now()-t0 < 45*time.Millisecond // the scheduler may have kept the client waiting
		if waiting {
			w.Go("processor", func() { bm.ProcessBatches(ctx, m) })
		}
		tasks += sum
		// within one window of the first, or, when they came apart, of the last
		sent := w.Now() + window + time.Duration(11*each)*time.Millisecond + sendSlack
		if together && !waiting {
			sent = t0 + window + time.Duration(11*ceilDiv(sum, 100))*time.Millisecond + sendSlack
		}
		if d := sent - w.Now(); d > 0 {
			w.Sleep(d)
		}
		c := m.Current()
		w.costs(c)
		w.Check(c.TotalAPICalls == tasks, "late", "%d tasks were submitted, %d were sent when the window was over", tasks, c.TotalAPICalls)
		if w.Rng.Bool(0.7) {
			w.Sleep(time.Duration(w.Between(0, 100)) * time.Millisecond)
		}
		made := c.TotalBatches - batches
		batches = c.TotalBatches
		w.Check(made <= each && made >= ceilDiv(sum, 100), "window", "%d batches (%d tasks) went out in %d API batches", early, sum, made)
		if together {
			w.Check(made == ceilDiv(sum, 100), "window", "%d batches submitted together (%d tasks) went out in %d API batches instead of %d", early, sum, made, ceilDiv(sum, 100))
			w.Probe("together")
		}
		if sum > 0 && together {
			at, n := bm.LastBatchInfo()
			w.Check(n == (sum-1)%100+1, "last-batch", "the last batch of %d tasks is said to have had %d", sum, n)
			w.Check(!at.IsZero(), "last-batch", "no time for the last batch")
		}
	}
	w.Probe("groups")
	cancel()
	w.Wait()
}

// window is how long a submission waits for others; sendSlack covers what
// scheduling may add to it in a run without stalls.
const (
	window    = 50 * time.Millisecond
	sendSlack = 12 * time.Millisecond
)

// workload drives one workload whose agent's phase the client sets: the rate
// of its tasks, when it sends them, what it shows of itself.
func workload(w *W) {
	p := pick(w, pattern.Steady, pattern.Unset, pattern.HighFrequency, pattern.HighFrequency, pattern.Burst, pattern.Burst, pattern.Mixed, pattern.Sparse)
	a := agent.New("a")
	ld := simulation.NewWorkloadWithEmerge("load", w.Between(0, 9), a, nil, p, goalTypes[w.Rng.Intn(len(goalTypes))])
	bm, m := simulation.NewBatchManager(), simulation.NewMetricsCollector()
	ctx, cancel := zctx.WithCancel(context.Background())
	defer cancel()
	away := func() {
		a.SetPhase(pick(w, 0.13, 1, math.Pi, 5, twoPi-0.13, w.Unif(0.15, twoPi-0.15)))
	}
	away()
	w.Go("processor", func() { bm.ProcessBatches(ctx, m) })
	ld.Start(ctx, bm)
	w.Note("%v", p)
	t0 := w.Now()
	const tick = 10 * time.Millisecond
	const slack = 3 * time.Millisecond
	const unknown = time.Duration(-1)
	last, some := t0, false // when the latest task came, if any did
	pend, gone := 0, 0
	quiet, burst := true, unknown // seen quiet last; start of the burst
	look := func() {
		from := w.Now()
		sn := ld.Snapshot()
		at := w.Now()
		w.Check(sn.BatchesSent == gone, "sent-early", "a workload whose agent is at phase %v sent its tasks", a.Phase())
		w.Check(sn.ID == "load" && sn.Phase == a.Phase(), "workload", "the workload of agent at phase %v is shown as %q at %v", a.Phase(), sn.ID, sn.Phase)
		n := sn.PendingTasks - pend
		w.Check(n >= 0, "lost", "%d pending tasks became %d without any batch being sent", pend, sn.PendingTasks)
		if n > 0 {
			ok := true
			switch p {
			case pattern.HighFrequency:
				ok = n <= 4 && n != 1
			case pattern.Burst:
				ok = n == 0 || n >= 3 && n <= 7
			case pattern.Mixed:
				ok = n <= 3
			default:
				ok = n <= 1
			}
			w.Check(ok, "rate", "a workload with pattern %v got %d tasks at once", p, n)
			since := at - last
			lo, hi := time.Duration(0), time.Hour
			switch p {
			case pattern.HighFrequency:
				lo, hi = 50*time.Millisecond, 100*time.Millisecond
			case pattern.Steady, pattern.Unset:
				lo, hi = 500*time.Millisecond, 500*time.Millisecond
			case pattern.Burst:
				lo = 100 * time.Millisecond
			case pattern.Mixed:
				lo = 200 * time.Millisecond
			case pattern.Sparse:
				lo = 2 * time.Second
			}
			w.Check(last == unknown || since >= lo-tick-slack && since <= hi+tick+slack, "rate", "a workload with pattern %v got its next task after %v", p, since)
			last, some = at, true
			w.Probe("task")
		} else if hi := map[pattern.Type]time.Duration{pattern.HighFrequency: 100, pattern.Steady: 500, pattern.Unset: 500}[p] * time.Millisecond; hi > 0 {
			w.Check(last == unknown || at-last <= hi+tick+slack, "rate", "a workload with pattern %v has had no task for %v", p, at-last)
		}
		pend = sn.PendingTasks
		// what it says of itself
		idle, known := at-last, some && last != unknown
		level := sn.ActivityLevel
		ok := !sn.InBurstMode
		switch p {
		case pattern.Burst:
			ok = sn.InBurstMode == (level == "burst") && (level == "burst" || level == "quiet")
			if sn.InBurstMode {
				if burst == unknown && quiet {
					burst = from
				}
				w.Check(last == unknown || some && idle <= 100*time.Millisecond+tick+slack, "activity", "in a burst, yet no task came for %v", idle)
				w.Check(burst == unknown || at-burst <= 2100*time.Millisecond+slack, "activity", "a burst lasts %v", at-burst)
				w.Probe("burst")
			} else {
				if burst != unknown {
					w.Check(at-burst >= 500*time.Millisecond-tick-slack, "activity", "a burst lasted %v", at-burst)
					w.Probe("burst over")
				}
				burst = unknown
				w.Check(!known || idle >= 100*time.Millisecond-tick-slack, "activity", "no burst, but a task came %v ago", idle)
			}
			quiet = !sn.InBurstMode
		case pattern.HighFrequency:
			ok = ok && level == "active"
		case pattern.Sparse:
			ok = ok && (level == "active") == (pend > 0) && (level == "active" || level == "quiet")
		case pattern.Mixed:
			switch {
			case last == unknown:
			case !some || idle > time.Second+tick+slack:
				ok = ok && level == "quiet"
			case idle < 200*time.Millisecond-tick-slack:
				ok = ok && level == "active"
			case idle > 200*time.Millisecond+slack && idle < time.Second-tick-slack:
				ok = ok && level == "steady"
			}
		default:
			ok = ok && level == "steady"
		}
		w.Check(ok, "activity", "a workload with pattern %v, %d pending tasks, the latest %v ago, is shown as %q, burst %v", p, pend, idle, level, sn.InBurstMode)
	}
	sent := 0
	for i, n := 0, w.Between(1, 6); i < n; i++ {
		d := time.Duration(pick(w, w.Between(50, 700), w.Between(500, 3000), w.Between(2000, 8000))) * time.Millisecond
		op := w.Rng.Intn(6)
		if !w.Keep() {
			continue
		}
		w.Note("%v %d", d, op)
		for end := w.Now() + d; w.Now() < end; {
			look()
			w.Sleep(tick)
		}
		switch {
		case op == 0:
			ld.Reset()
			sn := ld.Snapshot()
			w.Check(sn.PendingTasks == 0 && sn.BatchesSent == 0 && !sn.InBurstMode, "not-reset", "after a reset the workload has %d pending tasks, %d batches sent, burst %v", sn.PendingTasks, sn.BatchesSent, sn.InBurstMode)
			w.Check(p != pattern.Mixed || sn.ActivityLevel == "quiet", "not-reset", "after a reset the workload is shown as %q", sn.ActivityLevel)
			pend, gone = 0, 0
			last, quiet, burst = unknown, false, unknown
			w.Probe("reset")
		default:
			// the agent comes to where batches are sent
			before := ld.Snapshot()
			a.SetPhase(pick(w, 0, 0.02, 0.09, twoPi-0.02, twoPi-0.09))
			w.Sleep(100*time.Millisecond + slack)
			sn := ld.Snapshot()
			if before.PendingTasks > 0 {
				w.Check(sn.BatchesSent > before.BatchesSent, "not-sent", "%d tasks were pending, %d batches were sent, 100 ms with the agent at phase %v later %d", before.PendingTasks, before.BatchesSent, a.Phase(), sn.BatchesSent)
				w.Probe("sent")
			}
			away()
			// a check that had begun may still send
			w.Sleep(slack)
			sn = ld.Snapshot()
			w.Sleep(window + 11*time.Millisecond + sendSlack)
			c := m.Current()
			w.costs(c)
			after := ld.Snapshot()
			// all that was pending has gone out, or is pending still
			got := c.TotalAPICalls - sent
			w.Check(sn.BatchesSent == before.BatchesSent && got == 0 || sn.BatchesSent > before.BatchesSent && got >= before.PendingTasks, "lost", "%d pending tasks were sent in %d batches, %d of them reached the API", before.PendingTasks, sn.BatchesSent-before.BatchesSent, got)
			w.Check(sn.BatchesSent > before.BatchesSent || after.PendingTasks >= before.PendingTasks, "lost", "%d pending tasks became %d without a batch", before.PendingTasks, after.PendingTasks)
			sent = c.TotalAPICalls
			pend, gone = after.PendingTasks, after.BatchesSent
			last, quiet, burst = unknown, false, unknown
		}
	}
	if wait := map[pattern.Type]time.Duration{pattern.Burst: 16, pattern.Mixed: 40, pattern.Sparse: 400}[p] * time.Second; wait > 0 && w.Rng.Bool(0.3) {
		// a pause this long between tasks is out of the question: 1 in 10^15
		n := ld.Snapshot().PendingTasks
		from := w.Now()
		for ld.Snapshot().PendingTasks == n {
			w.Check(w.Now() < from+wait, "rate", "a workload with pattern %v has had no task for %v", p, wait)
			w.Sleep(wait / 80)
		}
		w.Probe("goes on")
	}
	cancel()
	w.Wait()
	if left := w.Settle(time.Second); len(left) > 0 {
		w.Fail("leak", "a second after cancellation goroutines are still there: %v", left)
	}
	before := ld.Snapshot()
	a.SetPhase(0)
	w.Sleep(3 * time.Second)
	after := ld.Snapshot()
	w.Check(before.PendingTasks == after.PendingTasks && before.BatchesSent == after.BatchesSent, "not-stopped", "after cancellation %d pending tasks became %d, %d batches %d", before.PendingTasks, after.PendingTasks, before.BatchesSent, after.BatchesSent)
}

func (w *W) newSim(p pattern.Type, n *int, big bool) *simulation.Simulation {
	s, _ := w.newSimFor(p, n, big)
	return s
}

func (w *W) newSimFor(p pattern.Type, n *int, big bool) (*simulation.Simulation, goal.Type) {
	gt := goalTypes[w.Rng.Intn(len(goalTypes))]
	cfg := simulation.BuildConfig{Goal: gt, Scale: scale.Tiny, Pattern: p, TargetCoherence: pick(w, scale.Tiny.DefaultTargetCoherence(), 0.5, 0.7, 0.9)}
	if w.Rng.Bool(0.3) {
		cfg.Goal = goal.MinimizeAPICalls
	}
	if big {
		cfg.Scale = pick(w, scale.Small, scale.Medium, scale.Medium)
	}
	s, err := simulation.New(cfg)
	if err != nil {
		w.Fail("create", "no simulation of %+v: %v", cfg, err)
	}
	*n = cfg.Scale.DefaultAgentCount()
	w.Note("%+v", cfg)
	return s, cfg.Goal
}

// coherent checks one snapshot against itself.
func (w *W) snap(s simulation.Snapshot, n int) {
	w.Check(len(s.Agents) == n, "snapshot", "the snapshot shows %d of %d agents", len(s.Agents), n)
	sum := 0
	ids := map[string]bool{}
	for _, a := range s.Agents {
		w.Check(!ids[a.ID], "snapshot", "agent %s is shown twice", a.ID)
		ids[a.ID] = true
		w.Check(a.Phase >= 0 && a.Phase < twoPi+1e-9, "snapshot", "agent %s is shown at phase %v", a.ID, a.Phase)
		w.Check(a.PendingTasks >= 0 && a.BatchesSent >= 0, "snapshot", "agent %s is shown with %d pending tasks, %d batches", a.ID, a.PendingTasks, a.BatchesSent)
		sum += a.PendingTasks
	}
	w.Check(s.PendingTasks == sum, "snapshot", "%d tasks are pending, the agents have %d", s.PendingTasks, sum)
	w.Check(s.Coherence >= 0 && s.Coherence <= 1+1e-9, "snapshot", "coherence is shown as %v", s.Coherence)
	w.Check(nearly(s.CostWithSync, float64(s.BatchesProcessed)*simulation.CostPerCall*(1-simulation.BatchDiscount)), "snapshot", "%d batches are shown to cost %v", s.BatchesProcessed, s.CostWithSync)
	w.Check(nearly(s.Savings, s.CostWithoutSync-s.CostWithSync), "snapshot", "savings are shown as %v with costs %v and %v", s.Savings, s.CostWithoutSync, s.CostWithSync)
	w.Check(s.CostWithSync <= s.CostWithoutSync+1e-9, "snapshot", "batching is shown to cost more (%v) than calling one by one (%v)", s.CostWithSync, s.CostWithoutSync)
	w.Check(s.Timestamp.IsZero() || s.BatchJustSent || s.Timestamp.Sub(s.LastBatchTime) >= 500*time.Millisecond, "snapshot", "the batch sent %v ago is not shown", s.Timestamp.Sub(s.LastBatchTime))
	w.Check(s.Timestamp.IsZero() || !s.BatchJustSent || s.LastBatchSize > 0 && !s.LastBatchTime.IsZero(), "snapshot", "a batch of %d is shown as just sent", s.LastBatchSize)
	w.Check(s.LastBatchSize >= 0 && s.LastBatchSize <= simulation.MaxBatchSize, "snapshot", "last batch size %d", s.LastBatchSize)
}

// activity checks what a snapshot says about how busy the workloads are.
func (w *W) activity(s simulation.Snapshot, p pattern.Type) {
	for _, a := range s.Agents {
		ok := true
		switch p {
		case pattern.Burst:
			ok = a.InBurstMode && a.ActivityLevel == "burst" || !a.InBurstMode && a.ActivityLevel == "quiet"
		case pattern.HighFrequency:
			ok = a.ActivityLevel == "active"
		case pattern.Sparse:
			ok = (a.ActivityLevel == "active") == (a.PendingTasks > 0)
		case pattern.Steady, pattern.Unset:
			ok = a.ActivityLevel == "steady"
		}
		w.Check(ok && (p == pattern.Burst || !a.InBurstMode), "activity", "a workload with pattern %v and %d pending tasks is shown as %q, burst %v", p, a.PendingTasks, a.ActivityLevel, a.InBurstMode)
	}
}

// busier samples for d and checks that workloads whose tasks became more are
// shown as active.
func (w *W) busier(s *simulation.Simulation, p pattern.Type, d time.Duration) {
	end := w.Now() + d
	var prev simulation.Snapshot
	at := w.Now()
	for w.Now() < end {
		from := w.Now()
		sn := s.Snapshot()
		w.activity(sn, p)
		if prev.Agents != nil && w.Now()-at < 150*time.Millisecond {
			for i, a := range sn.Agents {
				if a.PendingTasks > prev.Agents[i].PendingTasks && (p == pattern.Mixed || p == pattern.Burst) {
					w.Check(p == pattern.Burst || a.ActivityLevel == "active", "activity", "a workload that just got a task is shown as %q", a.ActivityLevel)
					w.Probe("seen getting busier")
				}
			}
		}
		prev, at = sn, from
		w.Sleep(40 * time.Millisecond)
	}
}

// rate of task generation per workload: every how long, how many
func rate(p pattern.Type) (lo, hi time.Duration, min, max int) {
	switch p {
	case pattern.HighFrequency:
		return 50 * time.Millisecond, 100 * time.Millisecond, 2, 4
	case pattern.Steady, pattern.Unset:
		return 500 * time.Millisecond, 500 * time.Millisecond, 1, 1
	case pattern.Burst:
		return 100 * time.Millisecond, time.Hour, 1, 7
	case pattern.Mixed:
		return 200 * time.Millisecond, time.Hour, 1, 3
	}
	return 2 * time.Second, time.Hour, 1, 1
}

// accounting: every generated task is pending or sent, exactly once, across
// pauses, resumes and resets.  No faults: the number generated is known.
func accounting(w *W) {
	p := pick(w, pattern.Steady, pattern.Steady, pattern.Steady, pattern.Steady, pattern.Unset, pattern.HighFrequency, pattern.Burst, pattern.Mixed, pattern.Sparse)
	n := 0
	s := w.newSim(p, &n, w.Rng.Bool(0.07))
	ctx, cancel := zctx.WithCancel(context.Background())
	defer cancel()
	t0 := w.Now()
	over := false
	w.Go("start", func() { _ = s.Start(ctx); over = true })
	w.Go("watch", func() { // a batch is shown for half a second
		var prev simulation.Snapshot
		for !over {
			sn := s.Snapshot()
			w.snap(sn, n)
			if !prev.Timestamp.IsZero() && sn.BatchJustSent {
				w.Check(prev.Timestamp.Sub(sn.LastBatchTime) < 500*time.Millisecond, "snapshot", "the batch sent more than %v ago is still shown", prev.Timestamp.Sub(sn.LastBatchTime))
				w.Probe("batch shown")
			}
			prev = sn
			w.Sleep(90 * time.Millisecond)
		}
	})
	exact := p == pattern.Steady || p == pattern.Unset
	fast, slow, min, max := rate(p)
	lo, hi := 0, 0 // tasks generated since the last reset
	from := w.Now()
	sent, batches := 0, 0
	phases := w.Between(1, 5)
	for i := 0; i < phases; i++ {
		// run up to a quarter past a tick
		if w.Rng.Bool(0.4) {
			w.busier(s, p, 1200*time.Millisecond)
		}
		d := time.Duration(w.Between(1, 8))*500*time.Millisecond + time.Duration(w.Between(150, 350))*time.Millisecond
		w.Sleep(d - (w.Now()-t0)%(500*time.Millisecond))
		now := w.Now()
		s.Pause()
		if exact {
			k := int((now-t0)/(500*time.Millisecond)) - int((from-t0)/(500*time.Millisecond))
			lo += n * k
			hi += n * k
		} else {
			lo += n * min * int((now-from)/slow)
			hi += n * max * (int((now-from)/fast) + 1)
		}
		at := s.Snapshot()
		between := (now-t0)%(100*time.Millisecond) >= 5*time.Millisecond && (now-t0)%(100*time.Millisecond) <= 95*time.Millisecond
		if w.Rng.Bool(0.3) { // agents at half a turn are now where they would send
			w.Sleep(time.Duration(w.Between(0, 50)) * time.Millisecond)
			s.Disrupt()
		}
		w.Sleep(time.Duration(300+w.Between(0, 50)) * time.Millisecond)
		if n > 20 { // what the queue holds takes its time
			for had, k := -1, 0; had != s.Statistics().TotalAPICalls && k < 200; k++ {
				had = s.Statistics().TotalAPICalls
				w.Sleep(100 * time.Millisecond)
			}
			w.Probe("many agents")
		}
		sn, st := s.Snapshot(), s.Statistics()
		if between { // no tick of any agent was under way
			w.Check(at.PendingTasks == sn.PendingTasks, "paused", "right after the pause %d tasks were pending, a little later %d", at.PendingTasks, sn.PendingTasks)
			w.Probe("paused between ticks")
		}
		w.snap(sn, n)
		w.Note("paused at %v: pending %d, sent %d in %d", now-t0, sn.PendingTasks, st.TotalAPICalls, st.TotalBatches)
		total := sn.PendingTasks + st.TotalAPICalls
		w.Check(total >= lo && total <= hi, "lost", "%d tasks are pending and %d were sent, but between %d and %d were generated (pattern %v)", sn.PendingTasks, st.TotalAPICalls, lo, hi, p)
		w.Check(st.TotalAPICalls >= sent && st.TotalBatches >= batches, "went-back", "sent tasks went from %d to %d, batches from %d to %d", sent, st.TotalAPICalls, batches, st.TotalBatches)
		w.Check(st.TotalBatches == sn.BatchesProcessed, "figures", "snapshot and statistics disagree: %d and %d batches", sn.BatchesProcessed, st.TotalBatches)
		by := 0
		for _, a := range sn.Agents {
			by += a.BatchesSent
		}
		w.Check(st.TotalBatches <= by+st.TotalAPICalls/simulation.MaxBatchSize && (by == 0) == (st.TotalBatches == 0), "figures", "the agents sent %d batches, %d reached the API", by, st.TotalBatches)
		sent, batches = st.TotalAPICalls, st.TotalBatches
		if sent > 0 {
			w.Probe("tasks sent")
		}
		if sn.PendingTasks > 0 {
			w.Probe("tasks pending")
		}
		// stay paused: nothing is generated or sent
		w.Sleep(time.Duration(w.Between(1, 3)) * 500 * time.Millisecond)
		again, ast := s.Snapshot(), s.Statistics()
		w.Check(again.PendingTasks == sn.PendingTasks && ast.TotalAPICalls == sent && ast.TotalBatches == batches, "paused", "while paused pending went from %d to %d, sent from %d to %d", sn.PendingTasks, again.PendingTasks, sent, ast.TotalAPICalls)
		if w.Rng.Bool(0.25) && w.Keep() {
			s.Reset()
			z, zs := s.Snapshot(), s.Statistics()
			w.Check(z.PendingTasks == 0 && z.BatchesProcessed == 0 && zs.TotalAPICalls == 0 && zs.TotalBatches == 0 && z.LastBatchSize == 0, "not-reset", "after a reset %d tasks are pending, %d sent", z.PendingTasks, zs.TotalAPICalls)
			for _, a := range z.Agents {
				w.Check(a.BatchesSent == 0, "not-reset", "after a reset agent %s has sent %d batches", a.ID, a.BatchesSent)
			}
			lo, hi, sent, batches = 0, 0, 0, 0
			w.Probe("reset")
		}
		// to a quarter past a tick again
		w.Sleep(500*time.Millisecond - (w.Now()-t0)%(500*time.Millisecond) + time.Duration(w.Between(150, 300))*time.Millisecond)
		from = w.Now()
		s.Resume()
	}
	cancel()
	w.Sleep(time.Second)
	w.Check(over, "not-stopped", "Start has not returned a second after cancellation")
	w.Wait()
}

// settled is longer than every stall and freeze of a run together, plus what
// an interrupted update, window or tick still takes.
const settled = 4 * time.Second

type life struct {
	w         *W
	s         *simulation.Simulation
	n         int
	started   bool
	startAt   time.Duration
	target    float64
	paused    bool
	resetAt   time.Duration // latest, -1: never
	disruptAt time.Duration
	zero      time.Duration // start or latest reset
	born      time.Duration // created or latest reset
	peak      float64
	converged time.Duration
	touched   bool // reset or disrupted since paused
	pausedAt  time.Duration
	fresh     bool // the latest change was a reset, with nothing running
	goal      goal.Type
}

// look takes a snapshot and judges it against the model.
func (l *life) look() simulation.Snapshot {
	w := l.w
	a := w.Now()
	sn := l.s.Snapshot()
	b := w.Now()
	w.snap(sn, l.n)
	w.Check(sn.Paused == l.paused, "paused-flag", "the snapshot says paused=%v", sn.Paused)
	w.Check(!l.started || a < l.startAt+settled || sn.ElapsedTime >= a-l.zero-settled && sn.ElapsedTime <= b-l.zero+settled, "elapsed", "%v have passed, the snapshot says %v", b-l.zero, sn.ElapsedTime)
	if l.resetAt < 0 {
		w.Check(!sn.Reset, "reset-flag", "the snapshot shows a reset that never was")
	} else if b < l.resetAt+2*time.Second {
		w.Check(sn.Reset, "reset-flag", "the reset %v ago is not shown any more", b-l.resetAt)
	} else if a > l.resetAt+2*time.Second+settled {
		w.Check(!sn.Reset, "reset-flag", "the reset %v ago is still shown", b-l.resetAt)
	}
	if l.disruptAt < 0 {
		w.Check(!sn.Disrupted, "disrupt-flag", "the snapshot shows a disruption that never was")
	} else if a > l.disruptAt+30*time.Second+settled {
		w.Check(!sn.Disrupted, "disrupt-flag", "the disruption %v ago is still shown", b-l.disruptAt)
	}
	if !l.paused {
		l.peak = math.Max(l.peak, sn.Coherence)
		if l.converged < 0 && sn.Coherence >= 0.7 {
			l.converged = b - l.born
		}
	}
	return sn
}

func (l *life) stats() simulation.Statistics {
	w := l.w
	st := l.s.Statistics()
	w.Check(st.PeakCoherence >= l.peak-1e-9 && st.PeakCoherence <= 1+1e-9, "peak", "a coherence of %v was shown, the peak is given as %v", l.peak, st.PeakCoherence)
	if l.converged >= 0 {
		w.Check(st.TimeToConverge > 0 && st.TimeToConverge <= l.converged+settled, "time-to-converge", "a coherence of 0.7 was shown after %v, time to converge is given as %v", l.converged, st.TimeToConverge)
	} else {
		w.Check(st.TimeToConverge >= 0, "time-to-converge", "time to converge is given as %v", st.TimeToConverge)
	}
	return st
}

func (l *life) pause() {
	l.s.Pause()
	if !l.paused {
		l.touched, l.fresh = false, false
		l.pausedAt = l.w.Now()
	}
	l.paused = true
}

// frozen: the simulation is paused and nothing in it moves.
func (l *life) frozen() {
	w := l.w
	a := l.look()
	w.Sleep(settled)
	b, bs := l.look(), l.stats()
	same := func(x, y simulation.Snapshot) {
		w.Check(math.Abs(x.Coherence-y.Coherence) < 1e-9, "not-frozen", "while paused the coherence shown went from %v to %v", x.Coherence, y.Coherence)
		for i, ag := range x.Agents {
			w.Check(ag.Phase == y.Agents[i].Phase && ag.ID == y.Agents[i].ID, "not-frozen", "while paused agent %s moved from %v to %v", ag.ID, ag.Phase, y.Agents[i].Phase)
		}
	}
	same(a, b)
	for i := 0; i < 4; i++ {
		w.Sleep(700 * time.Millisecond)
		c, cs := l.look(), l.stats()
		same(a, c)
		w.Check(b.PendingTasks == c.PendingTasks && b.BatchesProcessed == c.BatchesProcessed && bs.TotalAPICalls == cs.TotalAPICalls, "not-frozen", "while paused pending tasks went from %d to %d, batches from %d to %d", b.PendingTasks, c.PendingTasks, b.BatchesProcessed, c.BatchesProcessed)
		w.Check(math.Abs(bs.FinalCoherence-cs.FinalCoherence) < 1e-9, "not-frozen", "while paused the agents went on synchronizing: coherence from %v to %v", bs.FinalCoherence, cs.FinalCoherence)
	}
	if l.fresh {
		want := worst(l.goal, l.n)
		w.Check(math.Abs(bs.FinalCoherence-want) < 1e-4, "arrangement", "after a reset of a simulation with goal %v the coherence of its agents is %v instead of %v", l.goal, bs.FinalCoherence, want)
		for _, sn := range []simulation.Snapshot{a, b} {
			by := 0
			for _, ag := range sn.Agents {
				by += ag.BatchesSent
			}
			w.Check(sn.PendingTasks == 0 && sn.BatchesProcessed == 0 && by == 0 && sn.LastBatchSize == 0 && bs.TotalAPICalls == 0, "not-reset", "reset during a pause, yet %d tasks are pending, %d were sent in %d batches", sn.PendingTasks, bs.TotalAPICalls, sn.BatchesProcessed)
		}
		top := math.Max(want, b.Coherence)
		w.Check(bs.PeakCoherence <= top+1e-4, "peak", "since the reset the coherence was %v and shown as %v, the peak is given as %v", want, b.Coherence, bs.PeakCoherence)
		w.Check(bs.TimeToConverge == 0 || top >= 0.7-1e-4, "time-to-converge", "since the reset the coherence was %v and shown as %v, time to converge is given as %v", want, b.Coherence, bs.TimeToConverge)
		w.Probe("arrangement")
	}
	w.Probe("frozen")
}

// worst is the coherence of the arrangement a reset puts n agents into: the
// farthest from the goal.
func worst(g goal.Type, n int) float64 {
	var x, y float64
	for i := 0; i < n; i++ {
		p := 0.0
		switch g {
		case goal.DistributeLoad, goal.SaveEnergy, goal.AdaptToTraffic: // all at once
		case goal.MinimizeLatency, goal.RecoverFromFailure: // half and half
			p = math.Pi * float64(i%2)
		case goal.MaintainRhythm: // drifting
			p = 1.7 * float64(i)
		default:
			p = twoPi * float64(i) / float64(n)
		}
		x += math.Cos(p)
		y += math.Sin(p)
	}
	return math.Hypot(x, y) / float64(n)
}

// works: the simulation runs, tasks are generated.
func (l *life) works() {
	w := l.w
	a, as := l.look(), l.stats()
	w.Sleep(settled)
	b, bs := l.look(), l.stats()
	w.Check(w.sc.RaceOnly || a.PendingTasks+as.TotalAPICalls < b.PendingTasks+bs.TotalAPICalls, "stopped", "no task was generated in %v although the simulation is not paused", settled)
	w.Probe("works")
}

func lifecycle(w *W) {
	l := &life{w: w, resetAt: -1, disruptAt: -1, converged: -1}
	p := pick(w, pattern.Steady, pattern.Steady, pattern.HighFrequency)
	if w.sc.RaceOnly {
		p = pick(w, pattern.Steady, pattern.HighFrequency, pattern.Burst, pattern.Mixed, pattern.Sparse)
	}
	l.s, l.goal = w.newSimFor(p, &l.n, w.Rng.Bool(0.05))
	l.born = w.Now()
	l.target = l.s.Snapshot().TargetCoherence
	ctx, cancel := zctx.WithCancel(context.Background())
	defer cancel()
	over := false
	start := func() {
		l.started = true
		l.zero, l.startAt = w.Now(), w.Now()
		w.Go("start", func() {
			err := l.s.Start(ctx)
			w.Check(err == nil, "start", "Start returned %v", err)
			over = true
		})
	}
	early := w.Rng.Bool(0.2)
	if !early {
		start()
		if w.Rng.Bool(0.7) {
			w.Sleep(settled)
		}
	}
	rude := w.Rng.Bool(0.3) // others press keys too, for a while
	if rude {
		for t, nt := 0, w.Between(1, 3); t < nt; t++ {
			var ops []int
			for i, k := 0, w.Between(1, 8); i < k; i++ {
				op := w.Rng.Intn(6)
				if w.Keep() {
					ops = append(ops, op)
				}
			}
			w.Note("other %d: %v", t, ops)
			gap := time.Duration(pick(w, 0, 1, 100, 400)) * time.Millisecond
			w.Go(fmt.Sprintf("other%d", t), func() {
				for _, op := range ops {
					w.Sleep(gap)
					switch op {
					case 0:
						l.s.Pause()
					case 1:
						l.s.Resume()
					case 2:
						l.s.Reset()
					case 3:
						l.s.Disrupt()
					case 4:
						l.s.Statistics()
					default:
						w.snap(l.s.Snapshot(), l.n)
					}
				}
			})
		}
		w.Sleep(time.Duration(w.Between(0, 3000)) * time.Millisecond)
		if !l.started {
			start()
		}
		w.Sleep(settled) // they are done
		if w.Rng.Bool(0.5) {
			l.s.Pause()
			l.paused = true
		} else {
			l.s.Resume()
		}
		l.s.Disrupt()
		l.disruptAt = w.Now()
		l.s.Reset()
		l.resetAt, l.zero, l.born = w.Now(), w.Now(), w.Now()
		w.Probe("others")
	}
	ops := w.Between(1, 9)
	for i := 0; i < ops; i++ {
		gap := time.Duration(pick(w, 0, 0, w.Between(0, 300), w.Between(0, 3000))) * time.Millisecond
		op := w.Rng.Intn(12)
		if !w.Keep() {
			continue
		}
		w.Sleep(gap)
		w.Note("%v %v", gap, op)
		switch op {
		case 0, 1, 2:
			l.pause()
			l.look()
		case 3, 4, 5:
			l.s.Resume()
			l.paused = false
			l.look()
		case 6:
			l.s.Reset()
			l.resetAt, l.zero, l.born = w.Now(), w.Now(), w.Now()
			l.peak, l.converged = 0, -1
			l.touched = true
			l.fresh = l.paused && w.Now() > l.pausedAt+settled
			l.look()
		case 7:
			l.s.Disrupt()
			l.disruptAt = w.Now()
			l.touched, l.fresh = true, false
			l.look()
		case 8:
			if l.paused {
				l.frozen()
			} else if l.started {
				l.works()
			}
		case 9:
			for k := 0; k < 20; k++ {
				l.look()
				w.Sleep(110 * time.Millisecond)
			}
			l.stats()
		case 10:
			if !l.started {
				start()
			}
		default:
			l.disruptions()
		}
	}
	if !l.started {
		start()
	}
	if !l.paused {
		l.works()
		l.pause()
	}
	l.frozen()
	l.s.Resume()
	l.paused = false
	l.works()
	w.StopFaults()
	if w.Rng.Bool(0.3) {
		l.flags()
	}
	cancel()
	w.Sleep(time.Second)
	w.Check(over, "not-stopped", "Start has not returned a second after cancellation")
	w.Wait()
	if l.n > 20 { // what was taken already takes its time
		w.Sleep(5 * time.Second)
	}
	a := l.s.Snapshot()
	w.Sleep(32 * time.Second)
	if left := w.Live(); len(left) > 0 {
		w.Fail("leak", "32 s after cancellation goroutines are still there: %v", left)
	}
	b := l.s.Snapshot()
	w.Check(a.PendingTasks == b.PendingTasks && a.BatchesProcessed == b.BatchesProcessed && !b.Reset && !b.Disrupted, "not-stopped", "after cancellation the simulation goes on: %d pending tasks became %d, reset %v, disrupted %v", a.PendingTasks, b.PendingTasks, b.Reset, b.Disrupted)
	// nothing moves any more: what a pause shows is what there is
	l.s.Resume()
	w.Sleep(settled)
	b = l.s.Snapshot()
	l.s.Pause()
	c := l.s.Snapshot()
	var ph []float64
	for i, ag := range b.Agents {
		w.Check(ag.Phase == c.Agents[i].Phase && ag.ID == c.Agents[i].ID, "stale", "agent %s was at phase %v, after pausing it is shown at %v", ag.ID, ag.Phase, c.Agents[i].Phase)
		ph = append(ph, ag.Phase)
	}
	w.Check(math.Abs(b.Coherence-c.Coherence) < 1e-9, "stale", "the coherence was %v, after pausing it is shown as %v", b.Coherence, c.Coherence)
	w.Check(math.Abs(b.Coherence-coherenceOf(ph)) < 1e-6, "stale", "the agents shown have coherence %v, shown is %v", coherenceOf(ph), b.Coherence)
	w.Check(math.Abs(b.Coherence-l.s.Statistics().FinalCoherence) < 1e-9, "stale", "the coherence shown is %v, in the statistics %v", b.Coherence, l.s.Statistics().FinalCoherence)
	l.s.Disrupt()
	l.s.Resume()
	d := l.s.Snapshot()
	hit := 0
	for i, ag := range d.Agents {
		if ag.Phase != b.Agents[i].Phase {
			hit++
			w.Check(math.Abs(angle(ag.Phase, b.Agents[i].Phase)-math.Pi) < 1e-3, "disrupted", "a disruption took agent %s from phase %v to %v", ag.ID, b.Agents[i].Phase, ag.Phase)
		}
	}
	w.Check(hit == l.n/5 && d.Disrupted, "disrupted", "a disruption changed the phase of %d of %d agents", hit, l.n)
	l.s.Reset()
	r := l.s.Snapshot()
	w.Check(math.Abs(r.Coherence-worst(l.goal, l.n)) < 1e-4 && r.Reset && r.PendingTasks == 0, "arrangement", "after a reset of a simulation with goal %v the coherence of its agents is %v instead of %v", l.goal, r.Coherence, worst(l.goal, l.n))
	w.Sleep(31 * time.Second)
	w.Check(len(w.Live()) == 0 && !l.s.Snapshot().Paused, "leak", "resuming after cancellation left %v", w.Live())
	w.Probe("at rest")
}

// flags: how long resets and disruptions are shown, without faults.
func (l *life) flags() {
	w := l.w
	const slack = 500 * time.Millisecond
	if !l.paused {
		l.pause()
	}
	w.Sleep(settled)
	l.s.Reset()
	at := w.Now()
	w.Sleep(2*time.Second - 10*time.Millisecond)
	w.Check(l.s.Snapshot().Reset, "reset-flag", "the reset %v ago is not shown any more", w.Now()-at)
	w.Sleep(slack)
	w.Check(!l.s.Snapshot().Reset, "reset-flag", "the reset %v ago is still shown", w.Now()-at)
	got, want := l.s.Statistics().FinalCoherence, worst(l.goal, l.n)
	w.Check(math.Abs(got-want) < 1e-4, "arrangement", "after a reset of a simulation with goal %v the coherence of its agents is %v instead of %v", l.goal, got, want)
	l.s.Disrupt()
	at = w.Now()
	if st := l.s.Statistics(); st.FinalCoherence >= l.target {
		w.Sleep(100*time.Millisecond + slack)
		w.Check(!l.s.Snapshot().Disrupted, "disrupt-flag", "the disruption %v ago is still shown although the coherence is %v of %v", w.Now()-at, st.FinalCoherence, l.target)
	} else {
		if w.Rng.Bool(0.5) { // stopped for part of the time
			w.Sleep(time.Duration(w.Between(0, 9000)) * time.Millisecond)
			w.Freeze(time.Duration(w.Between(500, 20000)) * time.Millisecond)
			w.Probe("stopped during a disruption")
		}
		w.Sleep(at + 30*time.Second - 10*time.Millisecond - w.Now())
		w.Check(l.s.Snapshot().Disrupted, "disrupt-flag", "the disruption %v ago is not shown any more", w.Now()-at)
		w.Sleep(slack)
		w.Check(!l.s.Snapshot().Disrupted, "disrupt-flag", "the disruption %v ago is still shown", w.Now()-at)
	}
	w.Probe("flags")
}

// disruptions: paused, so that nothing recovers, the flag of the latest
// disruption has its full time.
func (l *life) disruptions() {
	w := l.w
	l.pause()
	w.Sleep(settled)
	for i, n := 0, w.Between(1, 3); i < n; i++ {
		l.fresh = false
		l.s.Disrupt()
		l.disruptAt = w.Now()
		gap := time.Duration(w.Between(100, 29000)) * time.Millisecond
		w.Note("disrupted, %v", gap)
		if i < n-1 {
			w.Sleep(gap)
		}
	}
	st := l.s.Statistics()
	if st.FinalCoherence >= l.target {
		w.Sleep(settled)
		w.Check(!l.look().Disrupted, "disrupt-flag", "the disruption is still shown %v later although the coherence is %v of %v", settled, st.FinalCoherence, l.target)
		w.Probe("undisturbed by the disruption")
		return
	}
	for w.Now() < l.disruptAt+29*time.Second {
		sn := l.look()
		if !sn.Disrupted && w.Now() < l.disruptAt+30*time.Second {
			w.Fail("disrupt-flag", "the disruption %v ago is not shown any more although the coherence is still %v of %v", w.Now()-l.disruptAt, st.FinalCoherence, l.target)
		}
		w.Sleep(1300 * time.Millisecond)
	}
	w.Sleep(settled + 2*time.Second)
	l.look()
	w.Probe("lasting disruption")
}

// simRecovers: whenever the simulation is running and left alone, the agents
// come together, also when an earlier synchronization had finished.
func simRecovers(w *W) {
	n := 0
	s := w.newSim(pick(w, pattern.Steady, pattern.Sparse, pattern.Mixed), &n, w.Rng.Bool(0.05))
	target := s.Snapshot().TargetCoherence
	ctx, cancel := zctx.WithCancel(context.Background())
	defer cancel()
	w.Go("start", func() { _ = s.Start(ctx) })
	together := func(after string) {
		t0 := w.Now()
		for w.Now() < t0+40*time.Second {
			if c := s.Snapshot().Coherence; c >= target-within {
				w.Probe(fmt.Sprintf("after %s within %s tenths of a second", after, pow2(int((w.Now()-t0)/(100*time.Millisecond)))))
				w.evals++
				return
			}
			w.Sleep(50 * time.Millisecond)
		}
		w.Fail("not-recovered", "40 s after %s the agents have not come together: coherence %v of %v", after, s.Snapshot().Coherence, target)
	}
	if w.Rng.Bool(0.7) {
		together("start")
	}
	for i, k := 0, w.Between(1, 5); i < k; i++ {
		wait := time.Duration(pick(w, 0, 0, w.Between(0, 1000), w.Between(0, 10000), w.Between(5000, 60000))) * time.Millisecond
		op := w.Rng.Intn(5)
		hold := time.Duration(pick(w, 0, 1, 50, w.Between(0, 3000))) * time.Millisecond
		if !w.Keep() {
			continue
		}
		w.Sleep(wait)
		w.Note("%v %v %v", wait, op, hold)
		name := "a reset"
		switch op {
		case 0, 1:
			s.Reset()
		case 2:
			s.Disrupt()
			name = "a disruption"
		case 3:
			s.Pause()
			w.Sleep(hold)
			s.Reset()
			s.Resume()
			name = "a reset during a pause"
		default:
			s.Pause()
			w.Sleep(hold)
			s.Resume()
			s.Reset()
			name = "a reset after a pause"
		}
		together(name)
	}
	cancel()
	w.Wait()
}
