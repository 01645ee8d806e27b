package main

import "time"

// P19: the runs of the other scenarios again, at memory-access granularity and
// with the happens-before race detector on; only data races count.
func init() {
	add := func(name string, run func(*W), steps int64, stepNs []int64, quick int, real string) {
		register(&Scenario{Prop: "P19", Name: "race-" + name, Run: run, Fine: 1, Race: true, RaceOnly: true, CapOK: true,
			MaxSteps: steps, MaxTime: 2 * time.Hour, StallMax: 50 * time.Millisecond, StepNs: stepNs, RandEdge: true,
			Quick: quick, Thorough: quick * 25, Real: real, Stub: agentStub})
	}
	ns := []int64{10, 100, 1000}
	add("agent-registers", agentRegisters, 200000, ns, 4000, agentReal)
	add("state-cells", stateCells, 200000, ns, 2000, agentReal)
	add("agent-energy", agentEnergy, 200000, ns, 3000, agentReal)
	add("agent-wellformed", agentWellFormed, 400000, ns, 4000, agentReal)
	add("tokens", tokens, 200000, ns, 3000, "internal/resource")
	add("neighbours", neighbours, 200000, ns, 3000, agentReal)
	add("agent-links", agentLinks, 400000, ns, 3000, agentReal)
	add("proposals", proposals, 400000, ns, 3000, agentReal)
	add("worker-pool", workerPool, 400000, ns, 3000, "emerge/swarm worker pool")
	add("agent-pool", agentPool, 400000, ns, 3000, agentReal)
	add("pulse", pulsePacing, 400000, ns, 3000, "emerge/strategy")
	add("sample-window", sampleWindow, 400000, ns, 3000, "emerge/monitoring")
	add("convergence-record", convergenceRecord, 400000, ns, 3000, "emerge/monitoring")
	add("progress-monitor", progressMonitor, 400000, ns, 3000, "emerge/monitoring")
	add("run-outcome", runOutcome, 400000, ns, 300, swarmReal)
	add("cancellation", cancellation, 400000, ns, 300, swarmReal)
	add("status", swarmStatus, 400000, ns, 300, swarmReal)
	add("views", swarmViews, 400000, ns, 300, swarmReal)
	add("disruption", disruption, 400000, ns, 300, swarmReal)
	add("batching", batching, 400000, []int64{10000}, 600, simReal)
	add("lifecycle", lifecycle, 1500000, []int64{10000, 20000}, 100, simReal)
}
