prop("P01", "Concurrent updates of one agent never lose or mix writes",
  "Reads and writes of an agent's phase, energy, goal, frequency, influence and stubbornness behave as if executed one at a time in some order that respects real time: no completed write of one attribute is lost because another attribute was written at the same moment, and no read returns a value that was never written. This holds for direct setters, actions, and the agent's own context refresh running together.",
  ["schedules", "histories"], SCHED,
  "The unit tests write attributes from one goroutine, or from several without comparing the outcome with any order; a lost update needs two writers inside one read-copy-write window.",
  ["emerge/agent/agent.go", "emerge/agent/atomic_state.go"],
  [("compare-and-swap of the grouped attribute record", "emerge/agent/atomic_state.go"), ("atomic setters and actions", "emerge/agent/agent.go")],
  ["agent attribute getters after concurrent setters and actions"], [("grouped attributes", "one record replaced atomically", "emerge/agent/atomic_state.go")])
prop("P02", "Energy is never overspent and a refused action changes nothing",
  "However many actions are applied to an agent at once, the energy they spend together never exceeds what the agent had plus what was added, and energy never goes below zero. An action that is refused for lack of energy, or because it is unknown, leaves phase and energy as they were and says so with an error; an accepted one changes energy by exactly its cost.",
  ["schedules", "histories", "inputs"], SCHED + "; all sequences of actions, costs and energy levels generated",
  "Tests apply one action at a time; overspending needs two actions between the check and the deduction.",
  ["emerge/agent/agent.go", "emerge/core/errors.go"],
  [("energy check and deduction in one atomic update", "emerge/agent/agent.go ApplyAction")],
  ["returned error and energy/phase before and after an action"])
prop("P03", "Agent state stays well-formed for every finite input",
  "For all finite inputs given through options, setters and actions, in any order and concurrently, an agent's phase and local goal stay within one turn, its energy stays non-negative, influence and stubbornness stay within [0,1], and what it perceives of its neighbours (coherence, count) is within range. No such input makes the agent panic.",
  ["inputs", "schedules", "histories"], "extreme finite floats (subnormal, huge, next to the boundaries) through every entry point, interleaved; " + SCHED,
  "Tests use a handful of ordinary values sequentially; the rounding and wrapping edges need specific inputs combined with other operations.",
  ["emerge/agent/agent.go", "emerge/agent/atomic_state.go", "emerge/core/phase.go"],
  [("wrapping and clamping at every write", "emerge/agent/agent.go"), ("phase wrap", "emerge/core/phase.go")],
  ["agent getters, strategy callback arguments"])
prop("P04", "The resource pool never grants more than it holds",
  "Requests, releases and availability queries on a shared token pool behave as if executed one at a time: the amount outstanding plus the amount available never exceeds the capacity, grants never exceed the request or what is left, and releasing never lifts availability over the capacity.",
  ["schedules", "histories", "inputs"], SCHED,
  "Tests check final totals of sequential use; over-granting needs two requests racing for the last tokens.",
  ["internal/resource/token.go"], [("atomic reservation", "internal/resource/token.go")],
  ["granted amounts and availability"])
prop("P05", "An agent's neighbours are consistent however they are looked at",
  "Connecting, disconnecting, counting, listing and looking up an agent's neighbours, or going through them until told to stop, behave as if executed one at a time; an agent is never its own neighbour and never has an absent one. Once clients are at rest, every way of looking at an agent's links (membership, count, what the agent perceives) agrees, also beyond the fixed capacity and for links made by the swarm.",
  ["schedules", "histories"], SCHED,
  "Tests connect a few agents sequentially; inconsistency needs a deletion compacting the storage under a reader, or links in both stores.",
  ["emerge/agent/neighbor_storage.go", "emerge/agent/agent.go"],
  [("fixed-size neighbour storage with a lock", "emerge/agent/neighbor_storage.go"), ("union of fixed storage and map", "emerge/agent/agent.go")],
  ["membership, count, listing and perceived context"])
prop("P06", "A run ends within its budget and tells the truth about the outcome",
  "Running a swarm towards its goal always ends within its iteration budget, whatever happens meanwhile. It reports success exactly when the agents meet the success criterion of the goal's configuration (coherence within tolerance of the target, pattern distance, and phase convergence for high targets), reports the context's error only when the context is done, and gives up only after the whole budget was used. A goal that is already met is recognised at once and the agents are left alone.",
  ["schedules", "fault_sequences", "histories", "inputs"], "all swarm sizes from 1 over the 100-agent storage boundary, all goal types, targets and starting arrangements; disturbances, cancellations, deadlines, stalls and clock leaps at any moment; repeated runs",
  "Tests run a few swarms with real time and accept most outcomes; a false success or an early give-up depends on the goal, the size and what happens during the run.",
  ["emerge/swarm/goal_directed.go", "emerge/swarm/swarm.go", "emerge/swarm/limits.go"],
  [("synchronization loop and success criterion", "emerge/swarm/goal_directed.go AchieveSynchronization, isPatternAchieved"), ("practical limits and budget factors", "emerge/swarm/limits.go")],
  ["error and duration of Run, phases and frequencies of the agents"])
prop("P07", "Cancelling stops a run promptly and nothing runs on behind it",
  "Cancelling the context of Run or RunContinuous, directly, through a parent or by deadline, at any moment, ends it within a bounded number of update intervals with the context's error; no goroutine it started outlives it by more than that, and no agent changes afterwards. Continuous operation never ends for any other reason.",
  ["schedules", "fault_sequences", "crash_points"], SCHED + "; cancellation at any point including before the start",
  "Tests cancel at one fixed moment and look only at the returned error; leaks and late changes need specific moments of cancellation.",
  ["emerge/swarm/swarm.go", "emerge/swarm/swarm_continuous_run.go", "emerge/swarm/goal_directed.go"],
  [("context checks in the loops", "emerge/swarm/goal_directed.go"), ("continuous loop and its synchronization goroutine", "emerge/swarm/swarm_continuous_run.go")],
  ["returned error, live goroutines, agent phases after the end"])
prop("P08", "Agents come together (or apart) as the goal asks, from every arrangement",
  "However the agents are arranged and whatever disturbed them before, once disturbances stop a run brings them to the coherence its goal asks for, within a margin of 0.1 and 120 updates: for every goal type with targets up to 0.65, and for the default configuration and the goals of API batching, consensus and rhythm with targets up to 0.9 (and 0.05 below the size's practical limit), in both storage modes, also when the goal's configuration was tuned for any target (speed, stability, efficiency, throughput, resilience, precision) or sized for the swarm. A goal of low coherence (below 0.4) makes agents that are together drift apart.",
  ["schedules", "fault_sequences", "inputs"], "all starting arrangements, sizes, goals in the stated range; disturbances, stalls, clock leaps and entropy edges before the quiet period",
  "Tests run one swarm from one random start in real time; progress must hold from every arrangement and after every fault history.",
  ["emerge/swarm/goal_directed.go", "emerge/completion/engine.go", "emerge/swarm/swarm.go", "emerge/convergence/monitor.go"],
  [("adjustment of all agents per update", "emerge/swarm/goal_directed.go applyPatternCompletion"), ("noise when stuck", "emerge/swarm/goal_directed.go addStochasticResonance")],
  ["coherence of the agents' phases over simulated time"])
prop("P09", "Continuous operation recovers from every disruption, one attempt at a time",
  "While RunContinuous is active, a swarm that was disrupted, suddenly or gradually, at any moment and any number of times, is back within 0.1 of its target coherence within a bounded time after the last disruption (for the goals of P08). When no attempt is under way, a new one begins within two check intervals and a second if coherence is below the acceptable share of the target or the minimum of the recovery configuration, given or default, or if it has fallen by more than the configuration's large drop since its best; agents that are all together are left alone, and so is a swarm above both levels when no drop counts as one; there is never more than one synchronization at work.",
  ["schedules", "fault_sequences", "histories"], "all sequences of disruptions, gradual drifts, failed attempts, stalls and clock leaps; default and custom recovery configurations",
  "Tests disrupt once and wait in real time; recovery must follow every history of attempts and disruptions.",
  ["emerge/swarm/swarm_continuous_run.go", "emerge/swarm/thresholds.go", "emerge/swarm/goal_directed.go"],
  [("periodic check and restart", "emerge/swarm/swarm_continuous_run.go RunContinuous, needsResync"), ("default thresholds by target", "emerge/swarm/swarm_continuous_run.go DefaultRecoveryConfig")],
  ["coherence over simulated time, live synchronization goroutines, agent phases"])
prop("P10", "The swarm's status tells the truth",
  "Whether a swarm says it has converged, in what time, and with what coherence agrees with what happened: after a successful run it says so with a positive time not beyond its age, after a failed run it does so only if the target was reached, after a disruption it no longer does, and the coherence reported by the swarm or its client is that of the agents' phases. A client has the agents, the goal configuration and the target of its scale, goal and wish, however it was built.",
  ["histories", "schedules", "fault_sequences"], "sequences of runs, disruptions and readings in any order and at any moment, over all goal types and sizes; client built every way",
  "Tests look at the status of fresh swarms; staleness needs a history of runs and disruptions.",
  ["emerge/swarm/swarm.go", "emerge/swarm/goal_directed.go", "emerge/monitoring/convergence.go", "client/emerge/emerge.go"],
  [("convergence record kept by the loop", "emerge/swarm/goal_directed.go"), ("reset on disruption", "emerge/swarm/swarm.go DisruptAgents")],
  ["IsConverged, ConvergenceTime, CurrentCoherence, MeasureCoherence, client.Coherence"])
prop("P11", "Monitors report a consistent, bounded record and never deadlock",
  "Recording samples and asking for history, average, latest value, rate, stability, prediction, statistics or convergence behave as if executed one at a time: the sample window never exceeds its bound and keeps the newest samples in order, every statistic of one report belongs to one moment, progress is that since the first sample and stays within [0,1], and the verdicts on trend, being stuck and switching strategy follow from the distances recorded. Queries and recordings never block each other for ever.",
  ["schedules", "histories"], SCHED,
  "Tests query a monitor after recording in one goroutine; torn reports and lock re-entry need a writer arriving between two reads of one query.",
  ["emerge/monitoring/monitor.go", "emerge/monitoring/convergence.go", "internal/emerge/metrics.go", "internal/emerge/convergence.go", "emerge/convergence/monitor.go"],
  [("read/write lock around the record", "emerge/monitoring/convergence.go"), ("window trimming", "emerge/monitoring/monitor.go")],
  ["values returned by the monitors"])
prop("P12", "All views of a swarm agree, in both storage modes",
  "Size, listing, iteration and look-up of agents by name always show the same agents, each exactly once, under unique names, below and above the size at which storage changes; iteration stops when told to; maps given to callers are the callers' own; and measured coherence, phase convergence and phase variance are those of the agents' phases.",
  ["inputs", "schedules", "histories"], "all sizes around the 100-agent boundary, during runs and disruptions; " + SCHED,
  "Tests look at small swarms in one storage mode; disagreement appears beyond 100 agents or during a run.",
  ["emerge/swarm/swarm.go", "emerge/swarm/phase_convergence.go"],
  [("optimized slice and map storage", "emerge/swarm/swarm.go")],
  ["Agents, Agent, ForEachAgent, Size, MeasureCoherence, MeasurePhaseConvergence"])
prop("P13", "A disruption touches exactly the share of agents asked for",
  "Disrupting a share p of n agents changes the phase of exactly floor(p*n) agents, with p clamped to [0,1], and nothing else of any agent, whatever the storage mode and concurrent disruptions; afterwards the swarm no longer reports its old convergence.",
  ["inputs", "schedules", "histories"], "shares at and beyond the edges, all sizes, sequences of disruptions and runs; " + SCHED,
  "Tests disrupt one small swarm and compare coherence; the exact count and side effects for every share and size are not looked at.",
  ["emerge/swarm/swarm.go"], [("selection and phase change", "emerge/swarm/swarm.go DisruptAgents")],
  ["agent attributes before and after, convergence status"])
prop("P14", "The network of a new swarm is symmetric and as asked for",
  "For every size, configuration and random outcome, the links of a new swarm are mutual, connect only its own agents and never an agent with itself; every agent has at least the configured minimum of neighbours (unless the swarm is in its minimal-connection mode), and a requested topology (full, ring, star) is exactly that. What cannot be built (no agents, an invalid goal, a ring or star of one agent, a topology that fails, more agents than the configuration allows, a figure of the configuration or a coherence option out of its range) is refused with an error; figures at the ends of their ranges are not.",
  ["inputs", "histories"], "all sizes around every boundary, neighbour limits, probabilities, construction paths and entropy outcomes incl. edges",
  "Tests build a few networks with lucky random draws; missing links need specific sizes, limits and draws.",
  ["emerge/swarm/swarm.go", "internal/topology/full.go", "internal/topology/ring.go", "internal/topology/star.go", "internal/config/swarm.go"],
  [("neighbour establishment", "emerge/swarm/swarm.go"), ("topologies", "internal/topology/ring.go")],
  ["IsConnectedTo, NeighborCount, Neighbors of all agents"])
prop("P15", "The worker pool runs each task once, within its width, and shuts down",
  "Every task submitted to a running pool runs exactly once and at most as many at a time as there are workers; after stopping, the workers end within a bounded time and no submitter stays blocked for ever, whatever the moment of the stop.",
  ["schedules", "fault_sequences"], SCHED + "; stop injected at every point of the submissions",
  "Tests submit to a live pool and stop it idle; the races are between stop and pending submissions.",
  ["emerge/swarm/swarm.go"], [("task channel and quit signal", "emerge/swarm/swarm.go worker pool")],
  ["task executions, goroutines left"])
prop("P16", "Recycled agents come back fresh and are never handed out twice",
  "An agent taken from the pool carries the requested name, default attributes and no neighbours or history of an earlier owner, and is held by no one else until returned, whatever is dropped or recycled in between; the pool's counters add up.",
  ["schedules", "histories"], SCHED + "; the pool may drop any idle object at any time",
  "Tests get and put one agent; leaks of state need a used agent to be recycled, double hand-out needs concurrent clients.",
  ["emerge/agent/pool.go"], [("reset on return", "emerge/agent/pool.go")], ["agents handed out, pool statistics"])
prop("P20", "A pulse strategy fires at most once per period, also when shared",
  "A pulse-coupling strategy lets at most one pulse out per period however many agents share it and however the clock advances, and does let one out once a full period has passed since the last.",
  ["schedules", "fault_sequences"], SCHED + "; clock leaps",
  "Tests use one goroutine and real sleeps; double pulses need two callers inside the check-then-set window.",
  ["emerge/strategy/pulse.go"], [("last-pulse time under a lock", "emerge/strategy/pulse.go")], ["type of the proposed action over simulated time"])
prop("P21", "Random helpers stay in range for every entropy outcome",
  "Whatever bytes the entropy source returns, random phases lie within one turn, unit floats lie in [0,1) and integers lie in [0,n), and with an even source all of them spread over the whole range; concurrent use does not change that.",
  ["inputs", "schedules"], "all-zero, all-one and boundary entropy injected at random points; " + SCHED,
  "Tests sample typical entropy; the edges occur with probability 2^-53 or less.",
  ["internal/random/random.go"], [("conversion of random bits", "internal/random/random.go")], ["returned values"])
prop("P22", "Proposals respect stubbornness, energy and the decision maker",
  "An agent accepts an adjustment only when it is among the options put before its decision maker, when it can pay for it, and never when it is fully stubborn or when strategy or decision maker give it no chance; a willing agent that can pay accepts. A refusal is a plain 'maintain', and proposing alone changes nothing. The built-in decision maker chooses an option with the best ratio of benefit to cost (costs below 0.1 count as 0.1). Every built-in strategy proposes a finite move towards its goal that does not overshoot, at a cost that is not negative and with a confidence within [0,1]; an adaptive strategy asks the one strategy its selector names (the first if there is no such) and passes its proposal on.",
  ["inputs", "schedules", "histories"], SCHED + "; entropy edges",
  "Tests try a few states; the refusal rules must hold for every state and random draw.",
  ["emerge/agent/agent.go", "emerge/decision/simple.go", "emerge/strategy/adaptive.go", "emerge/strategy/phase_nudge.go", "emerge/strategy/frequency_lock.go", "emerge/strategy/energy_aware.go", "emerge/strategy/pulse.go"],
  [("acceptance rules", "emerge/agent/agent.go ProposeAdjustment")], ["proposed action and acceptance"])
prop("P17", "Every task handed to batching is sent exactly once and the costs add up",
  "Tasks submitted while the queue has room (100 waiting submissions) are sent exactly once, in API batches of 1 to 100; submitting never blocks, and a submission refused for lack of room says so. Submissions waiting together or arriving within the collection window of 50 ms go out in as few batches as fit, submissions further apart do not wait for each other, and every one is sent within a bounded time. Calls, batches, average size, size distribution, costs and savings always fit together and never go back except by a reset, which clears them and never hangs; cancelling ends processing. In a simulation, each task a workload generates (at the rate of its request pattern: steady one every 500 ms, high frequency 2 to 4 every 50 to 100 ms, bursts of half a second to two of 3 to 7 every 100 ms, mixed 1 to 3 every 200 ms or more, sparse one every 2 s or more) is pending or sent, exactly once, across pauses and resumes: while its agent's phase is within 0.1 of 0 a workload sends all its tasks every 100 ms, otherwise - and when the queue has no room - it keeps them. The activity shown of a workload fits its pattern and recent tasks.",
  ["schedules", "fault_sequences", "histories", "inputs"], SCHED + "; sequences of submissions of all sizes, resets, cancellations, pauses and overflows",
  "Tests record one batch by hand; lost or doubled tasks need submissions arriving while a window closes, a reset races with the processor or the simulation is paused.",
  ["simulations/emerge/simulation/batch_manager.go", "simulations/emerge/simulation/metrics.go", "simulations/emerge/simulation/agent.go"],
  [("collection window and splitting", "simulations/emerge/simulation/batch_manager.go ProcessBatches"), ("task hand-over", "simulations/emerge/simulation/agent.go sendBatch"), ("totals", "simulations/emerge/simulation/metrics.go RecordBatch")],
  ["MetricsCollector.Current, BatchSizeDistribution, LastBatchInfo, Simulation.Snapshot and Statistics"])
prop("P18", "Pause, resume, reset and disrupt do what they say, at any moment",
  "While a simulation is paused nothing in it moves: no agent changes phase, no task is generated or sent, and every snapshot shows the same phases and coherence, those the agents had when it was paused; after resuming, tasks are generated again. A reset clears all counters and is shown for two seconds after the latest reset, and leaves the agents in the arrangement farthest from the goal (all at one phase, opposed halves, even spread or drift); a disruption turns a fifth of the agents by half a turn and is shown until coherence is back at the target or 30 s after the latest disruption. Whenever the simulation runs and is left alone, the agents come together to within 0.1 of the target within 40 s, also after a reset or disruption long after an earlier synchronization has finished. Snapshots and statistics are consistent in themselves and with each other, peak coherence and time to converge included. Cancelling ends everything within bounded time. All this in any order of calls, from any number of callers.",
  ["schedules", "fault_sequences", "histories"], "all sequences of Start, Pause, Resume, Reset, Disrupt, Snapshot and Statistics by one or several callers at any moment; " + SCHED,
  "Tests check that the calls do not crash and set their flag; leftovers of earlier calls (timers, synchronizations) show only in specific sequences and moments.",
  ["simulations/emerge/simulation/simulation.go", "simulations/emerge/simulation/agent.go", "simulations/emerge/simulation/metrics.go"],
  [("pausing and restarting synchronization", "simulations/emerge/simulation/simulation.go Pause, Resume, synchronize"), ("flags and their timers", "simulations/emerge/simulation/simulation.go Reset, Disrupt")],
  ["Simulation.Snapshot, Simulation.Statistics, live goroutines"])
prop("P19", "Concurrent use is free of data races",
  "Agents, neighbour storage, pools, monitors, strategies, a swarm that is running, read and disrupted at once, the batch manager and the simulation can be used from several goroutines at once without two of them accessing the same memory, one writing, without synchronization between them. (One run per swarm at a time.)",
  ["schedules"], SCHED,
  "The race detector sees only the accesses of the schedules that happen to occur; most pairs never meet in the tests.",
  ["emerge/agent/agent.go", "emerge/agent/neighbor_storage.go", "emerge/swarm/swarm.go", "emerge/swarm/goal_directed.go", "emerge/monitoring/monitor.go", "emerge/monitoring/convergence.go", "internal/resource/token.go", "emerge/strategy/pulse.go", "simulations/emerge/simulation/simulation.go", "simulations/emerge/simulation/agent.go"],
  [("locks and atomics around shared state", "emerge/agent/agent.go")],
  ["happens-before order of all instrumented memory accesses"])
prop("P23", "The dashboard obeys its keys and ends cleanly",
  "Each key pressed has its effect once and in order: P toggles pause, space resumes, R and D act only when not paused, a key for the current scale, goal or pattern or without meaning does nothing. Quit, a key for another scale, goal or pattern, the timeout, cancellation or a failing display ends the run promptly and for no other reason; the first key asking for a switch is the one reported, and a summary with the simulation's statistics is shown exactly when there was neither a switch nor an error. A controller that is no keyboard is refused with an error. The display is set up and closed once, updated regularly with the simulation's figures, and nothing runs on afterwards, nor does a key pressed then hold anything up. Scripted events come once each, in order, not before their delay.",
  ["schedules", "fault_sequences", "histories", "inputs"], "all sequences and timings of keys, display failures, timeouts and cancellations; " + SCHED,
  "There are no tests of the runner; lost or reordered keys need specific timings.",
  ["simulations/emerge/ui/runner.go", "simulations/display/controller.go", "simulations/emerge/simulation/simulation.go"],
  [("event loop", "simulations/emerge/ui/runner.go handleEvents"), ("key table", "simulations/display/controller.go ProcessKey")],
  ["result of Run, calls on the display, simulation snapshot"])
prop("P24", "A run reaches its goal once it is left alone",
  "Whatever arrangement, cancelled run or disturbance a swarm of 10 or more agents comes from, once it is left alone running it towards a goal it can practically reach, with iterations to spare, ends in success: the agents have the goal's coherence, phase and frequency, not only some coherence.",
  ["inputs", "schedules", "fault_sequences", "histories"], "swarms of 10 to 60 agents, coherences of 0.5 to 0.9, goal frequencies, starting arrangements, cut-short first runs and disturbances; " + SCHED,
  "Tests accept a failed run after a few seconds of real time; whether a run gets all the way depends on the arrangement, the goal and the random draws of hundreds of updates.",
  ["emerge/swarm/goal_directed.go", "emerge/completion/engine.go", "emerge/strategy/adaptive.go", "emerge/core/pattern.go"],
  [("pattern completion", "emerge/completion/engine.go CompletePattern"), ("success criterion and loop", "emerge/swarm/goal_directed.go AchieveSynchronization")],
  ["result of Swarm.Run and the agents' state after it"])
prop("P25", "Patterns are completed and recognised the same for everyone",
  "The gaps between two patterns (phases more than 0.1 apart, frequencies more than a twentieth off, coherence more than 0.05 short) are found with their sizes and filled by going from where it is toward the most similar template known at that moment (of a distance below 0.7, else toward the gap's own target by at most half), the short way around the circle and in proportion to the gap, while templates are learned and replaced by others; the pattern given stays as it is. A library names the most similar template however many it knows and in whatever order; similarity (three parts strength, three parts period, four parts agreement of the phases) lies within [0,1], is the same both ways and 1 for the same pattern. Jumps of more than a quarter turn are found, and the phases put between two points lead evenly along the short way.",
  ["inputs", "schedules", "histories"], "patterns of all shapes (steady, turning, drifting, random), sets of templates and orders of learning, orders of map iteration; " + SCHED,
  "Tests use a few fixed templates, one at a time; which template wins depends on who else knows what and on the order of a map.",
  ["emerge/completion/engine.go", "emerge/core/pattern.go", "emerge/monitoring/patterns.go", "internal/emerge/pattern.go"],
  [("template choice under the lock", "emerge/completion/engine.go findBestTemplate"), ("similarity and identification", "emerge/monitoring/patterns.go Similarity, Identify")],
  ["CompletedPattern.Filled and its adjustments; Identify, Matches, Similarity, Detect, Complete"])

prop("P26", "Goal blending and attractor basins follow the circle",
  "Blending a local with a global goal goes the short way around the circle and stays between the two; an attractor basin contains exactly the states within its radius of its target, and its force points towards the target and vanishes outside.",
  ["inputs"], "all states, weights and basin parameters",
  "Tests use a few values; wrap-around and boundary values need all inputs.",
  ["emerge/goal/manager.go", "internal/emerge/basin.go"],
  [("blend", "emerge/goal/manager.go Blend"), ("basin", "internal/emerge/basin.go")],
  ["returned values"], claim=False)
NA.append(("P26", "pure functions of their arguments: no schedule, clock, fault, entropy or map order for a simulator to decide, so simulation would be plain input generation"))
prop("P27", "Presets, scales and quality figures are well-formed for every size",
  "Every configuration preset is valid for the swarm sizes it is meant for, normalising a configuration never makes a valid one invalid, scale definitions agree with each other, and diagnostics and quality figures stay within their documented ranges for every set of values.",
  ["inputs"], "all presets, sizes and sets of values",
  "Tests look at a few sizes and values.",
  ["internal/config/swarm.go", "internal/config/validation.go", "internal/analysis/quality.go", "internal/analysis/diagnostics.go"],
  [("validation", "internal/config/validation.go"), ("quality", "internal/analysis/quality.go")],
  ["returned values and errors"], claim=False)
NA.append(("P27", "pure functions of their arguments: no schedule, clock, fault, entropy or map order for a simulator to decide, so simulation would be plain input generation; where presets matter to running swarms they are exercised by P06, P08 and P24"))

prop("P28", "The dashboard application follows its command line, keys and signals",
  "The emerge dashboard starts with the scale asked for, or refuses an unknown one with exit code 1 before touching the terminal. A key for another scale, goal or pattern restarts it promptly with exactly that changed and everything else kept (the pattern being the one recommended for the goal until one is chosen), control keys restart nothing, and the panels show the goal, pattern, scale, how well these suit each other, the number of workloads and whether it is paused. Quit, SIGINT or SIGTERM (at any time, also during or after a restart) and the timeout end it promptly with code 0 and one summary left to be read once the terminal is closed, a failing terminal with code 1; every terminal opened is closed again, nothing of an earlier session goes on, and without a terminal it reports in lines of text at most once a second.",
  ["schedules", "fault_sequences", "histories", "inputs"], "all command lines, sequences and timings of keys and signals, terminal failures and terminal sizes; " + SCHED,
  "There is no test of main; what a signal or key does depends on how many restarts came before and on what moment of them it hits.",
  ["simulations/emerge/main.go", "simulations/emerge/config.go", "simulations/emerge/ui/runner.go", "simulations/display/display.go", "simulations/display/text_display.go"],
  [("restart loop and signal handling", "simulations/emerge/main.go main, handleSignals"), ("session", "simulations/emerge/main.go runSimulation"), ("runner", "simulations/emerge/ui/runner.go Run")],
  ["text of the panels and of standard output, terminals opened and closed, exit code"])
prop("P29", "The panels show the figures they are given",
  "After each update, also of several at once, the panels show one and the same snapshot: elapsed time, goal, pattern and scale; the flags paused, disrupted and resetting; the first ten workloads with queue and batches sent and how many more there are; the costs and savings; the goal's own figures (batches, coherence, idle or active share), levels and bars; and everything that depends on an agent's phase (indicator, map, waves, latency, schedule, health, load per server) by its distance around the circle, so that a phase just before the beat counts as near it. The gauges stand at the goal's current and target figures within one percent, green when the goal is reached; the chart holds the newest 50 points since the start, none added while paused, each on its side of the target. The summary shows the statistics given, and leaves them as text when the terminal closes; the text display prints one line per second at most with the figures of that moment.",
  ["inputs", "schedules", "histories"], "all goals, patterns, scales, snapshots and sequences of updates, terminal sizes; " + SCHED,
  "Tests call single helper functions with one snapshot; mixed-up panels need updates at the same time, and wrong figures particular phases, flags or histories.",
  ["simulations/display/display.go", "simulations/display/text_display.go"],
  [("update under the lock", "simulations/display/display.go TerminalDisplay.Update"), ("agents", "simulations/display/display.go updateAgentsDisplay"), ("chart", "simulations/display/display.go updateCoherenceChart")],
  ["text of the panels, values of gauges and chart"])
