From d20962f73994024ee2c7b76ba08b644434242fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:50 +0000
Subject: [PATCH 01/32] fix: concurrent updates of an agent's state no longer
 overwrite each other

AtomicState.Update and AtomicBehavior.Update loaded, modified and stored in
separate steps, so a setter running concurrently with another setter (even of
a different field) could silently undo it. Retry with compare-and-swap.
---
 emerge/agent/atomic_state.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/emerge/agent/atomic_state.go b/emerge/agent/atomic_state.go
index b32601c..30f69d7 100644
--- a/emerge/agent/atomic_state.go
+++ b/emerge/agent/atomic_state.go
@@ -47,12 +47,20 @@ func (a *AtomicState) Store(state StateData) {
 }
 
 // Update atomically updates the state.
-// For simplicity, this just loads, modifies, and stores.
-// In high contention scenarios, consider using a mutex instead.
+// fn is retried when another writer got in between, so that no concurrent
+// update is lost; it must not have side effects beyond its argument.
 func (a *AtomicState) Update(fn func(*StateData)) {
-	old := a.Load()
-	fn(&old)
-	a.Store(old)
+	for {
+		old := a.value.Load()
+		var data StateData
+		if cur, ok := old.(*StateData); ok {
+			data = *cur
+		}
+		fn(&data)
+		if a.value.CompareAndSwap(old, &data) {
+			return
+		}
+	}
 }
 
 // AtomicBehavior uses atomic.Value for behavioral parameters.
@@ -83,8 +91,17 @@ func (a *AtomicBehavior) Store(behavior BehaviorData) {
 }
 
 // Update atomically updates the behavior.
+// fn may be retried, as in AtomicState.Update.
 func (a *AtomicBehavior) Update(fn func(*BehaviorData)) {
-	old := a.Load()
-	fn(&old)
-	a.Store(old)
+	for {
+		old := a.value.Load()
+		var data BehaviorData
+		if cur, ok := old.(*BehaviorData); ok {
+			data = *cur
+		}
+		fn(&data)
+		if a.value.CompareAndSwap(old, &data) {
+			return
+		}
+	}
 }
-- 
2.43.0


From 4019a62c27bff2e9148a1b4f6e6cc581368ae3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:29 +0000
Subject: [PATCH 02/32] fix: concurrent actions cannot spend the same energy
 twice

ApplyAction checked the energy budget against one load of the state and
deducted the cost in a later update, so two concurrent actions could both pass
the check and overspend. Check, apply and pay in one atomic update.
---
 emerge/agent/agent.go | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index 74b94ab..4e923e0 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -438,30 +438,34 @@ func (a *Agent) ProposeAdjustment(globalGoal core.State) (core.Action, bool) {
 
 // ApplyAction executes an action with optimized state updates.
 func (a *Agent) ApplyAction(action core.Action) (bool, float64, error) {
-	state := a.state.Load()
 	energyCost := action.Cost
 
-	if energyCost > state.Energy {
-		return false, 0, fmt.Errorf("%w: required %.2f, available %.2f",
-			core.ErrInsufficientEnergy, energyCost, state.Energy)
-	}
-
-	// Apply action and update energy in a single atomic operation
+	// Check the budget, apply the action and pay for it in a single atomic
+	// operation, so that concurrent actions cannot spend the same energy.
 	success := false
-	switch action.Type {
-	case "adjust_phase", strategyPhaseNudge, strategyFrequencyLock, "energy_save", "pulse":
-		a.state.Update(func(s *StateData) {
+	var err error
+	a.state.Update(func(s *StateData) {
+		success, err = false, nil
+		if energyCost > s.Energy {
+			err = fmt.Errorf("%w: required %.2f, available %.2f",
+				core.ErrInsufficientEnergy, energyCost, s.Energy)
+			return
+		}
+
+		switch action.Type {
+		case "adjust_phase", strategyPhaseNudge, strategyFrequencyLock, "energy_save", "pulse":
 			s.Phase = core.WrapPhase(s.Phase + action.Value)
 			s.Energy = math.Max(0, s.Energy-energyCost)
-		})
-		success = true
-	case "maintain":
-		a.state.Update(func(s *StateData) {
+			success = true
+		case "maintain":
 			s.Energy = math.Max(0, s.Energy-energyCost)
-		})
-		success = true
-	default:
-		return false, 0, fmt.Errorf("%w: %s", core.ErrUnknownActionType, action.Type)
+			success = true
+		default:
+			err = fmt.Errorf("%w: %s", core.ErrUnknownActionType, action.Type)
+		}
+	})
+	if err != nil {
+		return false, 0, err
 	}
 
 	if success && a.resources != nil {
-- 
2.43.0


From d8b1397abcc944e8650e83cb73e1b2f530efdb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:36 +0000
Subject: [PATCH 03/32] fix: agents can be taken from the pool, and come
 without old neighbours

Pool.Get panicked on the first use: the agents the pool creates lack their
state, behaviour, strategy and neighbour storage, and Reset dereferences them.
Reset also left the neighbours of the previous owner in the optimised storage,
and every reused agent was counted as newly created.
---
 emerge/agent/pool.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/emerge/agent/pool.go b/emerge/agent/pool.go
index 0aef185..11f2b44 100644
--- a/emerge/agent/pool.go
+++ b/emerge/agent/pool.go
@@ -7,7 +7,10 @@ import (
 
 	"github.com/carlisia/bio-adapt/emerge/core"
 	"github.com/carlisia/bio-adapt/emerge/decision"
+	"github.com/carlisia/bio-adapt/emerge/goal"
+	"github.com/carlisia/bio-adapt/emerge/strategy"
 	"github.com/carlisia/bio-adapt/internal/random"
+	"github.com/carlisia/bio-adapt/internal/resource"
 )
 
 // Pool manages a pool of reusable Agent objects to reduce allocations.
@@ -48,8 +51,8 @@ func (p *PoolManager) Get(id string) *Agent {
 		panic("pool returned non-Agent type")
 	}
 
-	// Check if this is a newly created agent
-	if a.ID == "" {
+	// Check if this is a newly created agent (reused ones keep their structures)
+	if a.state == nil {
 		p.stats.news.Add(1)
 	}
 
@@ -84,6 +87,17 @@ func (p *PoolManager) Stats() (gets, puts, news uint64, inUse int64) {
 func (a *Agent) Reset(id string) {
 	a.ID = id
 
+	// Allocate what a newly created agent is still missing
+	if a.state == nil {
+		a.state = NewAtomicState()
+		a.behavior = NewAtomicBehavior()
+		a.optimizedNeighbors = NewNeighborStorage(20)
+		a.useOptimizedNeighbors = true
+		a.goalManager = &goal.WeightedManager{}
+		a.resources = resource.NewTokenManager(100)
+		a.strategy = &strategy.PhaseNudge{Rate: 0.3}
+	}
+
 	// Reset atomic values to defaults
 	a.state.Store(StateData{
 		Phase:     random.Phase(),
@@ -96,7 +110,8 @@ func (a *Agent) Reset(id string) {
 		Stubbornness: random.Float64() * 0.3,
 	})
 
-	// Clear neighbors but keep the map allocated
+	// Clear neighbors but keep the storage allocated
+	a.optimizedNeighbors.Clear()
 	a.neighbors.Range(func(key, _ interface{}) bool {
 		a.neighbors.Delete(key)
 		return true
@@ -116,6 +131,9 @@ func (a *Agent) Clear() {
 	a.ID = ""
 
 	// Clear neighbors
+	if a.optimizedNeighbors != nil {
+		a.optimizedNeighbors.Clear()
+	}
 	a.neighbors.Range(func(key, _ interface{}) bool {
 		a.neighbors.Delete(key)
 		return true
-- 
2.43.0


From 4fe66d57750fefd82c1ed5a322c11632c04092f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:36 +0000
Subject: [PATCH 04/32] fix: submitting to a stopped worker pool no longer
 blocks for ever

With no worker left to drain the queue, Submit blocked its caller for good as
soon as the queue was full.
---
 emerge/swarm/swarm.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 98b97ae..8b3ef96 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -664,9 +664,12 @@ func (wp *WorkerPool) worker() {
 	}
 }
 
-// Submit adds work to the queue.
+// Submit adds work to the queue. Work submitted to a stopped pool is dropped.
 func (wp *WorkerPool) Submit(work func()) {
-	wp.workQueue <- work
+	select {
+	case wp.workQueue <- work:
+	case <-wp.quit:
+	}
 }
 
 // Stop shuts down the worker pool.
-- 
2.43.0


From 36e138fc42bf3fb5343c01e13fe1e3afcb9a05ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:36 +0000
Subject: [PATCH 05/32] fix: a pulse strategy shared by goroutines sends one
 pulse per period

Propose read and updated the time of the last pulse without synchronisation, so
concurrent callers could each send a pulse in the same period.
---
 emerge/strategy/pulse.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/emerge/strategy/pulse.go b/emerge/strategy/pulse.go
index d452128..36bb273 100644
--- a/emerge/strategy/pulse.go
+++ b/emerge/strategy/pulse.go
@@ -2,6 +2,7 @@ package strategy
 
 import (
 	"math"
+	"sync"
 	"time"
 
 	"github.com/carlisia/bio-adapt/emerge/core"
@@ -12,6 +13,7 @@ import (
 type Pulse struct {
 	Period    time.Duration
 	Amplitude float64
+	mu        sync.Mutex // protects lastPulse
 	lastPulse time.Time
 }
 
@@ -26,12 +28,14 @@ func NewPulse(period time.Duration, amplitude float64) *Pulse {
 
 // Propose suggests a pulse action when appropriate.
 func (s *Pulse) Propose(current, target core.State, context core.Context) (core.Action, float64) {
+	s.mu.Lock()
 	now := time.Now()
 	timeSincePulse := now.Sub(s.lastPulse)
 
 	// Check if it's time for a pulse
 	if timeSincePulse < s.Period {
 		// Between pulses - maintain
+		s.mu.Unlock()
 		return core.Action{
 			Type:    "maintain",
 			Value:   0,
@@ -42,6 +46,7 @@ func (s *Pulse) Propose(current, target core.State, context core.Context) (core.
 
 	// Time for a pulse!
 	s.lastPulse = now
+	s.mu.Unlock()
 
 	// Strong adjustment toward target
 	diff := core.PhaseDifference(target.Phase, current.Phase)
-- 
2.43.0


From 596e1fcc78e8aa2d19d6e2cd1b246c68e21773a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:51 +0000
Subject: [PATCH 06/32] fix: an agent's links are the same wherever they are
 looked at

Links the swarm establishes live in the map, links made with ConnectTo in the
fixed-size storage, and each reader looked at one of them only: agents of a
swarm perceived no neighbours and denied being connected to them, and ConnectTo
silently dropped every link beyond the storage's capacity of 20, so that a
fully connected or star topology of more than 21 agents was incomplete.
---
 emerge/agent/agent.go | 81 ++++++++++++++++++++++---------------------
 1 file changed, 41 insertions(+), 40 deletions(-)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index 4e923e0..ffcd4a2 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -249,23 +249,48 @@ func (a *Agent) SetDecisionMaker(dm core.DecisionMaker) {
 
 // NeighborCount returns the number of connected neighbors.
 func (a *Agent) NeighborCount() int {
-	// Check both storage methods for compatibility
-	optimizedCount := 0
+	count := 0
 	if a.useOptimizedNeighbors && a.optimizedNeighbors != nil {
-		optimizedCount = a.optimizedNeighbors.Count()
+		count = a.optimizedNeighbors.Count()
 	}
 
-	mapCount := 0
-	a.neighbors.Range(func(_, _ any) bool {
-		mapCount++
+	a.neighbors.Range(func(key, _ any) bool {
+		if !a.inOptimizedStorage(key) {
+			count++
+		}
 		return true
 	})
+	return count
+}
+
+// inOptimizedStorage reports whether a key of the neighbors map is also held
+// by the fixed-size storage.
+func (a *Agent) inOptimizedStorage(key any) bool {
+	if !a.useOptimizedNeighbors || a.optimizedNeighbors == nil {
+		return false
+	}
+	id, ok := key.(string)
+	if !ok {
+		return false
+	}
+	_, exists := a.optimizedNeighbors.Load(id)
+	return exists
+}
 
-	// Return the max to handle both cases
-	if optimizedCount > mapCount {
-		return optimizedCount
+// allNeighbors returns every neighbor once: those in the fixed-size storage and
+// those only in the map (stored through Neighbors, or beyond the capacity).
+func (a *Agent) allNeighbors() []*Agent {
+	var list []*Agent
+	if a.useOptimizedNeighbors && a.optimizedNeighbors != nil {
+		list = a.optimizedNeighbors.All()
 	}
-	return mapCount
+	a.neighbors.Range(func(key, value any) bool {
+		if neighbor, ok := value.(*Agent); ok && !a.inOptimizedStorage(key) {
+			list = append(list, neighbor)
+		}
+		return true
+	})
+	return list
 }
 
 // Neighbors returns the agent's neighbors map for compatibility.
@@ -281,9 +306,7 @@ func (a *Agent) ConnectTo(otherID string, other *Agent) {
 		return
 	}
 
-	if a.useOptimizedNeighbors {
-		a.optimizedNeighbors.Store(otherID, other)
-	} else {
+	if !a.useOptimizedNeighbors || !a.optimizedNeighbors.Store(otherID, other) {
 		a.neighbors.Store(otherID, other)
 	}
 }
@@ -292,16 +315,14 @@ func (a *Agent) ConnectTo(otherID string, other *Agent) {
 func (a *Agent) DisconnectFrom(otherID string) {
 	if a.useOptimizedNeighbors {
 		a.optimizedNeighbors.Delete(otherID)
-	} else {
-		a.neighbors.Delete(otherID)
 	}
+	a.neighbors.Delete(otherID)
 }
 
 // IsConnectedTo checks if connected to another agent.
 func (a *Agent) IsConnectedTo(otherID string) bool {
-	if a.useOptimizedNeighbors {
-		_, exists := a.optimizedNeighbors.Load(otherID)
-		return exists
+	if a.inOptimizedStorage(otherID) {
+		return true
 	}
 	_, exists := a.neighbors.Load(otherID)
 	return exists
@@ -310,17 +331,7 @@ func (a *Agent) IsConnectedTo(otherID string) bool {
 // UpdateContext updates the agent's perception efficiently with both optimizations.
 func (a *Agent) UpdateContext() {
 	// Get neighbors efficiently
-	var neighborList []*Agent
-	if a.useOptimizedNeighbors {
-		neighborList = a.optimizedNeighbors.All()
-	} else {
-		a.neighbors.Range(func(_, value any) bool {
-			if neighbor, ok := value.(*Agent); ok {
-				neighborList = append(neighborList, neighbor)
-			}
-			return true
-		})
-	}
+	neighborList := a.allNeighbors()
 
 	if len(neighborList) == 0 {
 		a.context.Store(core.Context{
@@ -477,17 +488,7 @@ func (a *Agent) ApplyAction(action core.Action) (bool, float64, error) {
 
 // calculateLocalCoherence efficiently calculates coherence.
 func (a *Agent) calculateLocalCoherence() float64 {
-	var neighborList []*Agent
-	if a.useOptimizedNeighbors {
-		neighborList = a.optimizedNeighbors.All()
-	} else {
-		a.neighbors.Range(func(_, value any) bool {
-			if neighbor, ok := value.(*Agent); ok {
-				neighborList = append(neighborList, neighbor)
-			}
-			return true
-		})
-	}
+	neighborList := a.allNeighbors()
 
 	if len(neighborList) == 0 {
 		return 0
-- 
2.43.0


From 3b6606a9ed13b6bd99f3699f466b0c8d1753d90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:01 +0000
Subject: [PATCH 07/32] fix: disruption, iteration and agent builders reach
 swarms of over 100 agents

Large swarms keep their agents in a slice, but DisruptAgents, ForEachAgent and
WithAgentBuilder only knew the map of the small ones: disrupting or iterating
over a large swarm did nothing and a custom agent builder was ignored.
---
 emerge/swarm/swarm.go | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 8b3ef96..3c8e660 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -290,6 +290,11 @@ func WithAgentBuilder(builder func(id string, swarmSize int, cfg config.Swarm) *
 	return func(s *Swarm) error {
 		for i := range s.size {
 			a := builder(fmt.Sprintf("agent-%d", i), s.size, s.config)
+			if s.optimized {
+				s.agentIndex[a.ID] = len(s.agentSlice)
+				s.agentSlice = append(s.agentSlice, a)
+				continue
+			}
 			s.agents.Store(a.ID, a)
 		}
 		return nil
@@ -568,17 +573,14 @@ func (s *Swarm) DisruptAgents(percentage float64) {
 	targetCount := int(float64(s.Size()) * percentage)
 	disrupted := 0
 
-	s.agents.Range(func(_, value any) bool {
-		if disrupted >= targetCount {
-			return false
-		}
-
-		if a, ok := value.(*agent.Agent); ok {
-			a.SetPhase(random.Phase())
-			disrupted++
-		}
-		return true
-	})
+	agents := s.collectAgents()
+	for disrupted < targetCount && disrupted < len(agents) {
+		// Pick one of the agents not disrupted yet
+		i := disrupted + random.Intn(len(agents)-disrupted)
+		agents[disrupted], agents[i] = agents[i], agents[disrupted]
+		agents[disrupted].SetPhase(random.Phase())
+		disrupted++
+	}
 
 	// Important: After disruption, the goal-directed sync may have already
 	// completed and returned from its AchieveSynchronization loop.
@@ -610,12 +612,11 @@ func (s *Swarm) DisruptAgents(percentage float64) {
 // ForEachAgent applies a function to each agent in the swarm.
 // This provides controlled access to agents without exposing the internal map.
 func (s *Swarm) ForEachAgent(fn func(*agent.Agent) bool) {
-	s.agents.Range(func(_, value any) bool {
-		if agent, ok := value.(*agent.Agent); ok {
-			return fn(agent)
+	for _, a := range s.collectAgents() {
+		if !fn(a) {
+			return
 		}
-		return true
-	})
+	}
 }
 
 // AutoScaleConfig returns a configuration that automatically scales based on swarm size.
-- 
2.43.0


From 677b95bed19748dee2f2a0235eaeb7cb5fcd6025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:57 +0000
Subject: [PATCH 08/32] fix: a custom topology connects the agents the swarm
 creates itself

WithTopology ran the builder while the options were applied, before New had
created the default agents: the builder saw an empty swarm, and New then left
all agents unconnected because connections counted as established.
---
 emerge/swarm/swarm.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 3c8e660..a6658ef 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -45,6 +45,7 @@ type Swarm struct {
 
 	// Track initialization state
 	connectionsEstablished bool
+	topology               func(*Swarm) error // Custom topology builder, if any
 
 	// Goal-directed synchronization
 	goalDirectedSync *GoalDirectedSync
@@ -148,6 +149,14 @@ func New(size int, goal core.State, opts ...Option) (*Swarm, error) {
 		}
 	}
 
+	// Build the custom topology, if any
+	if s.topology != nil {
+		if err := s.topology(s); err != nil {
+			return nil, fmt.Errorf("failed to apply swarm option: topology build failed: %w", err)
+		}
+		s.connectionsEstablished = true
+	}
+
 	// Establish connections if not already done
 	if !s.connectionsEstablished {
 		s.establishConnections()
@@ -304,10 +313,8 @@ func WithAgentBuilder(builder func(id string, swarmSize int, cfg config.Swarm) *
 // WithTopology uses a custom topology builder.
 func WithTopology(builder func(*Swarm) error) Option {
 	return func(s *Swarm) error {
-		if err := builder(s); err != nil {
-			return fmt.Errorf("topology build failed: %w", err)
-		}
-		s.connectionsEstablished = true
+		// Built by New once the agents exist
+		s.topology = builder
 		return nil
 	}
 }
-- 
2.43.0


From 097be26a04ebfc6572c6e378899dee501a82c3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:07 +0000
Subject: [PATCH 09/32] fix: convergence monitors take their read lock once

Statistics and PredictConvergenceTime called other locking methods while
holding the read lock; a Record waiting in between deadlocked both.
---
 emerge/monitoring/convergence.go | 28 ++++++++++++++++++++++------
 internal/emerge/convergence.go   | 28 ++++++++++++++++++++++------
 2 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/emerge/monitoring/convergence.go b/emerge/monitoring/convergence.go
index 814b669..88fa5e7 100644
--- a/emerge/monitoring/convergence.go
+++ b/emerge/monitoring/convergence.go
@@ -87,7 +87,11 @@ func (m *ConvergenceMonitor) ConvergenceTime() time.Duration {
 func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.currentCoherence()
+}
 
+// currentCoherence is CurrentCoherence for callers that hold the lock.
+func (m *ConvergenceMonitor) currentCoherence() float64 {
 	if len(m.history) == 0 {
 		return 0
 	}
@@ -99,7 +103,11 @@ func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.convergenceRate()
+}
 
+// convergenceRate is ConvergenceRate for callers that hold the lock.
+func (m *ConvergenceMonitor) convergenceRate() float64 {
 	if len(m.history) < 2 {
 		return 0
 	}
@@ -135,7 +143,11 @@ func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 func (m *ConvergenceMonitor) Stability() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.stability()
+}
 
+// stability is Stability for callers that hold the lock.
+func (m *ConvergenceMonitor) stability() float64 {
 	if len(m.history) < 2 {
 		return 1.0
 	}
@@ -174,17 +186,21 @@ func (m *ConvergenceMonitor) Stability() float64 {
 func (m *ConvergenceMonitor) PredictConvergenceTime() time.Duration {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.predictConvergenceTime()
+}
 
+// predictConvergenceTime is PredictConvergenceTime for callers that hold the lock.
+func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	if m.convergedTime != nil {
 		return 0 // Already converged
 	}
 
-	rate := m.ConvergenceRate()
+	rate := m.convergenceRate()
 	if rate <= 0 {
 		return 0 // Not converging
 	}
 
-	current := m.CurrentCoherence()
+	current := m.currentCoherence()
 	remaining := m.convergenceAt - current
 
 	if remaining <= 0 {
@@ -219,7 +235,7 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 	stats := make(map[string]any)
 
 	stats["samples"] = len(m.history)
-	stats["current_coherence"] = m.CurrentCoherence()
+	stats["current_coherence"] = m.currentCoherence()
 	stats["max"] = m.maxCoherence
 	stats["min"] = m.minCoherence
 	stats["converged"] = m.convergedTime != nil
@@ -248,10 +264,10 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 		stats["std_dev"] = math.Sqrt(variance)
 	}
 
-	stats["convergence_rate"] = m.ConvergenceRate()
-	stats["stability"] = m.Stability()
+	stats["convergence_rate"] = m.convergenceRate()
+	stats["stability"] = m.stability()
 
-	prediction := m.PredictConvergenceTime()
+	prediction := m.predictConvergenceTime()
 	if prediction > 0 {
 		stats["predicted_convergence_time"] = prediction.Seconds()
 	}
diff --git a/internal/emerge/convergence.go b/internal/emerge/convergence.go
index 19d370a..8dec7d3 100644
--- a/internal/emerge/convergence.go
+++ b/internal/emerge/convergence.go
@@ -87,7 +87,11 @@ func (m *ConvergenceMonitor) ConvergenceTime() time.Duration {
 func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.currentCoherence()
+}
 
+// currentCoherence is CurrentCoherence for callers that hold the lock.
+func (m *ConvergenceMonitor) currentCoherence() float64 {
 	if len(m.history) == 0 {
 		return 0
 	}
@@ -99,7 +103,11 @@ func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.convergenceRate()
+}
 
+// convergenceRate is ConvergenceRate for callers that hold the lock.
+func (m *ConvergenceMonitor) convergenceRate() float64 {
 	if len(m.history) < 2 {
 		return 0
 	}
@@ -135,7 +143,11 @@ func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 func (m *ConvergenceMonitor) Stability() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.stability()
+}
 
+// stability is Stability for callers that hold the lock.
+func (m *ConvergenceMonitor) stability() float64 {
 	if len(m.history) < 2 {
 		return 1.0
 	}
@@ -174,17 +186,21 @@ func (m *ConvergenceMonitor) Stability() float64 {
 func (m *ConvergenceMonitor) PredictConvergenceTime() time.Duration {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.predictConvergenceTime()
+}
 
+// predictConvergenceTime is PredictConvergenceTime for callers that hold the lock.
+func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	if m.convergedTime != nil {
 		return 0 // Already converged
 	}
 
-	rate := m.ConvergenceRate()
+	rate := m.convergenceRate()
 	if rate <= 0 {
 		return 0 // Not converging
 	}
 
-	current := m.CurrentCoherence()
+	current := m.currentCoherence()
 	remaining := m.convergenceAt - current
 
 	if remaining <= 0 {
@@ -219,7 +235,7 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 	stats := make(map[string]any)
 
 	stats["samples"] = len(m.history)
-	stats["current_coherence"] = m.CurrentCoherence()
+	stats["current_coherence"] = m.currentCoherence()
 	stats["max"] = m.maxCoherence
 	stats["min"] = m.minCoherence
 	stats["converged"] = m.convergedTime != nil
@@ -248,10 +264,10 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 		stats["std_dev"] = math.Sqrt(variance)
 	}
 
-	stats["convergence_rate"] = m.ConvergenceRate()
-	stats["stability"] = m.Stability()
+	stats["convergence_rate"] = m.convergenceRate()
+	stats["stability"] = m.stability()
 
-	prediction := m.PredictConvergenceTime()
+	prediction := m.predictConvergenceTime()
 	if prediction > 0 {
 		stats["predicted_convergence_time"] = prediction.Seconds()
 	}
-- 
2.43.0


From 75c8b41feaa9cdec8a6e8efd33a81932770bcb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:28 +0000
Subject: [PATCH 10/32] fix: a barely converging monitor no longer predicts a
 negative time

---
 emerge/monitoring/convergence.go | 6 +++++-
 internal/emerge/convergence.go   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/emerge/monitoring/convergence.go b/emerge/monitoring/convergence.go
index 88fa5e7..a495c81 100644
--- a/emerge/monitoring/convergence.go
+++ b/emerge/monitoring/convergence.go
@@ -214,7 +214,11 @@ func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	// Assume each sample is about 100ms apart (configurable)
 	samplePeriod := 100 * time.Millisecond
 
-	return time.Duration(timeToConverge * float64(samplePeriod))
+	estimate := timeToConverge * float64(samplePeriod)
+	if estimate >= math.MaxInt64 {
+		return math.MaxInt64 // Barely converging: longer than a Duration can hold
+	}
+	return time.Duration(estimate)
 }
 
 // History returns the full coherence history.
diff --git a/internal/emerge/convergence.go b/internal/emerge/convergence.go
index 8dec7d3..049cc39 100644
--- a/internal/emerge/convergence.go
+++ b/internal/emerge/convergence.go
@@ -214,7 +214,11 @@ func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	// Assume each sample is about 100ms apart (configurable)
 	samplePeriod := 100 * time.Millisecond
 
-	return time.Duration(timeToConverge * float64(samplePeriod))
+	estimate := timeToConverge * float64(samplePeriod)
+	if estimate >= math.MaxInt64 {
+		return math.MaxInt64 // Barely converging: longer than a Duration can hold
+	}
+	return time.Duration(estimate)
 }
 
 // History returns the full coherence history.
-- 
2.43.0


From 3c7fef00a499b3e1b5d61b99bfeacf99f740995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:31 +0000
Subject: [PATCH 11/32] fix: connecting and disconnecting the same agent at
 once leaves no lost link

---
 emerge/agent/agent.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index ffcd4a2..387a908 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -43,6 +43,7 @@ type Agent struct {
 	optimizedNeighbors    *NeighborStorage
 	neighbors             sync.Map // Fallback for compatibility
 	useOptimizedNeighbors bool
+	linksMu               sync.Mutex // Orders changes that involve both storages
 
 	// Configuration (read-only after creation)
 	swarmSize           int
@@ -306,6 +307,8 @@ func (a *Agent) ConnectTo(otherID string, other *Agent) {
 		return
 	}
 
+	a.linksMu.Lock()
+	defer a.linksMu.Unlock()
 	if !a.useOptimizedNeighbors || !a.optimizedNeighbors.Store(otherID, other) {
 		a.neighbors.Store(otherID, other)
 	}
@@ -313,6 +316,8 @@ func (a *Agent) ConnectTo(otherID string, other *Agent) {
 
 // DisconnectFrom removes a connection.
 func (a *Agent) DisconnectFrom(otherID string) {
+	a.linksMu.Lock()
+	defer a.linksMu.Unlock()
 	if a.useOptimizedNeighbors {
 		a.optimizedNeighbors.Delete(otherID)
 	}
-- 
2.43.0


From 35b67b54ef6edbeea66df9ddd37017b08b9473ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:31 +0000
Subject: [PATCH 12/32] fix: the convergence monitor's target can be set while
 it records

---
 emerge/convergence/monitor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emerge/convergence/monitor.go b/emerge/convergence/monitor.go
index 7a6d49b..a9cef73 100644
--- a/emerge/convergence/monitor.go
+++ b/emerge/convergence/monitor.go
@@ -42,6 +42,8 @@ func NewMonitor(windowSize int) *Monitor {
 
 // SetTarget sets the target coordination state to converge toward.
 func (m *Monitor) SetTarget(target *core.TargetPattern) {
+	m.historyMu.Lock()
+	defer m.historyMu.Unlock()
 	m.target = target
 }
 
-- 
2.43.0


From 494be0e551db815eb2c2a1834249cfc1a3bf40df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:33 +0000
Subject: [PATCH 13/32] fix: phase convergence is right for goal phases beyond
 one turn

---
 emerge/swarm/phase_convergence.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/emerge/swarm/phase_convergence.go b/emerge/swarm/phase_convergence.go
index 45c540c..e154e4a 100644
--- a/emerge/swarm/phase_convergence.go
+++ b/emerge/swarm/phase_convergence.go
@@ -2,6 +2,8 @@ package swarm
 
 import (
 	"math"
+
+	"github.com/carlisia/bio-adapt/emerge/core"
 )
 
 // MeasurePhaseConvergence calculates how well agents have converged to a target phase.
@@ -12,6 +14,9 @@ func (s *Swarm) MeasurePhaseConvergence(targetPhase float64) float64 {
 		return 0
 	}
 
+	// Agent phases lie within one turn; goal phases may be any finite angle
+	targetPhase = core.WrapPhase(targetPhase)
+
 	// Calculate mean phase distance from target
 	totalDistance := 0.0
 	for _, agent := range agents {
-- 
2.43.0


From 91fd239b6314fcd484e7a1d6d547a07c155586a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:56 +0000
Subject: [PATCH 14/32] fix: a target above the practical limit is attempted
 instead of failing at once

NewSwarmFromConfig did not adjust the goal as New does, and the infinite time
factor became a negative number of iterations.
---
 emerge/swarm/goal_directed.go | 4 ++--
 emerge/swarm/swarm.go         | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/emerge/swarm/goal_directed.go b/emerge/swarm/goal_directed.go
index 1366d36..2218971 100644
--- a/emerge/swarm/goal_directed.go
+++ b/emerge/swarm/goal_directed.go
@@ -92,8 +92,8 @@ func (gds *GoalDirectedSync) AchieveSynchronization(ctx context.Context, target
 
 	// Adjust max iterations based on difficulty
 	timeFactor := GetConvergenceTimeFactor(swarmSize, target.Coherence)
-	maxIterations := int(gds.config.Strategy.MaxIterationsFactor * timeFactor)
-	maxIterations = min(maxIterations, 1000) // Cap at reasonable limit
+	// Cap at reasonable limit (the factor is infinite beyond the practical limit)
+	maxIterations := int(min(gds.config.Strategy.MaxIterationsFactor*timeFactor, 1000))
 
 	// Goal-directed loop
 	ticker := time.NewTicker(gds.config.Strategy.UpdateInterval)
diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index a6658ef..2213b7e 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -189,6 +189,12 @@ func NewSwarmFromConfig(size int, goal core.State, cfg config.Swarm) (*Swarm, er
 		return nil, fmt.Errorf("config validation failed: %w", err)
 	}
 
+	// Validate coherence target and adjust if impossible
+	limits := GetCoherenceLimits(size)
+	if goal.Coherence > limits.Practical {
+		goal.Coherence = limits.Practical
+	}
+
 	s := &Swarm{
 		goalState:   goal,
 		config:      cfg,
-- 
2.43.0


From 2bfa22ae19a8d5bf74c06378217ab735bc97affe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 15/32] fix: continuous operation survives a failed
 synchronization attempt

RunContinuous is documented to exit only when its context is canceled but
returned as soon as one attempt ran out of iterations.
---
 emerge/swarm/swarm_continuous_run.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/emerge/swarm/swarm_continuous_run.go b/emerge/swarm/swarm_continuous_run.go
index a46aea3..2ab3ee7 100644
--- a/emerge/swarm/swarm_continuous_run.go
+++ b/emerge/swarm/swarm_continuous_run.go
@@ -2,7 +2,6 @@ package swarm
 
 import (
 	"context"
-	"errors"
 	"math"
 	"time"
 
@@ -214,15 +213,11 @@ func (s *Swarm) RunContinuous(ctx context.Context) error {
 		case <-ctx.Done():
 			return ctx.Err()
 
-		case err := <-syncDone:
+		case <-syncDone:
+			// Synchronization completed or gave up, continue monitoring:
+			// a failed attempt is retried for as long as it is needed
 			state.syncActive = false
 
-			if err != nil && !errors.Is(err, context.Canceled) {
-				// Real error occurred
-				return err
-			}
-			// Synchronization completed successfully, continue monitoring
-
 		case <-ticker.C:
 			currentCoherence := s.MeasureCoherence()
 
-- 
2.43.0


From 255b00a3551f55470eee65d3ea203314fe514a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:35 +0000
Subject: [PATCH 16/32] fix: a synchronized swarm says so

Nothing ever recorded a measurement, so IsConverged stayed false and
CurrentCoherence and the client's Coherence stayed 0 after a successful run.
---
 client/emerge/emerge.go          |  2 +-
 emerge/monitoring/convergence.go | 12 ++++++++++++
 emerge/swarm/goal_directed.go    |  2 ++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/client/emerge/emerge.go b/client/emerge/emerge.go
index bcb153f..ff491d1 100644
--- a/client/emerge/emerge.go
+++ b/client/emerge/emerge.go
@@ -56,7 +56,7 @@ func (c *Client) Agents() map[string]*agent.Agent {
 // Coherence returns the current synchronization coherence (0 to 1).
 // Higher values indicate better synchronization among agents.
 func (c *Client) Coherence() float64 {
-	return c.swarm.CurrentCoherence()
+	return c.swarm.MeasureCoherence()
 }
 
 // IsConverged returns true if the swarm has achieved its target coherence.
diff --git a/emerge/monitoring/convergence.go b/emerge/monitoring/convergence.go
index a495c81..04fbb88 100644
--- a/emerge/monitoring/convergence.go
+++ b/emerge/monitoring/convergence.go
@@ -64,6 +64,18 @@ func (m *ConvergenceMonitor) Record(coherence float64) {
 	}
 }
 
+// MarkConverged records that the target was reached, for callers that accept
+// a coherence within a tolerance of the threshold.
+func (m *ConvergenceMonitor) MarkConverged() {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
+	if m.convergedTime == nil {
+		now := time.Now()
+		m.convergedTime = &now
+	}
+}
+
 // IsConverged returns whether the system has converged.
 func (m *ConvergenceMonitor) IsConverged() bool {
 	m.mu.RLock()
diff --git a/emerge/swarm/goal_directed.go b/emerge/swarm/goal_directed.go
index 2218971..7f14607 100644
--- a/emerge/swarm/goal_directed.go
+++ b/emerge/swarm/goal_directed.go
@@ -114,9 +114,11 @@ func (gds *GoalDirectedSync) AchieveSynchronization(ctx context.Context, target
 
 			// Step 2: Record convergence
 			gds.convergenceMonitor.RecordSample(currentPattern, coherence)
+			gds.swarm.convergence.Record(coherence)
 
 			// Step 3: Check if we've achieved the goal
 			if gds.isPatternAchieved(currentPattern) {
+				gds.swarm.convergence.MarkConverged()
 				return nil // Success!
 			}
 
-- 
2.43.0


From 0058325a0ef7f4d674ba3673554a01c7fe0c0bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:10 +0000
Subject: [PATCH 17/32] fix: resetting the batch manager cannot hang on a batch
 taken by the processor

---
 simulations/emerge/simulation/batch_manager.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/simulations/emerge/simulation/batch_manager.go b/simulations/emerge/simulation/batch_manager.go
index 6656e82..6bf1407 100644
--- a/simulations/emerge/simulation/batch_manager.go
+++ b/simulations/emerge/simulation/batch_manager.go
@@ -180,9 +180,14 @@ func (bm *BatchManager) Reset() {
 	bm.lastBatchTime = time.Time{}
 	bm.lastBatchSize = 0
 
-	// Clear queue
-	for len(bm.queue) > 0 {
-		<-bm.queue
+	// Clear queue. ProcessBatches may be receiving as well, so never wait for
+	// a batch that it may have taken already.
+	for drained := false; !drained; {
+		select {
+		case <-bm.queue:
+		default:
+			drained = true
+		}
 	}
 
 	bm.currentMu.Lock()
-- 
2.43.0


From 891f1d3ee68fb2af6607a97ad654af6c9b59ae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:23 +0000
Subject: [PATCH 18/32] fix: peak coherence and time to converge are recorded

---
 simulations/emerge/simulation/simulation.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index e53555c..73e73b7 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -334,6 +334,7 @@ func (s *Simulation) Snapshot() Snapshot {
 		coherence = s.pausedCoherence
 	} else {
 		coherence = s.emergeClient.Swarm().MeasureCoherence()
+		s.metrics.UpdateCoherence(coherence)
 	}
 
 	// Get current batch size from queue depth
-- 
2.43.0


From 14fe54988eb4e67cf209dd4b52e242872d90eba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:32 +0000
Subject: [PATCH 19/32] fix: the reset and disruption flags last for the latest
 reset and disruption

---
 simulations/emerge/simulation/simulation.go | 32 ++++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index 73e73b7..081100d 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -201,11 +201,14 @@ func (s *Simulation) Reset() {
 	s.reset = true
 	s.resetTime = time.Now()
 
-	// Clear reset flag after delay
+	// Clear reset flag after delay, unless there was another reset since
+	resetTime := s.resetTime
 	go func() {
 		time.Sleep(2 * time.Second)
 		s.mu.Lock()
-		s.reset = false
+		if s.resetTime.Equal(resetTime) {
+			s.reset = false
+		}
 		s.mu.Unlock()
 	}()
 }
@@ -215,7 +218,8 @@ func (s *Simulation) Disrupt() {
 	s.mu.Lock()
 	// Mark as disrupted for visual feedback
 	s.disrupted = true
-	s.disruptTime = time.Now()
+	disruptTime := time.Now()
+	s.disruptTime = disruptTime
 	s.mu.Unlock()
 
 	// Disrupt synchronization by changing some agents' phases
@@ -244,8 +248,8 @@ func (s *Simulation) Disrupt() {
 			select {
 			case <-ticker.C:
 				s.mu.RLock()
-				if !s.disrupted {
-					// Already cleared (maybe by reset or another disruption)
+				if !s.disrupted || !s.disruptTime.Equal(disruptTime) {
+					// Already cleared, or another disruption is being monitored
 					s.mu.RUnlock()
 					return
 				}
@@ -255,22 +259,28 @@ func (s *Simulation) Disrupt() {
 				coherence := s.emergeClient.Swarm().MeasureCoherence()
 				if coherence >= target {
 					// Recovered above target
-					s.mu.Lock()
-					s.disrupted = false
-					s.mu.Unlock()
+					s.clearDisruption(disruptTime)
 					return
 				}
 			case <-timeout:
 				// Safety timeout - clear disruption flag after 30 seconds
-				s.mu.Lock()
-				s.disrupted = false
-				s.mu.Unlock()
+				s.clearDisruption(disruptTime)
 				return
 			}
 		}
 	}()
 }
 
+// clearDisruption clears the disruption flag unless there was another
+// disruption after the one that began at disruptTime.
+func (s *Simulation) clearDisruption(disruptTime time.Time) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.disruptTime.Equal(disruptTime) {
+		s.disrupted = false
+	}
+}
+
 // Pause pauses the simulation
 func (s *Simulation) Pause() {
 	s.mu.Lock()
-- 
2.43.0


From b2ca7127f7a49fd9631e6db9a3c3ba2f3d850ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:43 +0000
Subject: [PATCH 20/32] fix: the simulation runs one synchronization at a time
 and pausing stops it

---
 simulations/emerge/simulation/simulation.go | 47 +++++++++++++--------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index 081100d..9a2b59b 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -50,8 +50,8 @@ type Simulation struct {
 	resetTime       time.Time
 	startTime       time.Time
 	parentCtx       context.Context // Parent context from Start
-	swarmCtx        context.Context
 	swarmCancel     context.CancelFunc
+	swarmDone       chan struct{} // Closed when the latest synchronization has ended
 }
 
 // Start begins the simulation
@@ -60,17 +60,11 @@ func (s *Simulation) Start(ctx context.Context) error {
 	s.running = true
 	s.startTime = time.Now()
 	s.parentCtx = ctx
-	// Create swarm context that we can cancel on pause
-	s.swarmCtx, s.swarmCancel = context.WithCancel(ctx)
-	s.mu.Unlock()
-
 	// Start swarm synchronization
-	go func() {
-		if err := s.emergeClient.Start(s.swarmCtx); err != nil && !errors.Is(err, context.Canceled) {
-			// Log error but don't crash
-			_ = err
-		}
-	}()
+	if !s.paused {
+		s.synchronize()
+	}
+	s.mu.Unlock()
 
 	// Start agents
 	for _, workload := range s.workloads {
@@ -305,14 +299,31 @@ func (s *Simulation) Resume() {
 	s.paused = false
 	// Restart swarm with a new context
 	if s.parentCtx != nil {
-		s.swarmCtx, s.swarmCancel = context.WithCancel(s.parentCtx)
-		go func() {
-			if err := s.emergeClient.Start(s.swarmCtx); err != nil && !errors.Is(err, context.Canceled) {
-				// Log error but don't crash
-				_ = err
-			}
-		}()
+		s.synchronize()
+	}
+}
+
+// synchronize starts swarm synchronization with a context that can be canceled
+// on pause. There is one synchronization at a time: the previous one is
+// canceled and has ended before the new one begins. s.mu must be held.
+func (s *Simulation) synchronize() {
+	if s.swarmCancel != nil {
+		s.swarmCancel()
 	}
+	ctx, cancel := context.WithCancel(s.parentCtx)
+	previous, done := s.swarmDone, make(chan struct{})
+	s.swarmCancel, s.swarmDone = cancel, done
+
+	go func() {
+		defer close(done)
+		if previous != nil {
+			<-previous
+		}
+		if err := s.emergeClient.Start(ctx); err != nil && !errors.Is(err, context.Canceled) {
+			// Log error but don't crash
+			_ = err
+		}
+	}()
 }
 
 // Snapshot returns current state
-- 
2.43.0


From 96312ec7142f247f02165565e2401e20e80a879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:43 +0000
Subject: [PATCH 21/32] fix: task generation holds the workload's lock

---
 simulations/emerge/simulation/agent.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/simulations/emerge/simulation/agent.go b/simulations/emerge/simulation/agent.go
index efe48a9..bd6bd9d 100644
--- a/simulations/emerge/simulation/agent.go
+++ b/simulations/emerge/simulation/agent.go
@@ -309,8 +309,10 @@ func (w *Workload) generateTasks(ctx context.Context) {
 			}
 
 			// Pattern-specific task generation logic
+			w.mu.Lock()
 			shouldGenerate := w.shouldGenerateTask()
 			if !shouldGenerate {
+				w.mu.Unlock()
 				continue
 			}
 
@@ -318,11 +320,10 @@ func (w *Workload) generateTasks(ctx context.Context) {
 			numTasks := w.getTaskBatchSize()
 			for range numTasks {
 				task := w.createTask()
-				w.mu.Lock()
 				w.pendingTasks = append(w.pendingTasks, task)
 				w.tasksGenerated++
-				w.mu.Unlock()
 			}
+			w.mu.Unlock()
 
 			// Update interval for mixed pattern
 			if w.pattern == pattern.Mixed {
@@ -333,7 +334,8 @@ func (w *Workload) generateTasks(ctx context.Context) {
 	}
 }
 
-// shouldGenerateTask determines if a task should be generated based on pattern
+// shouldGenerateTask determines if a task should be generated based on pattern.
+// w.mu must be held.
 func (w *Workload) shouldGenerateTask() bool {
 	now := time.Now()
 
@@ -382,7 +384,8 @@ func (w *Workload) shouldGenerateTask() bool {
 	}
 }
 
-// getTaskBatchSize returns how many tasks to generate at once based on pattern
+// getTaskBatchSize returns how many tasks to generate at once based on pattern.
+// w.mu must be held.
 func (w *Workload) getTaskBatchSize() int {
 	switch w.pattern {
 	case pattern.HighFrequency:
@@ -413,7 +416,7 @@ func (w *Workload) getTaskBatchSize() int {
 	}
 }
 
-// createTask creates a new task
+// createTask creates a new task. w.mu must be held.
 func (w *Workload) createTask() Task {
 	w.taskCounter++
 
-- 
2.43.0


From dc27994937d501e3e5fdcd8c7711ff08cffed68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:43 +0000
Subject: [PATCH 22/32] fix: a mixed-pattern workload shows recent activity

---
 simulations/emerge/simulation/agent.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simulations/emerge/simulation/agent.go b/simulations/emerge/simulation/agent.go
index bd6bd9d..b5f8309 100644
--- a/simulations/emerge/simulation/agent.go
+++ b/simulations/emerge/simulation/agent.go
@@ -323,6 +323,7 @@ func (w *Workload) generateTasks(ctx context.Context) {
 				w.pendingTasks = append(w.pendingTasks, task)
 				w.tasksGenerated++
 			}
+			w.lastRequestTime = time.Now()
 			w.mu.Unlock()
 
 			// Update interval for mixed pattern
-- 
2.43.0


From 988ed0e27840a9b3bb95ce21aa412ec143ec46e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:31 +0000
Subject: [PATCH 23/32] fix: resetting or disrupting a simulation that has
 finished synchronizing starts it again

---
 simulations/emerge/simulation/simulation.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index 9a2b59b..7d54eac 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -188,6 +188,11 @@ func (s *Simulation) Reset() {
 		}
 	}
 
+	// Synchronize anew: the previous synchronization may have ended
+	if s.running && !s.paused {
+		s.synchronize()
+	}
+
 	// Reset start time
 	s.startTime = time.Now()
 
@@ -230,6 +235,13 @@ func (s *Simulation) Disrupt() {
 		disrupted++
 	}
 
+	// Synchronize anew: the previous synchronization may have ended
+	s.mu.Lock()
+	if s.running && !s.paused {
+		s.synchronize()
+	}
+	s.mu.Unlock()
+
 	// Monitor recovery - clear disruption flag when coherence recovers above target
 	go func() {
 		ticker := time.NewTicker(100 * time.Millisecond)
-- 
2.43.0


From da16cdb36177f186fcbb9e75dc05c3afdd0c1e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:12 +0000
Subject: [PATCH 24/32] fix: tuning a goal for throughput keeps its
 configuration valid

---
 emerge/swarm/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emerge/swarm/config.go b/emerge/swarm/config.go
index e559add..e145db2 100644
--- a/emerge/swarm/config.go
+++ b/emerge/swarm/config.go
@@ -416,7 +416,7 @@ func (c *Config) TuneFor(t trait.Target) *Config {
 
 	case trait.Throughput:
 		// Optimize for maximum processing
-		c.Convergence.BaseAdjustmentScale *= 1.2
+		c.Convergence.BaseAdjustmentScale = minValue(1.0, c.Convergence.BaseAdjustmentScale*1.2)
 		c.Strategy.UpdateInterval = time.Duration(float64(c.Strategy.UpdateInterval) * 0.7)
 		c.Strategy.RandomExploration *= 1.5
 
-- 
2.43.0


From 1411d11d820b36d7ade22e2802dd5135e6feb0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:50 +0000
Subject: [PATCH 25/32] fix: convergence progress is measured from the first
 sample even when the history dropped it

---
 emerge/convergence/monitor.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/emerge/convergence/monitor.go b/emerge/convergence/monitor.go
index a9cef73..0283981 100644
--- a/emerge/convergence/monitor.go
+++ b/emerge/convergence/monitor.go
@@ -16,6 +16,7 @@ type Monitor struct {
 	historyMu  sync.RWMutex
 	windowSize int
 	target     *core.TargetPattern
+	initial    float64 // Distance of the first sample, which the history may have dropped
 	converging atomic.Bool
 	stuckCount atomic.Int32
 }
@@ -79,6 +80,9 @@ func (m *Monitor) RecordSample(current *core.TargetPattern, coherence float64) {
 		Acceleration: acceleration,
 	}
 
+	if len(m.history) == 0 {
+		m.initial = distance
+	}
 	m.history = append(m.history, sample)
 
 	// Keep history bounded
@@ -110,11 +114,7 @@ func (m *Monitor) GetProgress() float64 {
 	}
 
 	// Get initial and current distance
-	initialDistance := 1.0 // Assume max distance initially
-	if len(m.history) > 0 {
-		initialDistance = m.history[0].Distance
-	}
-
+	initialDistance := m.initial
 	currentDistance := m.history[len(m.history)-1].Distance
 
 	// Calculate progress
-- 
2.43.0


From 8ff404b5283e8e648fddcddfa0690b4d5c2af606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:37 +0000
Subject: [PATCH 26/32] fix: the phase difference between 0 and three quarters
 of a turn has the right sign

---
 emerge/core/phase.go | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/emerge/core/phase.go b/emerge/core/phase.go
index 79f3699..b66ebb7 100644
--- a/emerge/core/phase.go
+++ b/emerge/core/phase.go
@@ -16,19 +16,6 @@ func PhaseDifference(phase1, phase2 float64) float64 {
 	// Use atan2 to get the correct phase difference considering the circle
 	result := math.Atan2(math.Sin(diff), math.Cos(diff))
 
-	// Handle specific edge cases for test compatibility
-	const eps = 1e-10
-
-	// Special case: 0 to 3π/2 should return -π/2 (clockwise)
-	if math.Abs(phase1) < eps && math.Abs(phase2-3*math.Pi/2) < eps {
-		return -math.Pi / 2
-	}
-
-	// Special case: 3π/2 to 0 should return π/2 (counterclockwise)
-	if math.Abs(phase1-3*math.Pi/2) < eps && math.Abs(phase2) < eps {
-		return math.Pi / 2
-	}
-
 	return result
 }
 
-- 
2.43.0


From e0de18ffde44e963a8eaba5979d1ee4fee3e8dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:12 +0000
Subject: [PATCH 27/32] fix: a pattern of equal phases is recognised as
 identical to itself

---
 emerge/monitoring/patterns.go | 6 ++++--
 internal/emerge/pattern.go    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/emerge/monitoring/patterns.go b/emerge/monitoring/patterns.go
index d0b8c15..32ca1c3 100644
--- a/emerge/monitoring/patterns.go
+++ b/emerge/monitoring/patterns.go
@@ -96,8 +96,10 @@ func (p *TargetPattern) Similarity(other *TargetPattern) float64 {
 	}
 
 	// Compare amplitudes
-	ampDiff := math.Abs(p.Amplitude - other.Amplitude)
-	ampSim := 1.0 - math.Min(ampDiff/math.Max(p.Amplitude, other.Amplitude), 1.0)
+	ampSim := 1.0
+	if ampDiff := math.Abs(p.Amplitude - other.Amplitude); ampDiff != 0 {
+		ampSim = 1.0 - math.Min(ampDiff/math.Max(p.Amplitude, other.Amplitude), 1.0)
+	}
 
 	// Compare periods
 	periodDiff := math.Abs(float64(p.Period - other.Period))
diff --git a/internal/emerge/pattern.go b/internal/emerge/pattern.go
index 2ccc5ae..87b8bd9 100644
--- a/internal/emerge/pattern.go
+++ b/internal/emerge/pattern.go
@@ -97,8 +97,10 @@ func (p *TargetPattern) Similarity(other *TargetPattern) float64 {
 	}
 
 	// Compare amplitudes
-	ampDiff := math.Abs(p.Amplitude - other.Amplitude)
-	ampSim := 1.0 - math.Min(ampDiff/math.Max(p.Amplitude, other.Amplitude), 1.0)
+	ampSim := 1.0
+	if ampDiff := math.Abs(p.Amplitude - other.Amplitude); ampDiff != 0 {
+		ampSim = 1.0 - math.Min(ampDiff/math.Max(p.Amplitude, other.Amplitude), 1.0)
+	}
 
 	// Compare periods
 	periodDiff := math.Abs(float64(p.Period - other.Period))
-- 
2.43.0


From 86b98883e9c7f83eb335df80378224babe06caa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:37 +0000
Subject: [PATCH 28/32] fix: signals still end the dashboard after a scale,
 goal or pattern switch

---
 simulations/emerge/main.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/simulations/emerge/main.go b/simulations/emerge/main.go
index b02ca60..e2c8a6a 100644
--- a/simulations/emerge/main.go
+++ b/simulations/emerge/main.go
@@ -55,7 +55,8 @@ func main() {
 	config.UpdateInterval = *updateInterval
 	config.Timeout = *timeout
 
-	// Create context with cancellation
+	// Create context with cancellation, shared by all restarts so that a signal
+	// ends the application whenever it arrives
 	ctx, cancel := context.WithCancel(context.Background())
 
 	// Handle graceful shutdown
@@ -150,7 +151,6 @@ func main() {
 
 		// If scale, goal, or pattern was switched, update config and restart
 		if scaleChanged || goalChanged || patternChanged {
-			cancel() // Cancel old context
 			if scaleChanged {
 				config.Scale = newScale
 				fmt.Printf("\nSwitching to %s scale...\n\n", newScale.String())
@@ -163,8 +163,6 @@ func main() {
 				config.Pattern = newPattern
 				fmt.Printf("\nSwitching to %s pattern...\n\n", newPattern.String())
 			}
-			// Create new context for restart
-			ctx, cancel = context.WithCancel(context.Background())
 			continue
 		}
 		break
-- 
2.43.0


From 55810ef5d70fbcf17cbc41be29636ae16724c43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:22 +0000
Subject: [PATCH 29/32] fix: a swarm's unused worker pool leaves no goroutines
 behind

---
 emerge/swarm/swarm.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 2213b7e..93b0bb5 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -648,22 +648,24 @@ type WorkerPool struct {
 	workers   int
 	workQueue chan func()
 	quit      chan struct{}
+	start     sync.Once
 }
 
-// NewWorkerPool creates a new worker pool.
+// NewWorkerPool creates a new worker pool. Its workers are started by the first
+// submission, so that a pool nobody uses leaves no goroutines behind.
 func NewWorkerPool(workers int) *WorkerPool {
-	wp := &WorkerPool{
+	return &WorkerPool{
 		workers:   workers,
 		workQueue: make(chan func(), workers*2),
 		quit:      make(chan struct{}),
 	}
+}
 
-	// Start workers
-	for range workers {
+// startWorkers starts the pool's goroutines.
+func (wp *WorkerPool) startWorkers() {
+	for range wp.workers {
 		go wp.worker()
 	}
-
-	return wp
 }
 
 // worker processes tasks from the queue.
@@ -680,6 +682,8 @@ func (wp *WorkerPool) worker() {
 
 // Submit adds work to the queue. Work submitted to a stopped pool is dropped.
 func (wp *WorkerPool) Submit(work func()) {
+	wp.start.Do(wp.startWorkers)
+
 	select {
 	case wp.workQueue <- work:
 	case <-wp.quit:
-- 
2.43.0


From 99bbd113d040bb26fe3374335eeca60ec0ba3ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:24 +0000
Subject: [PATCH 30/32] fix: dashboard panels treat phases just before the beat
 as near it

---
 simulations/display/display.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/simulations/display/display.go b/simulations/display/display.go
index 8dad981..d7ec0bd 100644
--- a/simulations/display/display.go
+++ b/simulations/display/display.go
@@ -933,6 +933,9 @@ func (d *TerminalDisplay) Update(snapshot SimulationSnapshot) {
 	// Update agents display
 	d.updateAgentsDisplay(snapshot.Agents)
 
+	// The other panels look at phases relative to the beat, ahead or behind
+	snapshot.Agents = phasesAroundBeat(snapshot.Agents)
+
 	// Update metrics
 	d.updateMetricsDisplay(snapshot)
 
@@ -955,6 +958,16 @@ func (d *TerminalDisplay) Update(snapshot SimulationSnapshot) {
 	d.updateCoherenceChart(snapshot.Coherence, snapshot.TargetCoherence, snapshot.Paused)
 }
 
+// phasesAroundBeat returns the agents with phases in [-Pi, Pi] instead of [0, 2*Pi)
+func phasesAroundBeat(agents []AgentSnapshot) []AgentSnapshot {
+	around := make([]AgentSnapshot, len(agents))
+	for i, a := range agents {
+		a.Phase = math.Remainder(a.Phase, 2*math.Pi)
+		around[i] = a
+	}
+	return around
+}
+
 // updateAgentsDisplay updates the agents panel
 func (d *TerminalDisplay) updateAgentsDisplay(agents []AgentSnapshot) {
 	d.agentsText.Reset()
@@ -1091,7 +1104,7 @@ func (d *TerminalDisplay) updateAgentsDisplay(agents []AgentSnapshot) {
 		case goal.ReachConsensus:
 			// Wants CLUSTERS (voting blocs)
 			// Green when in a cluster with others
-			clustered := math.Abs(a.Phase) < 0.5 || math.Abs(a.Phase-2) < 0.5 || math.Abs(a.Phase-4) < 0.5
+			clustered := math.Abs(a.Phase) < 0.5 || math.Abs(a.Phase-2*math.Pi) < 0.5 || math.Abs(a.Phase-2) < 0.5 || math.Abs(a.Phase-4) < 0.5
 			switch {
 			case clustered:
 				syncIndicator = syncGreen // GOOD - in a voting bloc
@@ -1108,7 +1121,7 @@ func (d *TerminalDisplay) updateAgentsDisplay(agents []AgentSnapshot) {
 			case math.Abs(a.Phase) < 0.5 || math.Abs(a.Phase-2*math.Pi) < 0.5:
 				syncIndicator = syncGreen // GOOD - synchronized
 				phaseColor = cell.ColorGreen
-			case math.Abs(a.Phase) < 1.0:
+			case math.Abs(a.Phase) < 1.0 || math.Abs(a.Phase-2*math.Pi) < 1.0:
 				syncIndicator = syncYellow // Almost there
 				phaseColor = cell.ColorYellow
 			default:
-- 
2.43.0


From fa75a18fb060dbecbf4e0d017c532f824a3aabe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:09 +0000
Subject: [PATCH 31/32] fix: leave the summary behind when the terminal closes

The terminal display wrote the final summary onto panels that are never drawn
again: the event loop has ended and the terminal is closed at once. Nobody ever
saw it. Print it as text once the terminal is closed.
---
 simulations/display/display.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/simulations/display/display.go b/simulations/display/display.go
index d7ec0bd..3eef8cc 100644
--- a/simulations/display/display.go
+++ b/simulations/display/display.go
@@ -66,6 +66,7 @@ type TerminalDisplay struct {
 	coherenceHistory []float64
 	targetHistory    []float64
 	mu               sync.Mutex
+	finalStats       *Statistics // Set once the summary is shown
 
 	// Configuration
 	simulationName string
@@ -555,6 +556,11 @@ func (d *TerminalDisplay) Close() error {
 	if d.terminal != nil {
 		d.terminal.Close()
 	}
+	// The panels are gone with the terminal, leave the summary behind as text
+	if d.finalStats != nil {
+		NewTextDisplay().ShowSummary(*d.finalStats)
+		d.finalStats = nil
+	}
 	return nil
 }
 
@@ -2624,6 +2630,8 @@ func (d *TerminalDisplay) updateSwarmVisualization(snapshot SimulationSnapshot)
 
 // ShowSummary displays the final results
 func (d *TerminalDisplay) ShowSummary(stats Statistics) {
+	d.finalStats = &stats
+
 	// Clear display
 	d.titleText.Reset()
 	d.agentsText.Reset()
-- 
2.43.0


From 1a32316a7afdd0ffebd4d608543db03483d7f955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:01 +0000
Subject: [PATCH 32/32] fix: tasks stay pending when the batch queue is full

---
 simulations/emerge/simulation/agent.go         | 11 ++++++-----
 simulations/emerge/simulation/batch_manager.go |  9 +++++----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/simulations/emerge/simulation/agent.go b/simulations/emerge/simulation/agent.go
index b5f8309..73c106d 100644
--- a/simulations/emerge/simulation/agent.go
+++ b/simulations/emerge/simulation/agent.go
@@ -574,16 +574,17 @@ func (w *Workload) sendBatch() {
 	batch := make([]Task, len(w.pendingTasks))
 	copy(batch, w.pendingTasks)
 
+	// Send to batch manager; with many agents in step its queue can be full,
+	// then the tasks stay pending
+	if w.batchManager != nil && !w.batchManager.SubmitBatch(w.id, batch) {
+		return
+	}
+
 	// Clear pending
 	w.pendingTasks = w.pendingTasks[:0]
 
 	// Update metrics
 	w.batchesSent++
-
-	// Send to batch manager
-	if w.batchManager != nil {
-		w.batchManager.SubmitBatch(w.id, batch)
-	}
 }
 
 // Reset resets the workload counters
diff --git a/simulations/emerge/simulation/batch_manager.go b/simulations/emerge/simulation/batch_manager.go
index 6bf1407..8d0a10c 100644
--- a/simulations/emerge/simulation/batch_manager.go
+++ b/simulations/emerge/simulation/batch_manager.go
@@ -54,8 +54,9 @@ func NewBatchManager() *BatchManager {
 	}
 }
 
-// SubmitBatch submits a batch from an agent
-func (bm *BatchManager) SubmitBatch(agentID string, tasks []Task) {
+// SubmitBatch submits a batch from an agent. It never waits: when the queue is
+// full the batch is not taken and SubmitBatch returns false.
+func (bm *BatchManager) SubmitBatch(agentID string, tasks []Task) bool {
 	batch := AgentBatch{
 		AgentID:   agentID,
 		Tasks:     tasks,
@@ -64,9 +65,9 @@ func (bm *BatchManager) SubmitBatch(agentID string, tasks []Task) {
 
 	select {
 	case bm.queue <- batch:
-		// Batch queued
+		return true
 	default:
-		// Queue full, drop batch (shouldn't happen in normal operation)
+		return false
 	}
 }
 
-- 
2.43.0

