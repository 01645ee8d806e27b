package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/carlisia/bio-adapt/emerge/completion"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/monitoring"
	iemerge "github.com/carlisia/bio-adapt/internal/emerge"
)

func init() {
	register(&Scenario{Prop: "P25", Name: "completion", Run: patternCompletion, Fine: 0.2, MaxSteps: 2000000, MaxTime: time.Hour,
		StallMax: 50 * time.Millisecond, Freeze: true, Quick: 30000, Thorough: 1500000, Real: "emerge/completion, emerge/core", Stub: agentStub})
	register(&Scenario{Prop: "P25", Name: "library", Run: patternLibrary, Fine: 0.2, MaxSteps: 2000000, MaxTime: time.Hour,
		StallMax: 50 * time.Millisecond, Freeze: true, Quick: 40000, Thorough: 1500000, Real: "emerge/monitoring, internal/emerge, emerge/core", Stub: agentStub})
}

// turn brings a phase difference to (-pi, pi], computed apart from the code.
func turn(d float64) float64 { return math.Atan2(math.Sin(d), math.Cos(d)) }

type fillIn struct {
	add  string // a template's name, or
	idx  int    // which pattern it is
	cur  *core.TargetPattern
	was  core.TargetPattern // cur at the time
	gaps []core.PatternGap
	to   *core.TargetPattern // own pattern, to become this one before
}

type outcome struct{ *completion.CompletedPattern }

func (o outcome) String() string { return fmt.Sprint(o.Filled) }

// known maps the name of a template to the pattern it has.
type known map[string]int

func (k known) key() string {
	var b strings.Builder
	for _, n := range sortedKeys(k) {
		fmt.Fprintf(&b, "%s=%d;", n, k[n])
	}
	return b.String()
}

func patternCompletion(w *W) {
	e := completion.NewEngine()
	randPat := func() *core.TargetPattern {
		p := &core.TargetPattern{Phase: pick(w, 0, w.Unif(0, 2*math.Pi), w.Unif(0, 2*math.Pi)), Coherence: w.Unif(0, 1),
			Frequency: time.Duration(pick(w, 200, 250, w.Between(50, 2000))) * time.Millisecond, Amplitude: 1}
		for i, n := 0, pick(w, 0, 0, 4, w.Between(1, 9)); i < n; i++ {
			p.Waveform = append(p.Waveform, w.Unif(-1, 1))
		}
		return p
	}
	var pats []*core.TargetPattern
	def := []string{"perfect_sync", "partial_sync", "recovery"}
	for i, c := range []float64{1, 0.65, 0.5} {
		pats = append(pats, &core.TargetPattern{Frequency: time.Duration([]int{250, 250, 200}[i]) * time.Millisecond, Coherence: c, Waveform: core.GenerateSineWave(100)})
	}
	for i, n := 0, w.Between(1, 5); i < n; i++ {
		pats = append(pats, randPat())
	}
	init := known{}
	load := func(h *Hist) {
		var ops []*Op
		for i, n := range def {
			ops = append(ops, h.Begin(fillIn{add: n, idx: i}, "load "+n))
		}
		e.LoadDefaultTemplates()
		for _, o := range ops {
			h.End(o, nil)
		}
	}
	h := &Hist{w: w}
	for i, n := 0, pick(w, 0, 0, 1, 3, 6); i < n; i++ {
		k := w.Rng.Intn(len(pats))
		name := pick(w, "a", "b", "c", def[0], def[2])
		e.AddTemplate(name, pats[k])
		init[name] = k
	}
	var asked []*core.TargetPattern
	for t, nt := 0, w.Between(1, 4); t < nt; t++ {
		var plan []fillIn
		own := randPat()
		for i, n := 0, w.Between(1, 5); i < n; i++ {
			if !w.Keep() {
				continue
			}
			switch in := (fillIn{}); {
			case w.Rng.Bool(0.1):
				in.add = "*"
				plan = append(plan, in)
			case w.Rng.Bool(0.35):
				in.add, in.idx = pick(w, "a", "b", "c", def[0], def[2]), w.Rng.Intn(len(pats))
				plan = append(plan, in)
			default:
				in.cur = randPat()
				if w.Rng.Bool(0.3) { // next to a template
					p := pats[w.Rng.Intn(len(pats))]
					in.cur.Phase, in.cur.Frequency, in.cur.Coherence = p.Phase, p.Frequency, p.Coherence*w.Unif(0.8, 1)
				}
				switch from := in.cur; {
				case w.Rng.Bool(0.3) && len(asked) > 0: // asked about before
					in.cur = pick(w, asked...)
					in.gaps = gapsTo(w, in.cur, randPat())
				case w.Rng.Bool(0.2): // the one pattern this client keeps
					in.gaps, in.to = gapsTo(w, from, randPat()), from
					in.cur = own
				default:
					asked = append(asked, in.cur)
					in.gaps = gapsTo(w, in.cur, randPat())
				}
				if w.Rng.Bool(0.3) {
					in.gaps = append(in.gaps, core.PatternGap{Type: "waveform", Severity: w.Unif(0, 1)})
				}
				w.Rng.Shuffle(len(in.gaps), func(i, j int) { in.gaps[i], in.gaps[j] = in.gaps[j], in.gaps[i] })
				plan = append(plan, in)
			}
		}
		w.Note("t%d %d ops", t, len(plan))
		w.Go(fmt.Sprintf("client%d", t), func() {
			for _, p := range plan {
				switch p.add {
				case "*":
					load(h)
				case "":
					if p.to != nil {
						*p.cur = *p.to
					}
					p.was = *p.cur
					o := h.Begin(p, fmt.Sprintf("complete phase %v frequency %v coherence %v gaps %v", p.cur.Phase, p.cur.Frequency, p.cur.Coherence, p.gaps))
					was := *p.cur
					was.Waveform = append([]float64(nil), p.cur.Waveform...)
					out := e.CompletePattern(p.cur, p.gaps)
					h.End(o, outcome{out})
					if p.cur.Phase != was.Phase || p.cur.Frequency != was.Frequency || p.cur.Coherence != was.Coherence || !sameSeq(p.cur.Waveform, was.Waveform) {
						w.Fail("input", "completing changed the pattern given from %+v to %+v", was, *p.cur)
					}
					adjustments(w, p.cur, out)
				default:
					o := h.Begin(p, fmt.Sprintf("add %s = %+v", p.add, *pats[p.idx]))
					e.AddTemplate(p.add, pats[p.idx])
					h.End(o, nil)
				}
			}
		})
	}
	w.Wait()
	ok, _ := Linearizable(h.Ops, init, func(st any, o *Op) (bool, any) {
		k, in := st.(known), o.In.(fillIn)
		if in.add != "" {
			n := known{}
			for a, b := range k {
				n[a] = b
			}
			n[in.add] = in.idx
			return true, n
		}
		return filledRight(k, pats, in, o.Out.(outcome).CompletedPattern), st
	}, func(st any) string { return st.(known).key() })
	if !ok {
		w.Fail("completion", "no order of these operations explains what was filled in; at first %v\n%s", init, h.Format())
	}
	w.evals += int64(len(h.Ops))
}

// gapsTo asks for the gaps between two patterns and checks them.
func gapsTo(w *W, cur, target *core.TargetPattern) []core.PatternGap {
	if w.Rng.Bool(0.4) { // nearly there
		target = &core.TargetPattern{Phase: core.WrapPhase(cur.Phase + w.Unif(-0.2, 0.2)), Frequency: time.Duration(float64(cur.Frequency) * w.Unif(0.9, 1.1)), Coherence: cur.Coherence + w.Unif(-0.1, 0.1)}
	}
	gaps := core.IdentifyGaps(cur, target)
	seen := map[string]int{}
	for _, g := range gaps {
		seen[g.Type]++
	}
	check := func(kind string, from, to, size, least float64) {
		if math.Abs(size-least) < 1e-9 {
			return
		}
		if size > least != (seen[kind] == 1) || seen[kind] > 1 {
			w.Fail("gap", "from %+v to %+v the gaps of %s are %v", *cur, *target, kind, gaps)
		}
		for _, g := range gaps {
			if g.Type == kind && (!near(g.Current, from) || !near(g.Target, to) || !near(g.Severity, size)) {
				w.Fail("gap", "from %+v to %+v there is the gap %+v", *cur, *target, g)
			}
		}
	}
	d := math.Abs(turn(target.Phase - cur.Phase))
	if (seen["phase"] == 1) != (d > 0.1) && math.Abs(d-0.1) > 1e-9 {
		w.Fail("gap", "from %+v to %+v the gaps of phase are %v", *cur, *target, gaps)
	}
	if d > 0.1+1e-9 {
		check("phase", cur.Phase, target.Phase, d/math.Pi, 0)
	}
	check("frequency", float64(cur.Frequency), float64(target.Frequency), math.Abs(float64(cur.Frequency)/float64(target.Frequency)-1), 0.05)
	check("coherence", cur.Coherence, target.Coherence, target.Coherence-cur.Coherence, 0.05)
	if len(gaps) != seen["phase"]+seen["frequency"]+seen["coherence"] {
		w.Fail("gap", "from %+v to %+v the gaps are %v", *cur, *target, gaps)
	}
	return gaps
}

// adjustments checks that the differences reported lead from the pattern to
// what was filled in, the short way.
func adjustments(w *W, cur *core.TargetPattern, out *completion.CompletedPattern) {
	a, f := out.GetPhaseAdjustment(), out.GetFrequencyAdjustment()
	ph, okp := out.Filled["phase"].(float64)
	fr, okf := out.Filled["frequency"].(time.Duration)
	if !okp && a != 0 || okp && (math.Abs(turn(cur.Phase+a-ph)) > 1e-9 || math.Abs(a) > math.Pi+1e-9) {
		w.Fail("adjustment", "phase adjustment %v from %v, filled in %v", a, cur.Phase, out.Filled["phase"])
	}
	if !okf && f != 0 || okf && cur.Frequency+f != fr {
		w.Fail("adjustment", "frequency adjustment %v from %v, filled in %v", f, cur.Frequency, out.Filled["frequency"])
	}
	if okp && (ph < 0 || ph >= 2*math.Pi) {
		w.Fail("range", "the phase filled in is %v", ph)
	}
}

// filledRight tells whether the result follows from one of the closest of the
// known templates.
func filledRight(k known, pats []*core.TargetPattern, in fillIn, out *completion.CompletedPattern) bool {
	dist := func(t *core.TargetPattern) float64 {
		f := 0.0
		if t.Frequency > 0 {
			f = math.Min(1, math.Abs(float64(in.was.Frequency-t.Frequency))/float64(t.Frequency))
		}
		return 0.4*math.Abs(turn(t.Phase-in.was.Phase))/math.Pi + 0.3*f + 0.3*math.Abs(t.Coherence-in.was.Coherence)
	}
	best := math.Inf(1)
	for _, i := range k {
		best = math.Min(best, dist(pats[i]))
	}
	if best > 0.7-1e-9 && filledFrom(nil, in, out) {
		return true
	}
	if best >= 0.7+1e-9 {
		return false
	}
	for _, n := range sortedKeys(k) {
		if t := pats[k[n]]; dist(t) <= best+1e-9 && filledFrom(t, in, out) {
			return true
		}
	}
	return false
}

func filledFrom(t *core.TargetPattern, in fillIn, out *completion.CompletedPattern) bool {
	want := 0
	toward := func(cur, target, by, got float64) bool {
		d := turn(target - cur)
		if math.Abs(turn(cur+d*by-got)) < 1e-9 {
			return true
		}
		return math.Abs(d) > math.Pi-1e-9 && math.Abs(turn(cur-d*by-got)) < 1e-9 // opposite: either way
	}
	for _, g := range in.gaps {
		switch g.Type {
		case "phase":
			want++
			got, ok := out.Filled["phase"].(float64)
			if !ok || t != nil && !toward(in.was.Phase, t.Phase, g.Severity, got) || t == nil && !toward(g.Current, g.Target, math.Min(g.Severity, 0.5), got) {
				return false
			}
		case "frequency":
			want++
			got, ok := out.Filled["frequency"].(time.Duration)
			exp := g.Current + (g.Target-g.Current)*math.Min(g.Severity, 0.5)
			if t != nil {
				exp = float64(in.was.Frequency) + float64(t.Frequency-in.was.Frequency)*g.Severity
			}
			if !ok || math.Abs(float64(got)-exp) > 2 {
				return false
			}
		case "coherence":
			want++
			got, ok := out.Filled["coherence_boost"].(float64)
			exp := (g.Target - g.Current) * math.Min(g.Severity, 0.5)
			if t != nil {
				exp = t.Coherence * g.Severity
			}
			if !ok || !near(got, exp) {
				return false
			}
		case "waveform":
			if t == nil || len(t.Waveform) == 0 {
				continue
			}
			want++
			got, ok := out.Filled["waveform"].([]float64)
			if !ok || !morphed(in.was.Waveform, t.Waveform, g.Severity, got) {
				return false
			}
		}
	}
	return len(out.Filled) == want && out.Base == in.cur
}

func morphed(cur, tmpl []float64, by float64, got []float64) bool {
	if len(cur) == 0 {
		return sameSeq(got, tmpl)
	}
	if len(got) != max(len(cur), len(tmpl)) {
		return false
	}
	for i, v := range got {
		a, b := cur[i*len(cur)/len(got)], tmpl[i*len(tmpl)/len(got)]
		if !near(v, a*(1-by)+b*by) {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------- library

type apat struct {
	phases []float64
	freqs  []time.Duration
	v      any
}

type agap struct {
	from, to int
	d        time.Duration
}

// patKit is one of the two implementations of pattern recognition.
type patKit struct {
	mk       func([]float64, []time.Duration) any
	sim      func(a, b any) float64
	gaps     func(a any) []agap
	fill     func(a any, from, to int) []float64
	add      func(name string, base any, vars []any, tol float64)
	identify func(a any) (string, float64)
	matches  func(name string, a any) bool
}

func monKit() patKit {
	type P = monitoring.TargetPattern
	l := monitoring.NewPatternLibrary()
	ts := map[string]*monitoring.PatternTemplate{}
	return patKit{
		mk:  func(p []float64, f []time.Duration) any { return monitoring.NewTargetPattern(p, f) },
		sim: func(a, b any) float64 { return a.(*P).Similarity(b.(*P)) },
		gaps: func(a any) (r []agap) {
			for _, g := range a.(*P).Detect() {
				r = append(r, agap{g.StartIdx, g.EndIdx, g.Duration})
			}
			return
		},
		fill: func(a any, f, t int) []float64 { return a.(*P).Complete(monitoring.PatternGap{StartIdx: f, EndIdx: t}) },
		add: func(n string, b any, vs []any, tol float64) {
			t := &monitoring.PatternTemplate{Name: n, BasePattern: *b.(*P), Tolerance: tol}
			for _, v := range vs {
				t.Variations = append(t.Variations, *v.(*P))
			}
			ts[n] = t
			l.Add(n, t)
		},
		identify: func(a any) (string, float64) { return l.Identify(a.(*P)) },
		matches:  func(n string, a any) bool { return ts[n].Matches(a.(*P)) },
	}
}

func intKit() patKit {
	type P = iemerge.TargetPattern
	l := iemerge.NewPatternLibrary()
	ts := map[string]*iemerge.PatternTemplate{}
	return patKit{
		mk:  func(p []float64, f []time.Duration) any { return iemerge.NewTargetPattern(p, f) },
		sim: func(a, b any) float64 { return a.(*P).Similarity(b.(*P)) },
		gaps: func(a any) (r []agap) {
			for _, g := range a.(*P).Detect() {
				r = append(r, agap{g.StartIdx, g.EndIdx, g.Duration})
			}
			return
		},
		fill: func(a any, f, t int) []float64 { return a.(*P).Complete(iemerge.PatternGap{StartIdx: f, EndIdx: t}) },
		add: func(n string, b any, vs []any, tol float64) {
			t := &iemerge.PatternTemplate{Name: n, BasePattern: *b.(*P), Tolerance: tol}
			for _, v := range vs {
				t.Variations = append(t.Variations, *v.(*P))
			}
			ts[n] = t
			l.Add(n, t)
		},
		identify: func(a any) (string, float64) { return l.Identify(a.(*P)) },
		matches:  func(n string, a any) bool { return ts[n].Matches(a.(*P)) },
	}
}

// patternLibrary: what is recognised depends neither on the order of the
// templates nor on who else is asking.
func patternLibrary(w *W) {
	k := monKit()
	if w.Rng.Bool(0.5) {
		k = intKit()
	}
	newPat := func(n int) *apat {
		p := &apat{}
		kind := w.Rng.Intn(5)
		c := w.Unif(0, 2*math.Pi)
		f := time.Duration(w.Between(1, 2000)) * time.Millisecond
		for i := 0; i < n; i++ {
			switch kind {
			case 0: // steady
				p.phases = append(p.phases, c)
			case 1: // turning
				p.phases = append(p.phases, math.Mod(c+float64(i)*2*math.Pi/float64(n), 2*math.Pi))
			case 2: // drifting
				c += w.Unif(-0.3, 0.3)
				p.phases = append(p.phases, c)
			default:
				p.phases = append(p.phases, w.Unif(0, 2*math.Pi))
			}
			if w.Rng.Bool(0.3) {
				f = time.Duration(w.Between(1, 2000)) * time.Millisecond
			}
			p.freqs = append(p.freqs, f)
		}
		p.v = k.mk(append([]float64(nil), p.phases...), append([]time.Duration(nil), p.freqs...))
		return p
	}
	size := w.Between(1, 8)
	near1 := func(p *apat) *apat { // like p, but a little off
		q := &apat{freqs: p.freqs}
		for _, v := range p.phases {
			q.phases = append(q.phases, v+w.Unif(-0.2, 0.2))
		}
		q.v = k.mk(append([]float64(nil), q.phases...), append([]time.Duration(nil), q.freqs...))
		return q
	}
	lib := map[string]*apat{}
	vars := map[string][]*apat{}
	tols := map[string]float64{}
	names := []string{"a", "b", "c", "d", "e"}
	for i, n := 0, w.Between(0, 6); i < n; i++ {
		name := pick(w, names...)
		b := newPat(pick(w, size, size, size, w.Between(1, 8)))
		var vs []any
		vars[name] = nil
		for j, m := 0, pick(w, 0, 0, 1, 3); j < m; j++ {
			v := pick(w, newPat(size), near1(b))
			vs, vars[name] = append(vs, v.v), append(vars[name], v)
		}
		lib[name], tols[name] = b, pick(w, 0, 0.05, 0.15, 0.4)
		k.add(name, b.v, vs, tols[name])
	}
	order := sortedKeys(lib)
	w.Note("%d templates of %d", len(order), size)
	spread := func(p *apat) float64 {
		m, v := 0.0, 0.0
		for _, x := range p.phases {
			m += core.WrapPhase(x) / float64(len(p.phases))
		}
		for _, x := range p.phases {
			v += (core.WrapPhase(x) - m) * (core.WrapPhase(x) - m) / float64(len(p.phases))
		}
		return math.Sqrt(v)
	}
	period := func(p *apat) float64 {
		t := time.Duration(0)
		for _, f := range p.freqs {
			t += f
		}
		return float64(t / time.Duration(len(p.freqs)))
	}
	ratio := func(a, b float64) float64 {
		if math.Abs(a-b) < 1e-12 {
			return 1
		}
		return math.Min(a, b) / math.Max(a, b)
	}
	// similarity as documented: strength, period and agreement of the phases.
	expected := func(a, b *apat) (float64, bool) {
		if max(spread(a), spread(b)) < 1e-6 && a != b { // nothing but rounding
			return 0, false
		}
		s := 0.3*ratio(spread(a), spread(b)) + 0.3*ratio(period(a), period(b))
		if len(a.phases) != len(b.phases) {
			return s, true
		}
		agree, ma, mb := 0.0, 0.0, 0.0
		for i := range a.phases {
			agree += (1 - math.Abs(turn(a.phases[i]-b.phases[i]))/math.Pi) / float64(len(a.phases))
			ma, mb = math.Max(ma, math.Abs(a.phases[i])), math.Max(mb, math.Abs(b.phases[i]))
		}
		return s + 0.4*agree, math.Max(ma, mb) < 99*math.Min(ma, mb)
	}
	// sim asks for the similarity of two patterns and checks it.
	sim := func(a, b *apat) float64 {
		s, r := k.sim(a.v, b.v), k.sim(b.v, a.v)
		if !(s >= 0 && s <= 1+1e-9) || !(r >= 0 && r <= 1+1e-9) {
			w.Fail("similarity-range", "the similarity of %v %v and %v %v is %v (%v the other way)", a.phases, a.freqs, b.phases, b.freqs, s, r)
		}
		if e, ok := expected(a, b); ok && math.Abs(s-e) > 1e-7 {
			w.Fail("similarity", "the similarity of %v %v and %v %v is %v rather than %v", a.phases, a.freqs, b.phases, b.freqs, s, e)
		}
		if !near(s, r) {
			w.Fail("similarity-symmetry", "the similarity of %v %v and %v %v is %v, the other way %v", a.phases, a.freqs, b.phases, b.freqs, s, r)
		}
		if sameSeq(a.phases, b.phases) && fmt.Sprint(a.freqs) == fmt.Sprint(b.freqs) && !near(s, 1) {
			w.Fail("similarity-identity", "the similarity of %v %v to itself is %v", a.phases, a.freqs, s)
		}
		return s
	}
	for t, nt := 0, w.Between(1, 3); t < nt; t++ {
		var plan []*apat
		for i, n := 0, w.Between(1, 3); i < n; i++ {
			if !w.Keep() {
				continue
			}
			p := newPat(pick(w, size, size, w.Between(1, 8)))
			if len(order) > 0 && w.Rng.Bool(0.5) {
				p = lib[pick(w, order...)]
				p = pick(w, p, near1(p))
			}
			plan = append(plan, p)
		}
		w.Go(fmt.Sprintf("client%d", t), func() {
			for _, p := range plan {
				sim(p, p)
				best, who := 0.0, []string{""}
				for _, n := range order {
					s := sim(p, lib[n])
					if s > best+1e-9 {
						best, who = s, []string{n}
					} else if s > best-1e-9 {
						who = append(who, n)
					}
				}
				name, got := k.identify(p.v)
				if !near(got, best) || !contains(who, name) {
					w.Fail("identify", "%v %v was taken for %q (%v), the most similar are %q (%v)", p.phases, p.freqs, name, got, who, best)
				}
				for _, n := range order {
					top := sim(p, lib[n])
					for _, v := range vars[n] {
						top = math.Max(top, sim(p, v))
					}
					if m := k.matches(n, p.v); math.Abs(top-(1-tols[n])) > 1e-9 && m != (top > 1-tols[n]) {
						w.Fail("matches", "%v %v matches %s: %v, with a best similarity of %v and a tolerance of %v", p.phases, p.freqs, n, m, top, tols[n])
					}
				}
				patternGaps(w, k, p)
			}
		})
	}
	w.Wait()
}

func patternGaps(w *W, k patKit, p *apat) {
	var want []agap
	for i := 1; i < len(p.phases); i++ {
		d := math.Abs(turn(p.phases[i] - p.phases[i-1]))
		if math.Abs(d-math.Pi/2) < 1e-9 {
			return
		}
		if d > math.Pi/2 {
			want = append(want, agap{i - 1, i, p.freqs[i-1]})
		}
	}
	got := k.gaps(p.v)
	sort.Slice(got, func(i, j int) bool { return got[i].from < got[j].from })
	if fmt.Sprint(got) != fmt.Sprint(want) {
		w.Fail("gaps", "the gaps of %v %v are %v, found were %v", p.phases, p.freqs, want, got)
	}
	for i := 0; i < 3; i++ {
		f, t := w.Between(-1, len(p.phases)), w.Between(-1, len(p.phases)+1)
		r := k.fill(p.v, f, t)
		if f < 0 || t >= len(p.phases) || f >= t {
			if r != nil {
				w.Fail("fill", "filling %d to %d of %d phases gave %v", f, t, len(p.phases), r)
			}
			continue
		}
		if len(r) != t-f-1 {
			w.Fail("fill", "filling %d to %d gave %d phases", f, t, len(r))
		}
		d := turn(p.phases[t] - p.phases[f])
		for j, v := range r {
			off := d * float64(j+1) / float64(t-f)
			if v < 0 || v >= 2*math.Pi || math.Abs(turn(p.phases[f]+off-v)) > 1e-9 && (math.Abs(d) < math.Pi-1e-9 || math.Abs(turn(p.phases[f]-off-v)) > 1e-9) {
				w.Fail("fill", "filling from %v to %v in %d steps put %v at step %d", p.phases[f], p.phases[t], t-f, v, j+1)
			}
		}
	}
	w.evals++
}
