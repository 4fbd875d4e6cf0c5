package main

// Exploration driver: workers run paths of harness functions from decision
// prefixes until the worklist is empty or the time budget is used up.

import (
	"fmt"
	"math"
	"os"
	"sort"
	"strconv"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Stats struct {
	Paths, Completed, Infeasible, Unsupported, Steps, Budget, Unknown, Violating int
	AssertTrivial, AssertQueries, AssertProved                                   int
	Forks                                                                        int
	Transitions                                                                  int64
	Queries, CacheHits, Sat, Unsat, SolverUnknown                                int
	SolverTime                                                                   time.Duration
	MaxPC                                                                        int
}

func (s *Stats) add(o *Stats) {
	s.Paths += o.Paths
	s.Completed += o.Completed
	s.Infeasible += o.Infeasible
	s.Unsupported += o.Unsupported
	s.Steps += o.Steps
	s.Budget += o.Budget
	s.Unknown += o.Unknown
	s.Violating += o.Violating
	s.AssertTrivial += o.AssertTrivial
	s.AssertQueries += o.AssertQueries
	s.AssertProved += o.AssertProved
	s.Forks += o.Forks
	s.Transitions += o.Transitions
	s.Queries += o.Queries
	s.CacheHits += o.CacheHits
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.SolverUnknown += o.SolverUnknown
	s.SolverTime += o.SolverTime
	s.MaxPC = max(s.MaxPC, o.MaxPC)
}

// pathSample is a finished path with one concrete instance of it.
type pathSample struct {
	Trace    []TraceE `json:"trace"`
	Obs      []obsTxt `json:"observed,omitempty"`
	EnvND    bool     `json:"env_nondet,omitempty"`
	End      string   `json:"end"`
	Conc     bool     `json:"-"`
	Schedule []int    `json:"schedule,omitempty"`
}

type obsTxt struct {
	L string `json:"l"`
	V string `json:"v"`
}

// Harness is one harness function under exploration.
type Harness struct {
	harness  string
	fn       *ssa.Function
	thorough bool

	mu         sync.Mutex
	work       [][]int
	active     int
	used       time.Duration
	stats      Stats
	violations []*Violation
	known      map[string]*Violation
	knownN     map[string]int
	unsup      map[string]int
	asserts    map[string]int
	covers     map[string]int
	possible   map[string]*possibility
	bounds     map[string]int
	notes      map[string]bool
	samples    []pathSample
	extra      []pathSample // more instances of paths that could not be followed to their end
	sampleN    int
	done       bool
	complete   bool
	stopped    bool
	maxSamples int
}

type Run struct {
	prg      *Program
	hs       []*Harness
	mu       sync.Mutex
	cond     *sync.Cond
	deadline time.Time
	thorough bool
	timeout  int
	covMu    sync.Mutex
	cov      map[*fnInfo][]bool
	errs     []string
	maxPaths int
	verbose  bool
}

type Worker struct {
	run        *Run
	ex         *Harness
	qcache     map[string]queryResult
	ctx        *Ctx
	solver     *Solver
	cov        map[*fnInfo][]bool
	threadExit chan struct{}
	npaths     int
	st         Stats
}

// possibility is a condition that some run must make true.
type possibility struct {
	done, unknown bool
	asked         int
	v             *Violation // a path that reached it
	one           string     // the only value so far (Varies)
}

// varies looks for two values of x.
func (p *Path) varies(x Value, label string) {
	t := p.bv(x, 64)
	if !t.isConst() {
		// some other value than that of the current model
		if !p.ensureModel() {
			return
		}
		p.c.evGen++
		p.possible(p.val(p.c.Not(p.c.Eq(t, p.c.BV(p.evalRaw(t), int(t.sort.W))))), label)
		return
	}
	p.possible(false, label)
	h := p.w.ex
	h.mu.Lock()
	defer h.mu.Unlock()
	q := h.possible[label]
	s := strconv.FormatUint(t.val, 10)
	if q.one != "" && q.one != s {
		q.done = true
	}
	q.one = s
	if q.v != nil {
		q.v.Kind = "varies"
		q.v.Msg = "every run gives " + s
	}
}

// possible looks for a run through this point that makes cond true.
func (p *Path) possible(cond Value, label string) {
	h := p.w.ex
	h.mu.Lock()
	if h.possible == nil {
		h.possible = map[string]*possibility{}
	}
	q := h.possible[label]
	if q == nil {
		q = &possibility{}
		h.possible[label] = q
	}
	done := q.done
	q.asked++
	h.mu.Unlock()
	if done {
		return
	}
	t := p.term(cond)
	r := "unsat"
	if t.isConst() {
		if t.val == 1 {
			r = "sat"
		}
	} else if p.modelOK && p.evalBool(t) {
		r = "sat"
	} else {
		p.w.stat(func(s *Stats) { s.AssertQueries++ })
		r = p.query(t, false)
	}
	var v *Violation
	if r == "unsat" && p.ensureModel() {
		v = p.mkViolation("possible", label, "no run makes this true")
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	switch r {
	case "sat":
		q.done = true
	case "unknown":
		q.unknown = true
	default:
		if q.v == nil {
			q.v = v
		}
	}
}

func (w *Worker) timeUp() bool { return time.Now().After(w.run.deadline) }

func (w *Worker) noteUnknown() { w.st.SolverUnknown++ }

func (w *Worker) stat(f func(*Stats)) { f(&w.st) }

func (w *Worker) fork(dec []int, i int) {
	n := make([]int, len(dec)+1)
	copy(n, dec)
	n[len(dec)] = i
	h := w.ex
	w.st.Forks++
	h.mu.Lock()
	h.work = append(h.work, n)
	h.mu.Unlock()
	w.run.cond.Signal()
}

func (w *Worker) addViolation(v *Violation) {
	h := w.ex
	h.mu.Lock()
	defer h.mu.Unlock()
	n, m := 0, 0
	for _, o := range h.violations {
		if o.Label == v.Label && o.Kind == v.Kind {
			n++
		}
		m++
	}
	if n < 6 {
		h.violations = append(h.violations, v)
	}
	if m >= 24 {
		h.stopped = true
	}
}

func (w *Worker) addKnown(id string, v *Violation) {
	h := w.ex
	h.mu.Lock()
	defer h.mu.Unlock()
	h.knownN[id]++
	if h.known[id] == nil {
		h.known[id] = v
	}
}

func (w *Worker) cover(fi *fnInfo) {
	if _, ok := w.cov[fi]; !ok {
		w.cov[fi] = make([]bool, len(fi.blocks))
	}
}

func (w *Worker) coverBlock(fi *fnInfo, b int) {
	c, ok := w.cov[fi]
	if !ok {
		c = make([]bool, len(fi.blocks))
		w.cov[fi] = c
	}
	c[b] = true
}

func (w *Worker) restartSolver() {
	if w.solver != nil {
		w.flushSolverStats()
		w.solver.close()
	}
	s, err := newSolver(w.run.timeout, "z3", "-in", "-smt2")
	if err != nil {
		panic(err)
	}
	w.solver = s
	w.ctx = newCtx()
	w.qcache = map[string]queryResult{}
	w.npaths = 0
}

func (w *Worker) flushSolverStats() {
	s := w.solver
	w.st.Queries += s.Queries
	w.st.Sat += s.Sat
	w.st.Unsat += s.Unsat
	w.st.SolverUnknown += s.Unknown
	w.st.SolverTime += s.Time
	s.Queries, s.Sat, s.Unsat, s.Unknown, s.Time = 0, 0, 0, 0, 0
	if len(s.Errors) > 0 {
		w.run.covMu.Lock()
		if len(w.run.errs) < 20 {
			w.run.errs = append(w.run.errs, s.Errors...)
		}
		w.run.covMu.Unlock()
		s.Errors = nil
	}
}

func newPath(w *Worker, prefix []int) *Path {
	p := &Path{w: w, c: w.ctx, prg: w.run.prg, prefix: prefix,
		facts: map[*Term]bool{}, joined: map[int32]int32{}, model: map[string]uint64{}, modelOK: true,
		globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{},
		side: map[any]any{}, ufs: map[string][]ufEntry{}, notes: map[string]bool{},
		asserts: map[string]int{}, covers: map[string]int{}, bounds: map[string]int{},
		maxSteps: 3_000_000}
	t := p.newThread()
	p.cur = t
	return p
}

func (w *Worker) runPath(prefix []int) {
	if w.solver == nil || w.solver.dead || w.npaths > 1500 || len(w.ctx.tab) > 1_500_000 {
		w.restartSolver()
	}
	w.npaths++
	w.solver.write("(push)\n")
	solver := w.solver
	p := newPath(w, prefix)
	h := w.ex
	end := func() (e pathEnd) {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case pathEnd:
					e = r
				case goPanic:
					t := p.threads[0]
					t.panicV = &r
					func() {
						defer func() {
							if r := recover(); r != nil {
								if pe, ok := r.(pathEnd); ok {
									e = pe
								} else {
									e = pathEnd{endUnsupported, fmt.Sprint("engine: ", r, p.whereNow(), "\n", stackTrace())}
								}
							}
						}()
						e = *p.uncaught(t)
					}()
				default:
					e = pathEnd{endUnsupported, fmt.Sprint("engine: ", r, p.whereNow(), "\n", stackTrace())}
				}
			}
		}()
		p.call(p.threads[0], nil, h.fn, nil, nil)
		return pathEnd{endOK, ""}
	}()
	p.killThreads()

	// one concrete instance of the path, for native replay
	var sample *pathSample
	h.mu.Lock()
	h.sampleN++
	want := (end.kind == endOK || end.kind == endUnsupported) && len(h.samples) < h.maxSamples
	h.mu.Unlock()
	if want && w.solver == solver {
		func() {
			defer func() { recover() }()
			if p.ensureModel() {
				sample = &pathSample{Trace: p.trace(), EnvND: p.envND, End: endNames[end.kind], Conc: p.conc, Schedule: p.schedule}
				for _, o := range p.observes {
					sample.Obs = append(sample.Obs, obsTxt{o.label, p.render(o.v, 0)})
				}
			}
		}()
	}
	// a path that cannot be followed any further: more instances of it
	var more []pathSample
	h.mu.Lock()
	want = end.kind == endUnsupported && len(h.extra) < 64
	h.mu.Unlock()
	if want && sample != nil && w.solver == solver {
		func() {
			defer func() { recover() }()
			more = p.vary(8)
		}()
	}
	if w.solver == solver && !w.solver.dead {
		w.solver.write("(pop)\n")
	}
	w.st.Paths++
	w.st.Transitions += int64(p.steps)
	w.st.MaxPC = max(w.st.MaxPC, len(p.pc))
	h.mu.Lock()
	switch end.kind {
	case endOK:
		w.st.Completed++
		if end.kind == endOK {
			for k, n := range p.covers {
				h.covers[k] += n
			}
		}
	case endAssume:
		w.st.Infeasible++
	case endUnsupported:
		w.st.Unsupported++
		m := end.msg
		if len(m) > 1200 {
			m = m[:1200]
		}
		h.unsup[m]++
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "unsupported:", m, p.stackSafe())
		}
	case endSteps:
		w.st.Steps++
		h.unsup["bound: "+end.msg]++
	case endBudget:
		w.st.Budget++
	case endUnknown:
		w.st.Unknown++
	case endViolation:
		w.st.Violating++
	}
	for k, n := range p.asserts {
		h.asserts[k] += n
	}
	for k, n := range p.bounds {
		h.bounds[k] = n
	}
	for k := range p.notes {
		h.notes[k] = true
	}
	if sample != nil && len(h.samples) < h.maxSamples {
		h.samples = append(h.samples, *sample)
	}
	h.extra = append(h.extra, more...)
	h.mu.Unlock()
}

func (p *Path) stackSafe() (r []string) {
	defer func() { recover() }()
	return p.stack()
}

// next picks the harness with work that has used the least time so far.
func (r *Run) next() (*Harness, []int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if time.Now().After(r.deadline) {
			r.cond.Broadcast()
			return nil, nil
		}
		var best *Harness
		anyActive := false
		for _, h := range r.hs {
			h.mu.Lock()
			if h.active > 0 {
				anyActive = true
			}
			if len(h.work) > 0 && !h.stopped && (best == nil || h.used < best.used) {
				best = h
			}
			h.mu.Unlock()
		}
		if best != nil {
			best.mu.Lock()
			n := len(best.work) - 1
			if n < 0 {
				best.mu.Unlock()
				continue
			}
			// mostly depth first; sometimes from the bottom for diversity
			k := n
			if best.stats.Paths%4 == 3 {
				k = 0
			}
			pre := best.work[k]
			best.work = append(best.work[:k], best.work[k+1:]...)
			best.active++
			best.mu.Unlock()
			return best, pre
		}
		if !anyActive {
			r.cond.Broadcast()
			return nil, nil
		}
		// wake up on forks, path ends or the deadline
		t := time.AfterFunc(50*time.Millisecond, r.cond.Broadcast)
		r.cond.Wait()
		t.Stop()
	}
}

func (r *Run) explore(nw int) {
	r.cond = sync.NewCond(&r.mu)
	r.cov = map[*fnInfo][]bool{}
	for _, h := range r.hs {
		h.work = [][]int{nil}
	}
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &Worker{run: r, cov: map[*fnInfo][]bool{}, threadExit: make(chan struct{}, 64)}
			for {
				h, pre := r.next()
				if h == nil {
					break
				}
				w.ex = h
				t0 := time.Now()
				w.st = Stats{}
				w.runPath(pre)
				w.flushSolverStats()
				h.mu.Lock()
				h.used += time.Since(t0)
				h.active--
				h.stats.add(&w.st)
				if r.maxPaths > 0 && h.stats.Paths > r.maxPaths {
					h.stopped = true
				}
				h.mu.Unlock()
				r.cond.Broadcast()
			}
			if w.solver != nil {
				w.solver.close()
			}
			r.covMu.Lock()
			for f, c := range w.cov {
				o := r.cov[f]
				if o == nil {
					r.cov[f] = c
					continue
				}
				for i := range c {
					o[i] = o[i] || c[i]
				}
			}
			r.covMu.Unlock()
		}()
	}
	wg.Wait()
	for _, h := range r.hs {
		h.complete = len(h.work) == 0 && h.stats.Budget == 0 && !h.stopped
		if h.complete && h.stats.Unsupported+h.stats.Steps+h.stats.Unknown == 0 {
			for _, l := range sortedKeys(h.possible) {
				if q := h.possible[l]; !q.done && !q.unknown && q.v != nil {
					h.violations = append(h.violations, q.v)
				}
			}
		}
		sort.SliceStable(h.violations, func(i, j int) bool { return len(h.violations[i].Trace) < len(h.violations[j].Trace) })
	}
}

// whereNow is the chain of functions being interpreted.
func (p *Path) whereNow() string {
	r := ""
	if len(p.threads) > 0 {
		for fr := p.threads[0].top; fr != nil && len(r) < 400; fr = fr.caller {
			r += " < " + fr.fi.name
			if fr.ip < len(fr.fi.blocks[fr.block].ins) {
				r += fmt.Sprintf(" [%v]", fr.fi.blocks[fr.block].ins[fr.ip].in)
			}
		}
	}
	return r
}

// vary solves for n different instances of the path: each gives the inputs, in
// turn, values off the solver's usual ones as far as the path allows.
func (p *Path) vary(n int) (r []pathSample) {
	rng := uint64(88172645463325252)
	next := func() uint64 {
		rng ^= rng << 13
		rng ^= rng >> 7
		rng ^= rng << 17
		return rng
	}
	floats := []float64{-1.5, 2.5, 1e300, -0.75, math.Inf(1), 3, math.NaN(), 1e17}
	for k := 0; k < n; k++ {
		mark := len(p.pc)
		left := 24
		try := func(t *Term, v uint64) {
			if t == nil || t.isConst() || left == 0 {
				return
			}
			left--
			cond := p.c.Eq(t, p.c.BV(v&mask(int(t.sort.W)), int(t.sort.W)))
			if p.query(cond, false) == "sat" {
				p.addPC(cond)
			}
		}
		for _, in := range p.inputs {
			switch in.Kind {
			case "u64":
				try(in.T, []uint64{next(), next() >> 32, next() >> 60, -next() >> 50, next() | 1<<63}[next()%5])
			case "f64":
				try(in.T, math.Float64bits(floats[next()%uint64(len(floats))]))
			case "f32":
				try(in.T, uint64(math.Float32bits(float32(floats[next()%uint64(len(floats))]))))
			case "bool":
				if in.T.sort.K == SBV {
					try(in.T, next()&1)
				} else if left > 0 && !in.T.isConst() {
					left--
					cond := in.T
					if next()&1 == 0 {
						cond = p.c.Not(cond)
					}
					if p.query(cond, false) == "sat" {
						p.addPC(cond)
					}
				}
			case "sel":
				try(in.T, next()%8)
			case "str":
				for _, b := range in.B {
					if t, ok := b.(*Term); ok {
						try(t, 'a'+next()%26)
					}
				}
			}
		}
		p.modelOK = false
		if p.ensureModel() {
			r = append(r, pathSample{Trace: p.trace(), EnvND: true, End: "unsupported", Conc: p.conc, Schedule: p.schedule})
		}
		if p.pushed > mark { // the solver has them already
			return r
		}
		p.pc = p.pc[:mark]
		p.facts = map[*Term]bool{}
		for _, t := range p.pc {
			p.addFact(t, true)
		}
		p.modelOK = false
	}
	return r
}
