// Command gosym decides properties of the code in /repo by symbolic execution
// of its SSA form with an SMT solver.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|replay|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "replay":
		os.Exit(replayCmd(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "unknown command")
	os.Exit(2)
}

type knownEntry struct{ id, prop, text string }

// readKnown reads the committed list of findings: "known: id=K property=C what".
func readKnown(file string) map[string]knownEntry {
	r := map[string]knownEntry{}
	b, err := os.ReadFile(file)
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 4 || !strings.HasPrefix(f[1], "id=") || !strings.HasPrefix(f[2], "property=") {
			continue
		}
		e := knownEntry{id: f[1][3:], prop: f[2][9:], text: strings.Join(f[3:], " ")}
		r[e.id] = e
	}
	return r
}

type replayFile struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Package  string   `json:"package"`
	Kind     string   `json:"kind"`
	Label    string   `json:"label"`
	Message  string   `json:"message"`
	Stack    []string `json:"stack,omitempty"`
	Trace    []TraceE `json:"trace"`
	Schedule []int    `json:"schedule,omitempty"`
	Mode     string   `json:"mode"`
	Thorough bool     `json:"thorough"`
	Native   any      `json:"native_result"`
	HowTo    string   `json:"how_to"`
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "verification directory")
	budget := fs.Int("budget", 0, "exploration seconds")
	workers := fs.Int("workers", 8, "workers")
	only := fs.String("only", "", "only harness functions containing this")
	maxPaths := fs.Int("paths", 0, "maximum paths per harness")
	verbose := fs.Bool("v", false, "details on stderr")
	samplesN := fs.Int("samples", 150, "paths replayed natively per harness")
	timeout := fs.Int("timeout", 0, "solver ms per query")
	prof := fs.String("cpuprofile", "", "write a CPU profile")
	fs.Parse(args)
	if *prof != "" {
		f, err := os.Create(*prof)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *tier == "" {
		*tier = "quick"
	}
	thorough := *tier == "thorough"
	if *budget == 0 {
		*budget = 240
		if thorough {
			*budget = 3000
		}
	}
	if *timeout == 0 {
		*timeout = 20000
		if thorough {
			*timeout = 120000
		}
	}
	if thorough {
		*samplesN *= 4
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	debug.SetMemoryLimit(18 << 30)
	runtime.GOMAXPROCS(runtime.NumCPU())
	t0 := time.Now()
	fail := func(err error) int {
		fmt.Fprintf(os.Stderr, "check %s: %v\n", *prop, err)
		return 2
	}
	tmp, err := os.MkdirTemp("", "gosym-")
	if err != nil {
		return fail(err)
	}
	defer os.RemoveAll(tmp)
	hdir := filepath.Join(*verif, "harness")
	pkgs, err := propPackages(hdir, *prop)
	if err != nil || len(pkgs) == 0 {
		return fail(fmt.Errorf("no harness (%v)", err))
	}
	prg, err := load(*repo, hdir, tmp, pkgs)
	if err != nil {
		return fail(err)
	}
	tLoad := time.Since(t0)
	fns := harnessFuncs(prg, pkgs, *prop)
	run := &Run{prg: prg, thorough: thorough, timeout: *timeout, maxPaths: *maxPaths, verbose: *verbose}
	names := map[string][]string{}
	pkgOf := map[string]string{}
	conc := false
	for _, h := range pkgs {
		for _, fn := range fns[h] {
			if *only != "" && !strings.Contains(fn.Name(), *only) {
				continue
			}
			names[h] = append(names[h], fn.Name())
			pkgOf[fn.Name()] = h
			if strings.Contains(fn.Name(), "_Conc") {
				conc = true
			}
			run.hs = append(run.hs, &Harness{harness: fn.Name(), fn: fn, thorough: thorough, known: map[string]*Violation{},
				knownN: map[string]int{}, unsup: map[string]int{}, asserts: map[string]int{}, covers: map[string]int{}, bounds: map[string]int{},
				notes: map[string]bool{}, maxSamples: *samplesN})
		}
	}
	if len(run.hs) == 0 {
		return fail(fmt.Errorf("no harness functions"))
	}
	// native builds run beside the exploration
	natives := map[string]*Native{}
	nerr := map[string]error{}
	var nmu sync.Mutex
	var nwg sync.WaitGroup
	modes := []string{"free"}
	if conc {
		modes = append(modes, "sched", "race")
	}
	for _, m := range modes {
		nwg.Add(1)
		go func() {
			defer nwg.Done()
			d := filepath.Join(tmp, "native-"+m)
			os.MkdirAll(d, 0o755)
			n, err := buildNative(prg, *repo, hdir, d, names, m)
			nmu.Lock()
			natives[m], nerr[m] = n, err
			nmu.Unlock()
		}()
	}
	run.deadline = time.Now().Add(time.Duration(*budget) * time.Second)
	run.explore(*workers)
	tExplore := time.Since(t0) - tLoad
	nwg.Wait()
	if nerr["free"] != nil {
		return fail(nerr["free"])
	}
	defer func() {
		for _, n := range natives {
			if n != nil {
				n.stop()
			}
		}
	}()

	ev := newEvidence(*prop, *tier, seed)
	rep := &replayer{natives: natives, thorough: thorough}
	known := readKnown(filepath.Join(*verif, "known_findings.txt"))
	type found struct {
		h   *Harness
		v   *Violation
		res *replayRes
		md  string
	}
	var confirmed []found
	var unconfirmed []map[string]any
	knownSeen := map[string]bool{}
	var knownLines []string
	rdl := time.Now().Add(150 * time.Second)
	for _, h := range run.hs {
		seen := map[string]bool{}
		for _, v := range h.violations {
			if seen[v.Kind+v.Label+v.Msg] || time.Now().After(rdl) {
				continue
			}
			res, md, ok := rep.confirm(h.harness, v)
			if ok {
				seen[v.Kind+v.Label+v.Msg] = true
				confirmed = append(confirmed, found{h, v, res, md})
			} else {
				unconfirmed = append(unconfirmed, map[string]any{"harness": h.harness, "kind": v.Kind, "label": v.Label, "msg": v.Msg,
					"trace": v.Trace, "native": res, "stack": v.Stack, "schedule": v.Sched})
			}
		}
		for _, id := range sortedKeys(h.known) {
			if knownSeen[id] {
				continue
			}
			v := h.known[id]
			res, md, ok := rep.confirmKnown(h.harness, v, id)
			e, listed := known[id]
			switch {
			case ok && listed && e.prop == *prop:
				knownSeen[id] = true
				knownLines = append(knownLines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", *prop, e.text))
			case ok:
				v.Kind = "assert"
				confirmed = append(confirmed, found{h, v, res, md})
			default:
				unconfirmed = append(unconfirmed, map[string]any{"harness": h.harness, "known": id, "trace": v.Trace, "native": res})
			}
		}
	}
	// replay finished paths on the compiled code
	validated, diverged := 0, 0
	var divs []map[string]any
	for _, h := range run.hs {
		h.samples = append(h.samples, h.extra...)
		for i := range h.samples {
			s := &h.samples[i]
			if time.Now().After(rdl) {
				break
			}
			md := "free"
			if s.Conc {
				md = "sched"
			}
			res := rep.run(md, replayReq{Fn: h.harness, Trace: s.Trace, Thorough: thorough, Sched: s.Schedule, UseSched: s.Conc})
			if res == nil {
				continue
			}
			if res.bad() && len(confirmed) == 0 && !res.Assumed {
				if res.hung || res.crashed != "" { // be sure
					res = rep.run(md, replayReq{Fn: h.harness, Trace: s.Trace, Thorough: thorough, Sched: s.Schedule, UseSched: s.Conc})
				}
				if res != nil && res.bad() {
					v := &Violation{Kind: "native", Label: strings.Join(res.Failed, "; "), Msg: "found while replaying a path on the compiled code: " + res.Panic + res.crashed,
						Trace: s.Trace, Sched: s.Schedule, Func: h.harness}
					confirmed = append(confirmed, found{h, v, res, md})
				}
				continue
			}
			msg := compareObs(s, res)
			if msg == "" {
				validated++
			} else if res.Assumed && s.End != "completed" {
				// the rest of the path is unexplored; inputs beyond it default to zero
			} else if s.EnvND {
				diverged++ // environment values differ; nothing to compare
			} else {
				diverged++
				if len(divs) < 10 {
					divs = append(divs, map[string]any{"harness": h.harness, "why": msg, "trace": s.Trace})
				}
				if *verbose {
					fmt.Fprintln(os.Stderr, "DIVERGENCE", h.harness, msg, s.Trace)
				}
			}
		}
	}
	if rn := natives["race"]; rn != nil {
		for _, h := range run.hs {
			for i := range h.samples {
				if i >= 12 || time.Now().After(rdl) {
					break
				}
				s := &h.samples[i]
				res := rep.run("race", replayReq{Fn: h.harness, Trace: s.Trace, Thorough: thorough})
				if res != nil && res.race && len(confirmed) == 0 {
					confirmed = append(confirmed, found{h, &Violation{Kind: "race", Label: "data race", Msg: "race detector", Trace: s.Trace, Func: h.harness}, res, "race"})
				}
			}
		}
	}

	ev.fill(run, validated, diverged, divs, unconfirmed, rep, tLoad, tExplore)
	code := 0
	if len(confirmed) > 0 {
		os.MkdirAll(filepath.Join(*verif, "replays"), 0o755)
		for i, f := range confirmed {
			path := filepath.Join(*verif, "replays", fmt.Sprintf("%s-%d.json", *prop, i+1))
			rf := replayFile{Property: *prop, Harness: f.h.harness, Package: pkgOf[f.h.harness], Kind: f.v.Kind, Label: f.v.Label, Message: f.v.Msg,
				Stack: f.v.Stack, Trace: f.v.Trace, Schedule: f.v.Sched, Mode: f.md, Thorough: thorough, Native: f.res,
				HowTo: "bin/gosym replay " + path}
			b, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(path, b, 0o644)
			if i < 5 {
				fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
				fmt.Fprintf(os.Stderr, "  %s: %s %s: %s\n", f.h.harness, f.v.Kind, f.v.Label, f.v.Msg)
				for _, s := range f.v.Stack {
					fmt.Fprintln(os.Stderr, "     ", s)
				}
				if *verbose {
					fmt.Fprintln(os.Stderr, "     ", f.v.Trace, f.res)
				}
			}
		}
		code = 1
	}
	for _, l := range knownLines {
		fmt.Println(l)
	}
	ev.Violations = len(confirmed)
	ev.Wall = time.Since(t0).Seconds()
	if err := ev.write(filepath.Join(*verif, "evidence", *prop+".json")); err != nil {
		return fail(err)
	}
	st := ev.total
	fmt.Printf("%s %s: %d paths (%d completed, %d infeasible, %d unsupported, %d bounded, %d out of time), %d assertion queries, %d solver queries (%.1fs), %d replayed natively, %.1fs\n",
		*prop, *tier, st.Paths, st.Completed, st.Infeasible, st.Unsupported, st.Steps, st.Budget+st.Unknown, st.AssertQueries, st.Queries, st.SolverTime.Seconds(), validated, ev.Wall)
	if *verbose {
		for _, h := range run.hs {
			fmt.Fprintf(os.Stderr, "  %s: paths %d completed %d infeasible %d unsup %d viol %d left %d used %.1fs queries %d st %.1fs asserts %v\n", h.harness, h.stats.Paths, h.stats.Completed, h.stats.Infeasible, h.stats.Unsupported, h.stats.Violating, len(h.work), h.used.Seconds(), h.stats.Queries, h.stats.SolverTime.Seconds(), h.asserts)
			for _, m := range sortedKeys(h.unsup) {
				fmt.Fprintf(os.Stderr, "      unsupported x%d: %s\n", h.unsup[m], m)
			}
		}
		for _, u := range unconfirmed {
			b, _ := json.Marshal(u)
			fmt.Fprintln(os.Stderr, "  UNCONFIRMED", string(b))
		}
		for _, e := range run.errs {
			fmt.Fprintln(os.Stderr, "  solver error:", e)
		}
	}
	return code
}

func compareObs(s *pathSample, r *replayRes) string {
	if r.Diverged != "" {
		return r.Diverged
	}
	if r.Assumed {
		return "an assumption failed natively"
	}
	if s.End != "completed" {
		return ""
	}
	if len(s.Obs) != len(r.Obs) {
		return fmt.Sprintf("%d observations instead of %d", len(r.Obs), len(s.Obs))
	}
	for i := range s.Obs {
		if s.Obs[i].L != r.Obs[i].L || !matchRender(s.Obs[i].V, r.Obs[i].V) {
			return fmt.Sprintf("observation %s: engine %s, native %s", s.Obs[i].L, s.Obs[i].V, r.Obs[i].V)
		}
	}
	return ""
}

type replayer struct {
	natives  map[string]*Native
	thorough bool
	runs     int
}

func (r *replayer) run(mode string, q replayReq) *replayRes {
	n := r.natives[mode]
	if n == nil {
		return nil
	}
	r.runs++
	return n.run(q)
}

// confirm replays a counterexample on the compiled code.
func (r *replayer) confirm(fn string, v *Violation) (*replayRes, string, bool) {
	q := replayReq{Fn: fn, Trace: v.Trace, Thorough: r.thorough, Sched: v.Sched, UseSched: len(v.Sched) > 0}
	match := func(res *replayRes) bool {
		if res == nil || res.Assumed && !res.bad() {
			return false
		}
		return res.bad()
	}
	var last *replayRes
	if v.Kind == "possible" || v.Kind == "varies" {
		// the real code with real random values: never, in many runs
		q.Trace = nil
		for _, e := range v.Trace {
			if e.K != "rnd" && e.K != "rndb" {
				q.Trace = append(q.Trace, e)
			}
		}
		reached := 0
		one := ""
		for i := 0; i < 4 && v.Kind == "varies"; i++ {
			r.natives["free"].stop() // in a new process
			res := r.run("free", q)
			if res == nil || res.Varies[v.Label] == "" || one != "" && res.Varies[v.Label] != one {
				return res, "free", false
			}
			one = res.Varies[v.Label]
			last = res
		}
		if v.Kind == "varies" {
			return last, "free", true
		}
		for i := 0; i < 30; i++ {
			res := r.run("free", q)
			if res == nil {
				break
			}
			last = res
			if b, ok := res.Possible[v.Label]; ok {
				reached++
				if b {
					return res, "free", false
				}
			}
		}
		return last, "free", reached >= 20
	}
	if v.Kind == "race" {
		for i := 0; i < 60; i++ {
			res := r.run("race", q)
			if res == nil {
				break
			}
			last = res
			if res.race || res.crashed != "" {
				return res, "race", true
			}
		}
		return last, "race", false
	}
	if len(v.Sched) > 0 {
		res := r.run("sched", q)
		if match(res) {
			return res, "sched", true
		}
		last = res
		for i := 0; i < 200; i++ {
			res := r.run("free", q)
			if match(res) {
				return res, "free", true
			}
		}
		return last, "sched", false
	}
	n := 1
	if v.EnvND {
		n = 25
	}
	for i := 0; i < n; i++ {
		res := r.run("free", q)
		last = res
		if match(res) {
			return res, "free", true
		}
	}
	return last, "free", false
}

func (r *replayer) confirmKnown(fn string, v *Violation, id string) (*replayRes, string, bool) {
	q := replayReq{Fn: fn, Trace: v.Trace, Thorough: r.thorough, Sched: v.Sched, UseSched: len(v.Sched) > 0}
	md := "free"
	if len(v.Sched) > 0 {
		md = "sched"
	}
	var res *replayRes
	for i := 0; i < 10; i++ {
		res = r.run(md, q)
		if res == nil {
			return nil, md, false
		}
		for _, k := range res.Known {
			if k == id {
				return res, md, true
			}
		}
	}
	return res, md, false
}

func replayCmd(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "verification directory")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tmp, _ := os.MkdirTemp("", "gosym-")
	defer os.RemoveAll(tmp)
	hdir := filepath.Join(*verif, "harness")
	prg, err := load(*repo, hdir, tmp, []string{rf.Package})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	n, err := buildNative(prg, *repo, hdir, tmp, map[string][]string{rf.Package: {rf.Harness}}, rf.Mode)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer n.stop()
	tries := 1
	if rf.Mode == "race" {
		tries = 60
	}
	for i := 0; i < tries; i++ {
		res := n.run(replayReq{Fn: rf.Harness, Trace: rf.Trace, Thorough: rf.Thorough, Sched: rf.Schedule, UseSched: len(rf.Schedule) > 0})
		if res.bad() || i == tries-1 {
			o, _ := json.MarshalIndent(res, "", " ")
			fmt.Println(string(o))
			if res.hung {
				fmt.Println("hung")
			}
			if res.crashed != "" {
				fmt.Println("crashed:", res.crashed)
			}
			if res.race {
				fmt.Println("data race:", tail(n.errBuf.String(), 3000))
			}
			if res.bad() {
				return 1
			}
		}
	}
	return 0
}

// ---- evidence ----

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	Wall        float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
	total       Stats
}

func newEvidence(prop, tier string, seed int) *evidence {
	return &evidence{Property: prop, Tier: tier, Seed: seed, Level: "model_checking", Coverage: map[string]any{}}
}

func (e *evidence) fill(r *Run, validated, diverged int, divs, unconf []map[string]any, rep *replayer, tLoad, tExp time.Duration) {
	c := e.Coverage
	var hs []map[string]any
	notes := map[string]bool{}
	bounds := map[string]int{}
	exhaustive := true
	var samples []any
	for _, h := range r.hs {
		e.total.add(&h.stats)
		unsup := map[string]int{}
		for k, n := range h.unsup {
			if i := strings.Index(k, "\n"); i > 0 {
				k = k[:i]
			}
			unsup[k] += n
		}
		hs = append(hs, map[string]any{
			"harness": h.harness, "paths": h.stats.Paths, "completed": h.stats.Completed, "infeasible": h.stats.Infeasible,
			"unsupported": unsup, "violating_paths": h.stats.Violating, "complete_within_bounds": h.complete && h.stats.Unsupported == 0 && h.stats.Unknown == 0 && h.stats.SolverUnknown == 0,
			"unexplored_prefixes": len(h.work), "assertions_reached": h.asserts, "cover_points": h.covers, "bounds": h.bounds,
			"known_finding_paths": h.knownN, "cpu_s": round(h.used.Seconds())})
		if !h.complete || h.stats.Unsupported > 0 || h.stats.Unknown > 0 || h.stats.SolverUnknown > 0 {
			exhaustive = false
		}
		for n := range h.notes {
			notes[n] = true
		}
		for k, v := range h.bounds {
			bounds[k] = v
		}
		for i, s := range h.samples {
			if i < 2 && len(samples) < 12 {
				samples = append(samples, map[string]any{"harness": h.harness, "inputs": s.Trace, "observed": s.Obs, "end": s.End})
			}
		}
	}
	if samples == nil {
		samples = []any{}
	}
	st := e.total
	c["harnesses"] = hs
	c["states"] = st.Paths + st.Forks
	c["states_are"] = "symbolic execution states: finished paths plus branching points where the solver found more than one feasible side"
	c["transitions"] = st.Transitions
	c["transitions_are"] = "SSA instructions executed symbolically"
	c["traces_validated_against_impl"] = validated
	c["traces_not_comparable"] = diverged
	c["native_replays"] = rep.runs
	c["samples"] = samples
	c["exhaustive"] = exhaustive
	c["bounds"] = bounds
	c["assertion_queries"] = st.AssertQueries
	c["solver_answers_reused"] = st.CacheHits
	c["assertions_discharged_by_solver"] = st.AssertProved
	c["assertions_true_by_construction"] = st.AssertTrivial
	c["solver"] = map[string]any{"name": "z3", "queries": st.Queries, "sat": st.Sat, "unsat": st.Unsat, "unknown": st.SolverUnknown, "time_s": round(st.SolverTime.Seconds()), "errors": r.errs}
	c["max_path_condition"] = st.MaxPC
	c["load_s"] = round(tLoad.Seconds())
	c["explore_s"] = round(tExp.Seconds())
	var fns []string
	tot, cov := 0, 0
	for f, b := range r.cov {
		n := 0
		for _, x := range b {
			if x {
				n++
			}
		}
		tot += len(b)
		cov += n
		name := strings.ReplaceAll(f.fn.String(), repoMod, "wampproto")
		if os.Getenv("GOSYM_UNCOVERED") != "" {
			for i, x := range b {
				if !x {
					blk := f.fn.Blocks[i]
					pos := token.NoPos
					for _, in := range blk.Instrs {
						if in.Pos() != token.NoPos {
							pos = in.Pos()
							break
						}
					}
					fmt.Fprintf(os.Stderr, "uncovered: %s block %d %s %s\n", name, i, blk.Comment, f.fn.Prog.Fset.Position(pos))
				}
			}
		}
		fns = append(fns, fmt.Sprintf("%s %d/%d", name, n, len(b)))
	}
	sort.Strings(fns)
	c["functions_encoded"] = fns
	c["blocks_covered"] = cov
	c["blocks_in_those_functions"] = tot
	if len(divs) > 0 {
		c["divergences"] = divs
	}
	if len(unconf) > 0 {
		c["counterexamples_not_reproduced_natively"] = unconf
	}
	e.Assumptions = append([]string{
		"the Go compiler, the SSA construction (x/tools/go/ssa), the engine and z3 are trusted; solver models are replayed on compiled code",
		"map iteration follows insertion order unless the harness asks for other orders",
	}, sortedKeys(notes)...)
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func (e *evidence) write(path string) error {
	os.MkdirAll(filepath.Dir(path), 0o755)
	b, err := json.MarshalIndent(e, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}
