package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Input is one recorded harness input, in creation order.
type Input struct {
	Kind string // u64 bool f64 f32 str choice
	Name string
	W    int
	T    *Term
	B    []Value // str bytes
	C    int     // concrete choice
}

type obs struct {
	label string
	v     Value // Iface
}

type assertRec struct {
	label string
}

// Path is one symbolic execution path.
type Path struct {
	w   *Worker
	c   *Ctx
	prg *Program

	prefix []int
	dec    []int

	pc      []*Term
	joined  map[int32]int32
	pushed  int // constraints already given to the solver
	facts   map[*Term]bool
	varsMap map[*Term]bool
	vars    []*Term
	model   map[string]uint64
	modelOK bool

	inputs   []Input
	observes []obs
	steps    int
	maxSteps int
	nvar     int

	globals  map[*ssa.Global]*Value
	inited   map[*ssa.Package]bool
	initMode int
	side     map[any]any
	ufs      map[string][]ufEntry
	rands    [][]Value

	threads  []*Thread
	cur      *Thread
	conc     bool
	envND    bool // environment nondeterminism was used (native replay may differ)
	opaque   bool
	mapOrder int
	notes    map[string]bool
	schedule []int
	race     *raceState
	done     chan struct{}
	end      *pathEnd

	violation *Violation
	known     map[string]*Violation
	asserts   map[string]int
	covers    map[string]int
	depth     int
	bounds    map[string]int
	heldLocks int
}

type ufEntry struct {
	in  []([]Value)
	out []Value
}

func (p *Path) term(v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case bool:
		return p.c.Bool(v)
	case float64:
		return p.c.F64(v)
	case float32:
		return p.c.F32(v)
	}
	panic(unsupported(fmt.Sprintf("symbolic term of %T", v)))
}

func (p *Path) bv(v Value, w int) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case uint64:
		return p.c.BV(v, w)
	case *blobByte:
		panic(unsupported("arithmetic on encoded (opaque) bytes"))
	}
	panic(unsupported(fmt.Sprintf("bit-vector of %T", v)))
}

func (p *Path) val(t *Term) Value {
	if !t.isConst() {
		return t
	}
	switch t.sort.K {
	case SBool:
		return t.val == 1
	case SBV:
		return t.val
	case SF32:
		return math.Float32frombits(uint32(t.val))
	}
	return math.Float64frombits(t.val)
}

func (p *Path) freshVar(s Sort) *Term {
	k := "b"
	switch s.K {
	case SBV:
		k = "v" + strconv.Itoa(int(s.W))
	}
	t := p.c.Var(fmt.Sprintf("%s_%d", k, p.nvar), s)
	p.nvar++
	p.vars = append(p.vars, t)
	if p.modelOK {
		p.model[t.name] = 0
	}
	return t
}

// ---- constraints ----

func (p *Path) addPC(t *Term) {
	if t == p.c.True {
		return
	}
	if v, ok := p.facts[t]; ok && v {
		return
	}
	p.pc = append(p.pc, t)
	p.ufJoin(t)
	p.addFact(t, true)
	if p.modelOK && !p.evalBool(t) {
		p.modelOK = false
	}
}

func (p *Path) addFact(t *Term, v bool) {
	if _, ok := p.facts[t]; ok {
		return
	}
	p.facts[t] = v
	switch {
	case t.op == ONot:
		p.addFact(t.args[0], !v)
	case t.op == OAnd && v, t.op == OOr && !v:
		p.addFact(t.args[0], v)
		p.addFact(t.args[1], v)
	case t.op == OEq && v && t.args[1].isConst() && t.args[0].sort.K == SBV:
		// remember the value
	}
}

// known reports the truth of t if it follows syntactically from the path.
func (p *Path) knownTruth(t *Term) (bool, bool) {
	if t.isConst() {
		return t.val == 1, true
	}
	if v, ok := p.facts[t]; ok {
		return v, true
	}
	switch t.op {
	case ONot:
		v, ok := p.knownTruth(t.args[0])
		return !v, ok
	case OAnd:
		a, ok1 := p.knownTruth(t.args[0])
		if ok1 && !a {
			return false, true
		}
		b, ok2 := p.knownTruth(t.args[1])
		if ok2 && !b {
			return false, true
		}
		return true, ok1 && ok2
	case OOr:
		a, ok1 := p.knownTruth(t.args[0])
		if ok1 && a {
			return true, true
		}
		b, ok2 := p.knownTruth(t.args[1])
		if ok2 && b {
			return true, true
		}
		return false, ok1 && ok2
	}
	return false, false
}

func (p *Path) evalRaw(t *Term) uint64 {
	return p.c.eval(t, func(v *Term) uint64 { return p.model[v.name] })
}

func (p *Path) evalBool(t *Term) bool {
	p.c.evGen++ // the model may have changed since the last evaluation
	return p.evalRaw(t) == 1
}

func (p *Path) flushPC() {
	s := p.w.solver
	for ; p.pushed < len(p.pc); p.pushed++ {
		s.assert(p.pc[p.pushed])
	}
}

// A queryResult is what the solver said about a set of constraints that share
// no variable with any other constraint of the path.
type queryResult struct {
	res   string
	model map[string]uint64
}

// slice is the constraints of the path that t depends on through shared
// variables (all constraints of the component with variable root if t is nil).
func (p *Path) slice(t *Term) []*Term {
	roots := map[int32]bool{}
	for _, v := range t.vars() {
		roots[p.ufFind(v)] = true
	}
	var r []*Term
	for i, x := range p.pc {
		if vs := x.vars(); len(vs) > 0 && roots[p.ufFind(vs[0])] {
			r = append(r, p.pc[i])
		}
	}
	return r
}

func (p *Path) ufFind(v int32) int32 {
	for {
		q, ok := p.joined[v]
		if !ok || q == v {
			return v
		}
		if g, ok := p.joined[q]; ok && g != q {
			p.joined[v] = g
		}
		v = q
	}
}

func (p *Path) ufJoin(t *Term) {
	vs := t.vars()
	if len(vs) == 0 {
		return
	}
	a := p.ufFind(vs[0])
	for _, v := range vs[1:] {
		b := p.ufFind(v)
		if a != b {
			p.joined[b] = a
		}
	}
}

// solve decides the conjunction of ts (a closed slice of the path), from the
// cache when the same constraints were decided before by this worker.
func (p *Path) solve(ts []*Term, keep bool) queryResult {
	ids := make([]int, 0, len(ts))
	for _, t := range ts {
		ids = append(ids, t.id)
	}
	sort.Ints(ids)
	kb := make([]byte, 0, 4*len(ids))
	last := -1
	for _, id := range ids {
		if id != last {
			kb = binary.LittleEndian.AppendUint32(kb, uint32(id))
		}
		last = id
	}
	key := string(kb)
	if q, ok := p.w.qcache[key]; ok && (!keep || q.res != "sat" || q.model != nil) {
		p.w.st.CacheHits++
		return q
	}
	if p.w.timeUp() {
		panic(pathEnd{endBudget, "time budget"})
	}
	s := p.w.solver
	s.write("(push)\n")
	for _, t := range ts {
		s.assert(t)
	}
	q := queryResult{res: s.check()}
	if q.res == "sat" {
		vm := map[*Term]bool{}
		var vs []*Term
		for _, t := range ts {
			for _, v := range t.vars() {
				x := p.w.ctx.varList[v]
				if !vm[x] {
					vm[x] = true
					vs = append(vs, x)
				}
			}
		}
		q.model = map[string]uint64{}
		if err := s.values(vs, q.model); err != nil {
			q.res = "unknown"
		}
	}
	s.write("(pop)\n")
	if s.dead {
		p.w.restartSolver()
		panic(pathEnd{endUnknown, "solver restarted"})
	}
	if q.res != "unknown" {
		p.w.qcache[key] = q
	}
	return q
}

const bigSlice = 150

// query checks PC ∧ extra; on sat, keeps the model if keep.
func (p *Path) query(extra *Term, keep bool) string {
	var sl []*Term
	if extra != nil {
		sl = append(p.slice(extra), extra)
	}
	if len(sl) > bigSlice {
		return p.queryWhole(extra, keep)
	}
	m := map[string]uint64{}
	if extra != nil {
		q := p.solve(sl, keep)
		if q.res != "sat" || !keep {
			return q.res
		}
		for k, v := range q.model {
			m[k] = v
		}
	}
	// the rest of the path: components that do not share variables with extra
	in := map[*Term]bool{}
	for _, t := range sl {
		in[t] = true
	}
	comps := map[int32][]*Term{}
	var order []int32
	for _, t := range p.pc {
		if in[t] {
			continue
		}
		vs := t.vars()
		if len(vs) == 0 {
			if t.val == 0 {
				return "unsat"
			}
			continue
		}
		r := p.ufFind(vs[0])
		if comps[r] == nil {
			order = append(order, r)
		}
		comps[r] = append(comps[r], t)
	}
	p.c.evGen++
	for _, r := range order {
		ts := comps[r]
		ok := true
		for _, t := range ts {
			if p.evalRaw(t) != 1 {
				ok = false
				break
			}
		}
		if ok {
			for _, t := range ts {
				for _, v := range t.vars() {
					x := p.c.varList[v]
					m[x.name] = p.model[x.name]
				}
			}
			continue
		}
		if len(ts) > bigSlice {
			return p.queryWhole(extra, keep)
		}
		q := p.solve(ts, true)
		if q.res != "sat" {
			return q.res
		}
		for k, v := range q.model {
			m[k] = v
		}
	}
	if keep {
		for _, v := range p.vars {
			if _, ok := m[v.name]; !ok {
				m[v.name] = p.model[v.name]
			}
		}
		p.model = m
		p.modelOK = true
	}
	return "sat"
}

// queryWhole is query over the whole path condition at once.
func (p *Path) queryWhole(extra *Term, keep bool) string {
	if p.w.timeUp() {
		panic(pathEnd{endBudget, "time budget"})
	}
	s := p.w.solver
	p.flushPC()
	if extra != nil {
		s.write("(push)\n")
		s.assert(extra)
	}
	r := s.check()
	if r == "sat" && keep {
		m := map[string]uint64{}
		if err := p.getModel(m); err != nil {
			r = "unknown"
		} else {
			p.model = m
			p.modelOK = true
		}
	}
	if extra != nil {
		s.write("(pop)\n")
	}
	if s.dead {
		p.w.restartSolver()
		panic(pathEnd{endUnknown, "solver restarted"})
	}
	return r
}

func (p *Path) getModel(m map[string]uint64) error {
	var vs []*Term
	for _, v := range p.vars {
		if v.def {
			vs = append(vs, v)
		} else {
			m[v.name] = 0
		}
	}
	if len(vs) == 0 {
		return nil
	}
	return p.w.solver.values(vs, m)
}

// ensureModel makes p.model satisfy the path condition.
func (p *Path) ensureModel() bool {
	if p.modelOK {
		return true
	}
	r := p.query(nil, true)
	return r == "sat"
}

// decide picks one of several options with the given conditions. Conditions
// must cover all cases of interest; infeasible ones are skipped, the others
// are explored by other paths.
func (p *Path) decide(conds []*Term) int {
	if len(conds) == 1 {
		p.addPC(conds[0])
		return 0
	}
	// syntactic shortcuts do not consume a decision: they are deterministic.
	trueAt, open := -1, 0
	last := -1
	truth := make([]int8, len(conds))
	for i, cnd := range conds {
		if v, ok := p.knownTruth(cnd); ok {
			if v {
				truth[i] = 1
				if trueAt < 0 {
					trueAt = i
				}
			} else {
				truth[i] = -1
			}
		} else {
			open++
			last = i
		}
	}
	if trueAt >= 0 {
		return trueAt
	}
	if open == 0 {
		panic(pathEnd{endAssume, "no feasible option"})
	}
	_ = last
	if len(p.dec) < len(p.prefix) {
		k := p.prefix[len(p.dec)]
		p.dec = append(p.dec, k)
		p.addPC(conds[k])
		return k
	}
	if !p.modelOK {
		r := p.query(nil, true)
		if r == "unsat" {
			panic(pathEnd{endAssume, "infeasible"})
		}
		if r != "sat" {
			panic(pathEnd{endUnknown, "solver unknown"})
		}
	}
	var feas []int
	for i, cnd := range conds {
		if truth[i] == -1 {
			continue
		}
		if p.evalBool(cnd) {
			feas = append(feas, i)
			continue
		}
		switch p.query(cnd, false) {
		case "sat":
			feas = append(feas, i)
		case "unknown":
			p.w.noteUnknown()
		}
	}
	if len(feas) == 0 {
		panic(pathEnd{endAssume, "no feasible option"})
	}
	// follow the option the current model satisfies, to keep the model
	pick := feas[0]
	for _, i := range feas {
		if p.evalBool(conds[i]) {
			pick = i
			break
		}
	}
	for _, i := range feas {
		if i != pick {
			p.w.fork(p.dec, i)
		}
	}
	p.dec = append(p.dec, pick)
	p.addPC(conds[pick])
	return pick
}

// choose forks unconditionally n ways.
func (p *Path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if len(p.dec) < len(p.prefix) {
		k := p.prefix[len(p.dec)]
		p.dec = append(p.dec, k)
		return k
	}
	for i := n - 1; i >= 1; i-- {
		p.w.fork(p.dec, i)
	}
	p.dec = append(p.dec, 0)
	return 0
}

// branch decides a symbolic boolean.
func (p *Path) branch(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		if t, ok := p.knownTruth(v); ok {
			return t
		}
		return p.decide([]*Term{v, p.c.Not(v)}) == 0
	}
	panic(unsupported(fmt.Sprintf("branch on %T", v)))
}

func (p *Path) assume(v Value) {
	t := p.term(v)
	if k, ok := p.knownTruth(t); ok {
		if !k {
			panic(pathEnd{endAssume, "assume"})
		}
		return
	}
	p.addPC(t)
	if len(p.dec) < len(p.prefix) {
		return // known feasible: the prefix went on
	}
	if p.modelOK {
		return
	}
	switch p.query(nil, true) {
	case "unsat":
		panic(pathEnd{endAssume, "assume"})
	case "unknown":
		panic(pathEnd{endUnknown, "assume"})
	}
}

// concretize an integer term by forking over its feasible values in [0,max].
func (p *Path) concretizeRange(t *Term, lo, hi int64) int64 {
	if t.isConst() {
		return sext(t.val, int(t.sort.W))
	}
	w := int(t.sort.W)
	var conds []*Term
	for i := lo; i <= hi; i++ {
		conds = append(conds, p.c.Eq(t, p.c.BV(uint64(i), w)))
	}
	return lo + int64(p.decide(conds))
}

// ---- assertions ----

type Violation struct {
	Label  string   `json:"label"`
	Kind   string   `json:"kind"` // assert panic deadlock race
	Msg    string   `json:"msg"`
	Known  string   `json:"known,omitempty"`
	Trace  []TraceE `json:"trace"`
	Sched  []int    `json:"schedule,omitempty"`
	EnvND  bool     `json:"env_nondet"`
	Func   string   `json:"harness"`
	Stack  []string `json:"stack,omitempty"`
	Opaque bool     `json:"-"`
}

// TraceE is one native-replay input.
type TraceE struct {
	K string `json:"k"`
	N string `json:"n,omitempty"`
	V string `json:"v"`
}

func (p *Path) trace() []TraceE {
	var r []TraceE
	p.c.evGen++
	for _, in := range p.inputs {
		e := TraceE{K: in.Kind, N: in.Name}
		switch in.Kind {
		case "u64", "rnd":
			e.V = strconv.FormatUint(p.evalRaw(in.T), 10)
		case "bool":
			e.V = strconv.FormatUint(p.evalRaw(in.T), 10)
		case "f64", "f32":
			e.V = strconv.FormatUint(p.evalRaw(in.T), 10)
		case "sel":
			e.V = strconv.FormatUint(p.evalRaw(in.T), 10)
		case "choice":
			e.V = strconv.Itoa(in.C)
		case "words":
			e.N, e.V = "", in.Name
		case "str", "rndb":
			var sb strings.Builder
			for _, b := range in.B {
				switch b := b.(type) {
				case uint64:
					fmt.Fprintf(&sb, "%02x", b)
				case *Term:
					fmt.Fprintf(&sb, "%02x", p.evalRaw(b))
				}
			}
			e.V = sb.String()
		}
		r = append(r, e)
	}
	return r
}

func (p *Path) mkViolation(kind, label, msg string) *Violation {
	return &Violation{Label: label, Kind: kind, Msg: msg, Trace: p.trace(), EnvND: p.envND, Func: p.w.ex.harness,
		Sched: append([]int(nil), p.schedule...)}
}

// assert checks cond on this path; returns after assuming it.
func (p *Path) assert(cond Value, label string, knownID string) {
	p.asserts[label]++
	t := p.term(cond)
	if v, ok := p.knownTruth(t); ok && v {
		p.w.stat(func(s *Stats) { s.AssertTrivial++ })
		return
	}
	inPrefix := len(p.dec) < len(p.prefix)
	if inPrefix && !t.isConst() {
		// already discharged by the path that created this prefix
		p.addPC(t)
		return
	}
	var r string
	if t.isConst() {
		if inPrefix {
			r = "sat"
			p.modelOK = false
		}
		r = "sat"
		if !p.ensureModel() {
			panic(pathEnd{endAssume, "infeasible at assertion"})
		}
	} else {
		p.w.stat(func(s *Stats) { s.AssertQueries++ })
		if p.modelOK && !p.evalBool(t) {
			r = "sat"
		} else {
			saveM, saveOK := p.model, p.modelOK
			r = p.query(p.c.Not(t), true)
			if r != "sat" {
				p.model, p.modelOK = saveM, saveOK
			}
		}
	}
	switch r {
	case "unsat":
		p.w.stat(func(s *Stats) { s.AssertProved++ })
		p.addFact(t, true)
		return
	case "unknown":
		p.w.noteUnknown()
		p.addPC(t)
		return
	}
	v := p.mkViolation("assert", label, "assertion fails")
	v.Known = knownID
	v.Stack = p.stack()
	if knownID != "" {
		p.w.addKnown(knownID, v)
	} else {
		p.w.addViolation(v)
	}
	if t.isConst() {
		panic(pathEnd{endViolation, label})
	}
	p.modelOK = false
	p.addPC(t)
	switch p.query(nil, true) {
	case "sat":
	default:
		panic(pathEnd{endViolation, label})
	}
}

func (p *Path) stack() []string {
	var r []string
	if p.cur == nil {
		return nil
	}
	for f := p.cur.top; f != nil && len(r) < 12; f = f.caller {
		pos := f.p.prg.prog.Fset.Position(f.pos())
		r = append(r, fmt.Sprintf("%s (%s:%d)", f.fi.fn.String(), pos.Filename, pos.Line))
	}
	return r
}

// ---- equality ----

func (p *Path) eqVals(a, b Value) *Term {
	c := p.c
	switch x := a.(type) {
	case bool:
		return c.Eq(p.term(a), p.term(b))
	case uint64:
		switch y := b.(type) {
		case uint64:
			return c.Bool(x == y)
		case *Term:
			return c.Eq(y, c.BV(x, int(y.sort.W)))
		case *blobByte:
			return p.eqBlobByte(y, x)
		}
	case *Term:
		if x.sort.K == SF32 || x.sort.K == SF64 {
			return c.FBin(OFEq, x, p.term(b))
		}
		if x.sort.K == SBool {
			return c.Eq(x, p.term(b))
		}
		return c.Eq(x, p.bv(b, int(x.sort.W)))
	case float64, float32:
		return c.FBin(OFEq, p.term(a), p.term(b))
	case complex128:
		return c.Bool(x == b.(complex128))
	case string, *SymStr:
		return p.eqStr(a, b)
	case *OpaqueStr:
		if a == b {
			return c.True
		}
		panic(unsupported("comparison of formatted text"))
	case *Value:
		if y, ok := b.(*Value); ok {
			return c.Bool(x == y)
		}
		return c.False
	case *MapVal:
		return c.Bool(a == b)
	case *ChanVal:
		return c.Bool(a == b)
	case *Closure:
		y, _ := b.(*Closure)
		return c.Bool(x == nil && y == nil || x == y)
	case []Value:
		y := b.([]Value)
		return c.Bool(x == nil && y == nil) // only nil comparisons reach here
	case Iface:
		switch y := b.(type) {
		case Iface:
			if x.t == nil || y.t == nil {
				return c.Bool(x.t == nil && y.t == nil)
			}
			if !sameType(x.t, y.t) {
				return c.False
			}
			if !types.Comparable(x.t) {
				panic(goPanic{mkRTError("comparing uncomparable type " + x.t.String())})
			}
			return p.eqVals(x.v, y.v)
		case *SymIface:
			return p.eqVals(b, a)
		}
	case *SymIface:
		r := c.False
		for i := range x.alts {
			r = c.Or(r, c.And(x.conds[i], p.eqVals(x.alts[i], b)))
		}
		return r
	case Struct:
		y := b.(Struct)
		r := c.True
		for i := range x {
			r = c.And(r, p.eqVals(x[i], y[i]))
		}
		return r
	case Array:
		y := b.(Array)
		r := c.True
		for i := range x {
			r = c.And(r, p.eqVals(x[i], y[i]))
		}
		return r
	case *blobByte:
		if y, ok := b.(*blobByte); ok {
			if x == y || (x.b == y.b && x.i == y.i) {
				return c.True
			}
			if x.i != y.i {
				panic(unsupported("comparison of encoded (opaque) bytes"))
			}
			return p.eqBlob(x.b, y.b)
		}
		if y, ok := b.(uint64); ok {
			return p.eqBlobByte(x, y)
		}
		panic(unsupported("comparison with encoded (opaque) bytes"))
	case *SymPtr:
		if a == b {
			return c.True
		}
	}
	panic(unsupported(fmt.Sprintf("equality of %T and %T", a, b)))
}

func (p *Path) eqStr(a, b Value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return p.c.Bool(x == y)
		}
	}
	if a == b {
		return p.c.True
	}
	x, ok1 := strBytes(a)
	y, ok2 := strBytes(b)
	if !ok1 || !ok2 {
		// formatted text is never equal to a short literal such as ""
		if ok1 && len(x) == 0 || ok2 && len(y) == 0 {
			return p.c.False
		}
		panic(unsupported("comparison of formatted text"))
	}
	return p.eqBytes(x, y)
}

func (p *Path) eqBytes(x, y []Value) *Term {
	if len(x) != len(y) {
		return p.c.False
	}
	// encodings are injective
	if len(x) >= 16 {
		for _, k := range []string{"hex", "b64"} {
			if dx, ok := p.recall(k, x); ok {
				if dy, ok := p.recall(k, y); ok {
					return p.eqBytes(dx, dy)
				}
			}
		}
	}
	r := p.c.True
	for i := range x {
		r = p.c.And(r, p.eqVals(x[i], y[i]))
		if r == p.c.False {
			return r
		}
	}
	return r
}

// ltBytes is the lexicographic order.
func (p *Path) ltBytes(x, y []Value) *Term {
	n := min(len(x), len(y))
	r := p.c.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		a, b := p.bv(x[i], 8), p.bv(y[i], 8)
		r = p.c.Ite(p.c.Eq(a, b), r, p.c.Bin(OUlt, a, b))
	}
	return r
}

// ---- maps ----

func (p *Path) mapFind(m *MapVal, k Value) *mapEnt {
	if m == nil {
		return nil
	}
	if s, ok := k.(*SymIface); ok {
		k = p.pickIface(s)
	}
	if ck, ok := concKey(k); ok {
		if e := m.conc[ck]; e != nil {
			return e
		}
		if m.symk == 0 {
			return nil
		}
	}
	var cand []*mapEnt
	var conds []*Term
	none := p.c.True
	for _, e := range m.ents {
		t := p.eqVals(e.k, k)
		if v, ok := p.knownTruth(t); ok {
			if v {
				return e
			}
			continue
		}
		cand = append(cand, e)
		conds = append(conds, t)
		none = p.c.And(none, p.c.Not(t))
	}
	if len(cand) == 0 {
		return nil
	}
	i := p.decide(append(conds, none))
	if i == len(cand) {
		for _, t := range conds {
			p.addFact(t, false)
		}
		return nil
	}
	return cand[i]
}

func (p *Path) mapSet(m *MapVal, k, v Value) {
	if m == nil {
		panic(goPanic{mkRTError("assignment to entry in nil map")})
	}
	if s, ok := k.(*SymIface); ok {
		k = p.pickIface(s)
	}
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		panic(goPanic{mkRTError("hash of unhashable type " + i.t.String())})
	}
	if e := p.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := m.add(copyVal(k), v)
	_ = e
}

func (p *Path) pickIface(s *SymIface) Iface {
	return s.alts[p.decide(s.conds)]
}

// merge combines values under guards into one value when they are scalars of
// one sort or strings of one length; ok is false otherwise.
func (p *Path) merge(conds []*Term, vals []Value) (Value, bool) {
	if len(vals) == 1 {
		return vals[0], true
	}
	same := true
	for _, v := range vals[1:] {
		switch v.(type) {
		case Struct, Array, []Value:
			same = false
		default:
			switch vals[0].(type) {
			case Struct, Array, []Value:
				same = false
			default:
				if v != vals[0] {
					same = false
				}
			}
		}
		if !same {
			break
		}
	}
	if same {
		return vals[0], true
	}
	switch vals[0].(type) {
	case bool, float64, float32:
	case uint64, *Term:
	case string, *SymStr:
		n := -1
		var bs [][]Value
		for _, v := range vals {
			b, ok := strBytes(v)
			if !ok || (n >= 0 && len(b) != n) {
				return nil, false
			}
			n = len(b)
			bs = append(bs, b)
		}
		out := make([]Value, n)
		for i := range out {
			t := p.bv(bs[len(bs)-1][i], 8)
			for k := len(bs) - 2; k >= 0; k-- {
				t = p.c.Ite(conds[k], p.bv(bs[k][i], 8), t)
			}
			out[i] = p.val(t)
		}
		return mkStr(out), true
	default:
		return nil, false
	}
	w := 0
	for _, v := range vals {
		if t, ok := v.(*Term); ok {
			w = int(t.sort.W)
		}
	}
	if w == 0 {
		w = 64
		if _, ok := vals[0].(uint64); ok {
			// all concrete integers: need the width from the type; caller uses mergeT
			return nil, false
		}
	}
	tm := func(v Value) *Term {
		if u, ok := v.(uint64); ok {
			return p.c.BV(u, w)
		}
		return p.term(v)
	}
	t := tm(vals[len(vals)-1])
	for k := len(vals) - 2; k >= 0; k-- {
		o := tm(vals[k])
		if o.sort != t.sort {
			return nil, false
		}
		t = p.c.Ite(conds[k], o, t)
	}
	return p.val(t), true
}

// mergeT is merge for values of static type t.
func (p *Path) mergeT(t types.Type, conds []*Term, vals []Value) (Value, bool) {
	if w, _, ok := intInfo(t); ok {
		r := p.bv(vals[len(vals)-1], w)
		for k := len(vals) - 2; k >= 0; k-- {
			r = p.c.Ite(conds[k], p.bv(vals[k], w), r)
		}
		return p.val(r), true
	}
	return p.merge(conds, vals)
}

func (p *Path) note(s string) { p.notes[s] = true }

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
