package main

// Threads, locks and the happens-before race detector.

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

type Thread struct {
	id     int
	top    *Frame
	resume chan bool // true: run, false: die
	done   bool
	block  func() bool // nil when runnable; returns true when it may continue
	what   string
	vc     []int
	held   int
	joined bool
	result *pathEnd
	panicV *goPanic
}

type lockState struct {
	writer  *Thread
	readers map[*Thread]int
	vc      []int // released clock
}

type shadow struct {
	wT, wC int
	r      map[int]int
}

type raceState struct {
	cells map[*Value]*shadow
	maps  map[*MapVal]*shadow
}

func joinVC(a, b []int) []int {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func (t *Thread) tick() {
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id]++
}

func (p *Path) newThread() *Thread {
	t := &Thread{id: len(p.threads), resume: make(chan bool)}
	t.tick()
	p.threads = append(p.threads, t)
	return t
}

// spawn starts a goroutine of the interpreted program.
func (p *Path) spawn(fr *Frame, fv Value, args []Value) {
	if len(p.threads) >= 6 {
		panic(unsupported("more than 6 goroutines"))
	}
	p.conc = true
	if p.race == nil {
		p.race = &raceState{cells: map[*Value]*shadow{}, maps: map[*MapVal]*shadow{}}
	}
	t := p.newThread()
	t.vc = joinVC(t.vc, fr.th.vc)
	fr.th.tick()
	go p.threadMain(t, func() {
		dummy := &Frame{p: p, th: t, fi: &fnInfo{fn: fr.fi.fn, name: "go"}}
		p.callValue(dummy, fv, args)
	})
}

func (p *Path) threadMain(t *Thread, f func()) {
	if !<-t.resume {
		t.done = true
		p.w.threadExit <- struct{}{}
		return
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case pathEnd:
					t.result = &r
				case goPanic:
					t.panicV = &r
				default:
					t.result = &pathEnd{endUnsupported, "engine: " + fmt.Sprint(r) + "\n" + stackTrace()}
				}
			}
		}()
		f()
	}()
	t.done = true
	if t.panicV != nil && t.result == nil {
		t.result = p.uncaught(t)
	}
	if t.result != nil && t.result.kind == endKilled {
		p.w.threadExit <- struct{}{}
		return
	}
	if t.result != nil {
		// the path is over: hand control to the main thread, which unwinds
		p.end = t.result
		p.w.threadExit <- struct{}{}
		p.threads[0].resume <- false
		return
	}
	// pick another thread
	next := func() (n *Thread) {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(pathEnd); ok {
					p.end = &e
					return
				}
				p.end = &pathEnd{endUnsupported, fmt.Sprint("engine: ", r)}
			}
		}()
		return p.pickThread(nil)
	}()
	p.w.threadExit <- struct{}{}
	if p.end != nil {
		p.threads[0].resume <- false
		return
	}
	p.cur = next
	next.resume <- true
}

// uncaught turns a panic that reaches the top of a goroutine into a violation.
func (p *Path) uncaught(t *Thread) *pathEnd {
	if !p.ensureModel() {
		return &pathEnd{endAssume, "infeasible panic"}
	}
	msg := p.panicText(t.panicV.v)
	v := p.mkViolation("panic", "panic", msg)
	v.Stack = p.stack()
	p.w.addViolation(v)
	return &pathEnd{endViolation, "panic: " + msg}
}

func (p *Path) panicText(v Value) string {
	if i, ok := v.(Iface); ok {
		if s, ok := i.v.(string); ok {
			return s
		}
		if i.t != nil {
			return "value of type " + i.t.String()
		}
	}
	return fmt.Sprintf("%T", v)
}

// runnable threads in id order, current first.
func (p *Path) runnable(cur *Thread) []*Thread {
	var r []*Thread
	ok := func(t *Thread) bool { return !t.done && (t.block == nil || t.block()) }
	if cur != nil && ok(cur) {
		r = append(r, cur)
	}
	for _, t := range p.threads {
		if t != cur && ok(t) {
			r = append(r, t)
		}
	}
	return r
}

func (p *Path) pickThread(cur *Thread) *Thread {
	r := p.runnable(cur)
	if len(r) == 0 {
		if !p.ensureModel() {
			panic(pathEnd{endAssume, "infeasible"})
		}
		what := ""
		for _, t := range p.threads {
			if !t.done {
				what += fmt.Sprintf("goroutine %d waits for %s; ", t.id, t.what)
			}
		}
		v := p.mkViolation("deadlock", "deadlock", what)
		v.Stack = p.stack()
		p.w.addViolation(v)
		panic(pathEnd{endViolation, "deadlock: " + what})
	}
	k := 0
	if len(r) > 1 {
		k = p.choose(len(r))
	}
	t := r[k]
	if len(p.threads) > 1 {
		p.schedule = append(p.schedule, t.id)
	}
	t.block = nil
	return t
}

// schedPoint lets another goroutine run.
func (p *Path) schedPoint(th *Thread) {
	if !p.conc {
		if th.block != nil && !th.block() {
			p.pickThread(th) // reports the deadlock
		}
		th.block = nil
		return
	}
	if p.initMode > 0 && (th.block == nil || th.block()) {
		th.block = nil
		return
	}
	n := p.pickThread(th)
	if n == th {
		return
	}
	p.switchTo(th, n)
}

func (p *Path) switchTo(th, n *Thread) {
	p.cur = n
	n.resume <- true
	if !<-th.resume {
		if p.end != nil && th.id == 0 {
			panic(*p.end)
		}
		panic(pathEnd{endKilled, "killed"})
	}
	p.cur = th
}

// killThreads unwinds the goroutines that are still suspended.
func (p *Path) killThreads() {
	for _, t := range p.threads[1:] {
		if !t.done {
			t.done = true
			go func(t *Thread) { t.resume <- false }(t)
			<-p.w.threadExit
		}
	}
	// drain
	for {
		select {
		case <-p.w.threadExit:
			continue
		default:
		}
		break
	}
}

// ---- locks ----

func (p *Path) lockOf(ptr Value) *lockState {
	k := ptr.(*Value)
	if k == nil {
		nilDeref()
	}
	if s, ok := p.side[k]; ok {
		return s.(*lockState)
	}
	s := &lockState{readers: map[*Thread]int{}}
	p.side[k] = s
	return s
}

func (p *Path) lock(th *Thread, ptr Value, read bool) {
	l := p.lockOf(ptr)
	free := func() bool {
		if read {
			return l.writer == nil
		}
		return l.writer == nil && len(l.readers) == 0
	}
	th.block = free
	th.what = "lock"
	p.schedPoint(th)
	if read {
		l.readers[th]++
	} else {
		l.writer = th
	}
	p.heldLocks++
	th.vc = joinVC(th.vc, l.vc)
}

func (p *Path) tryLock(th *Thread, ptr Value, read bool) bool {
	l := p.lockOf(ptr)
	p.schedPoint(th)
	if l.writer != nil || (!read && len(l.readers) > 0) {
		return false
	}
	if read {
		l.readers[th]++
	} else {
		l.writer = th
	}
	p.heldLocks++
	th.vc = joinVC(th.vc, l.vc)
	return true
}

func (p *Path) unlock(th *Thread, ptr Value, read bool) {
	l := p.lockOf(ptr)
	if read {
		k := th
		if l.readers[k] == 0 {
			for t := range l.readers {
				k = t
			}
		}
		if l.readers[k] == 0 {
			panic(goPanic{mkRTError("sync: RUnlock of unlocked RWMutex")})
		}
		l.readers[k]--
		if l.readers[k] == 0 {
			delete(l.readers, k)
		}
	} else {
		if l.writer == nil {
			panic(goPanic{mkRTError("sync: unlock of unlocked mutex")})
		}
		l.writer = nil
	}
	p.heldLocks--
	l.vc = joinVC(append([]int(nil), l.vc...), th.vc)
	th.tick()
	// no scheduling point: what others can do before this thread's next
	// synchronisation they can as well do right before it
}

// syncVar is an acquire+release operation on a synchronisation object.
func (p *Path) syncVar(th *Thread, key any) {
	if p.conc {
		p.schedPoint(th)
	}
	type k struct{ k any }
	s, _ := p.side[k{key}].([]int)
	th.vc = joinVC(th.vc, s)
	p.side[k{key}] = joinVC(append([]int(nil), s...), th.vc)
	th.tick()
}

// ---- races ----

func (p *Path) access(x *Value, write bool) {
	if p.race == nil {
		return
	}
	th := p.cur
	if !p.trackFrame(th) {
		return
	}
	s := p.race.cells[x]
	if s == nil {
		s = &shadow{wT: -1}
		p.race.cells[x] = s
	}
	p.check(s, th, write)
}

func (p *Path) accessMap(m *MapVal, write bool) {
	if p.race == nil || m == nil {
		return
	}
	th := p.cur
	if !p.trackFrame(th) {
		return
	}
	s := p.race.maps[m]
	if s == nil {
		s = &shadow{wT: -1}
		p.race.maps[m] = s
	}
	p.check(s, th, write)
}

// races are reported for code under test, not for the harness's own bookkeeping.
func (p *Path) trackFrame(th *Thread) bool {
	// packages are initialised when first needed, but as if before everything
	return th != nil && th.top != nil && !th.top.fi.inHarness && p.initMode == 0
}

func (p *Path) check(s *shadow, th *Thread, write bool) {
	hb := func(t, c int) bool { return t == th.id || (t < len(th.vc) && th.vc[t] >= c) }
	bad := s.wT >= 0 && !hb(s.wT, s.wC)
	if write && !bad {
		for t, c := range s.r {
			if !hb(t, c) {
				bad = true
			}
		}
	}
	if bad {
		if !p.ensureModel() {
			panic(pathEnd{endAssume, "infeasible"})
		}
		v := p.mkViolation("race", "data race", "unsynchronised access in "+th.top.fi.name)
		v.Stack = p.stack()
		p.w.addViolation(v)
		panic(pathEnd{endViolation, "data race"})
	}
	if write {
		s.wT, s.wC = th.id, th.vc[th.id]
		s.r = nil
	} else {
		if s.r == nil {
			s.r = map[int]int{}
		}
		s.r[th.id] = th.vc[th.id]
	}
}

var _ = ssa.NaiveForm
