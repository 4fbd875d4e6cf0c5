// Package vsync stands in for sync when a recorded schedule is replayed: only
// one goroutine runs at a time, and control passes at the same points where
// the engine passes it.
package vsync

import "sync"

type Locker = sync.Locker

type DeadlockPanic struct{}

type thread struct {
	id    int
	baton chan bool
	done  bool
	block func() bool
}

type sched struct {
	threads  []*thread
	cur      *thread
	order    []int
	pos      int
	conc     bool
	dead     bool
	mismatch string
	held     int
}

var s = &sched{}

// Reset starts a new run with a schedule.
func Reset(order []int) {
	s = &sched{order: order}
	t := &thread{baton: make(chan bool)}
	s.threads = []*thread{t}
	s.cur = t
}

func Deadlocked() bool { return s.dead }
func Mismatch() string { return s.mismatch }
func Held() int        { return s.held }

func (s *sched) pick(cur *thread) *thread {
	var r []*thread
	ok := func(t *thread) bool { return !t.done && (t.block == nil || t.block()) }
	if cur != nil && ok(cur) {
		r = append(r, cur)
	}
	for _, t := range s.threads {
		if t != cur && ok(t) {
			r = append(r, t)
		}
	}
	if len(r) == 0 {
		return nil
	}
	n := r[0]
	if len(s.threads) > 1 {
		if s.pos < len(s.order) {
			found := false
			for _, t := range r {
				if t.id == s.order[s.pos] {
					n = t
					found = true
				}
			}
			if !found && s.mismatch == "" {
				s.mismatch = "schedule does not apply"
			}
		}
		s.pos++
	}
	n.block = nil
	return n
}

func (s *sched) point() {
	if len(s.threads) == 0 {
		return // outside a run
	}
	th := s.cur
	if !s.conc {
		if th.block != nil && !th.block() {
			s.dead = true
			panic(DeadlockPanic{})
		}
		th.block = nil
		return
	}
	n := s.pick(th)
	if n == nil {
		s.deadlock(th)
	}
	if n == th {
		return
	}
	s.cur = n
	n.baton <- true
	if !<-th.baton {
		panic(DeadlockPanic{})
	}
	s.cur = th
}

func (s *sched) deadlock(th *thread) {
	s.dead = true
	if th != nil && th.id == 0 {
		panic(DeadlockPanic{})
	}
	s.threads[0].baton <- false
	select {} // abandoned
}

// Go starts a scheduled goroutine.
func Go(f func()) {
	sc := s
	sc.conc = true
	t := &thread{id: len(sc.threads), baton: make(chan bool)}
	sc.threads = append(sc.threads, t)
	go func() {
		if !<-t.baton {
			return
		}
		f()
		t.done = true
		n := sc.pick(nil)
		if n == nil {
			sc.deadlock(nil)
		}
		sc.cur = n
		n.baton <- true
	}()
}

// Join waits for all other goroutines.
func Join() {
	sc := s
	th := sc.cur
	th.block = func() bool {
		for _, t := range sc.threads {
			if t != th && !t.done {
				return false
			}
		}
		return true
	}
	sc.point()
}

// Point is a scheduling point of an atomic operation.
func Point() {
	if s.conc {
		s.point()
	}
}

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	if s.cur != nil {
		s.cur.block = func() bool { return !m.locked }
	}
	s.point()
	m.locked = true
	s.held++
}

func (m *Mutex) TryLock() bool {
	s.point()
	if m.locked {
		return false
	}
	m.locked = true
	s.held++
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	s.held--
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	if s.cur != nil {
		s.cur.block = func() bool { return !m.w && m.r == 0 }
	}
	s.point()
	m.w = true
	s.held++
}

func (m *RWMutex) TryLock() bool {
	s.point()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	s.held++
	return true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: unlock of unlocked mutex")
	}
	m.w = false
	s.held--
}

func (m *RWMutex) RLock() {
	if s.cur != nil {
		s.cur.block = func() bool { return !m.w }
	}
	s.point()
	m.r++
	s.held++
}

func (m *RWMutex) TryRLock() bool {
	s.point()
	if m.w {
		return false
	}
	m.r++
	s.held++
	return true
}

func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	s.held--
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { Point(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { Point(); m.m.Store(k, v) }
func (m *Map) Clear()                           { Point(); m.m.Clear() }
func (m *Map) Delete(k any)                     { Point(); m.m.Delete(k) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { Point(); return m.m.LoadAndDelete(k) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { Point(); return m.m.LoadOrStore(k, v) }
func (m *Map) Swap(k, v any) (any, bool)        { Point(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { Point(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { Point(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool) {
	Point()
	m.m.Range(func(k, v any) bool {
		ok := f(k, v)
		if ok {
			Point()
		}
		return ok
	})
}

type Once struct{ done bool }

func (o *Once) Do(f func()) {
	Point()
	if !o.done {
		o.done = true
		f()
		Point()
	}
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	Point()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { Point(); w.n-- }
func (w *WaitGroup) Wait() {
	if s.cur != nil {
		s.cur.block = func() bool { return w.n <= 0 }
	}
	s.point()
	Point()
}

type Pool struct {
	noCopy struct{}
	New    func() any
}

func (p *Pool) Get() any {
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(any) {}
