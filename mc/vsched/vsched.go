// Package vsched runs goroutines of the instrumented code one scheduling
// point at a time, under the control of an explorer that decides at every
// point which goroutine continues.
//
// An execution takes place in a testing/synctest bubble. A goroutine that
// reaches a point parks there; the controller waits until every goroutine is
// parked or blocked, picks one of the parked ones and lets it run to its next
// point. Blocking operations of the code under test are the real ones.
package vsched

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
)

const maxThreads = 32

// T is the test the bubbles belong to; set by the main program.
var T *testing.T

// Hook, if set, resolves decisions while no scheduler is active.
var Hook func(n int, label string) int

// Chooser resolves decisions.
type Chooser interface {
	Choose(n int, label string) int
	// Preempt is a choice whose non-zero answers are preemptions; it answers
	// zero once none are left.
	Preempt(n int, label string) int
	// CanPreempt reports whether Preempt can still answer anything but zero.
	CanPreempt() bool
}

type thread struct {
	goid   uintptr
	idx    int
	name   string
	loc    string
	parked bool
	done   bool
	free   int // points left to pass without parking
	reqN   int // pending decision
	reqL   string
	gate   chan int
	panicv any
	stack  string
	daemon bool // not started by the harness
}

// Sched is one execution.
type Sched struct {
	ch    Chooser
	mu    sync.Mutex
	ths   [maxThreads]thread
	n     int
	kill  bool
	Steps int
	// Switches counts changes of the running goroutine.
	Switches int
	Trace    func(thread, loc string)
	OnStep   func(s *Sched)
}

var (
	active atomic.Pointer[Sched]
	epoch  atomic.Int64
)

// Point is a scheduling point.
func Point() { At("") }

// At is a scheduling point at a known place.
func At(loc string) {
	if s := active.Load(); s != nil {
		s.park(loc, 0, "")
	}
}

// Choose lets the explorer pick a number below n.
func Choose(n int, label string) int {
	s := active.Load()
	if n <= 1 {
		return 0
	}
	if s == nil {
		if Hook != nil {
			return Hook(n, label)
		}
		return 0
	}
	return s.park(label, n, label)
}

//go:norace
func (s *Sched) self() *thread {
	id := goid()
	for i := 0; i < s.n; i++ {
		if s.ths[i].goid == id {
			return &s.ths[i]
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.n == maxThreads {
		return nil
	}
	t := &s.ths[s.n]
	t.goid, t.idx, t.name, t.daemon = id, s.n, "goroutine", true
	t.gate = make(chan int)
	s.n++
	return t
}

//go:norace
func (s *Sched) park(loc string, n int, label string) int {
	raceDisable()
	defer raceEnable()
	if s.kill {
		return 0
	}
	t := s.self()
	if t == nil {
		return 0
	}
	if n == 0 && t.free > 0 {
		t.free--
		t.loc = loc
		return 0
	}
	t.loc, t.reqN, t.reqL = loc, n, label
	t.parked = true
	k := <-t.gate
	if k < 0 {
		runtime.Goexit()
	}
	return k
}

// Go adds a thread to the execution; it starts when Run is called.
//
//go:norace
func (s *Sched) Go(name string, f func()) {
	t := &s.ths[s.n]
	t.idx, t.name, t.loc, t.gate = s.n, name, "start", make(chan int)
	s.n++
	t.parked = true
	go func() {
		t.goid = goid()
		raceDisable()
		k := <-t.gate
		raceEnable()
		if k < 0 {
			return
		}
		defer s.exit(t)
		f()
	}()
}

// Spawn starts a goroutine of the code under test: go f(). It is a thread of
// the execution, but need not end.
func Spawn(f func()) {
	s := active.Load()
	if s == nil {
		go f()
		return
	}
	t := s.spawned()
	if t == nil {
		go f()
		return
	}
	go func() {
		if s.begin(t) {
			defer s.exit(t)
			f()
		}
	}()
}

//go:norace
func (s *Sched) spawned() *thread {
	if s.kill {
		return nil
	}
	var t *thread
	for i := 0; i < s.n; i++ {
		if x := &s.ths[i]; x.daemon && x.done {
			t = x
			break
		}
	}
	if t == nil {
		if s.n == maxThreads {
			return nil
		}
		t = &s.ths[s.n]
		t.idx = s.n
		s.n++
	}
	*t = thread{idx: t.idx, name: "goroutine", loc: "start", daemon: true, parked: true, gate: make(chan int)}
	return t
}

// begin waits for the controller to let t start.
//
//go:norace
func (s *Sched) begin(t *thread) bool {
	t.goid = goid()
	raceDisable()
	k := <-t.gate
	raceEnable()
	return k >= 0
}

//go:norace
func (s *Sched) exit(t *thread) {
	if p := recover(); p != nil && !s.kill {
		t.panicv, t.stack = p, string(debug.Stack())
	}
	t.done = true
	t.goid = 0
	t.loc = "end"
}

// Panic is a panic of a thread.
type Panic struct {
	Thread, Stack string
	Value         any
}

func (p *Panic) Error() string {
	return fmt.Sprintf("%s panics: %v\n%s", p.Thread, p.Value, p.Stack)
}

// Deadlock means that no thread can run.
type Deadlock struct{ Threads []string }

func (d *Deadlock) Error() string { return fmt.Sprintf("deadlock: %v never return", d.Threads) }

// ErrSteps means that an execution did not end within the step limit.
type ErrSteps int

func (e ErrSteps) Error() string { return fmt.Sprintf("no thread finishes within %d steps", int(e)) }

const (
	maxSteps = 200000
	fairness = 3000
)

// Run runs the threads to completion and returns nil, *Panic, *Deadlock or ErrSteps.
//
//go:norace
func (s *Sched) Run() error {
	var cur *thread
	run, idleSteps := 0, 0
	var en [maxThreads]*thread
	for {
		synctest.Wait()
		if s.OnStep != nil {
			s.OnStep(s)
		}
		m := 0
		live := 0
		for i := 0; i < s.n; i++ {
			t := &s.ths[i]
			if t.panicv != nil {
				return &Panic{t.name, t.stack, t.panicv}
			}
			if t.parked {
				en[m] = t
				m++
			}
			if !t.done && !t.daemon {
				live++
			}
		}
		if live == 0 && (m == 0 || idleSteps > 2000) {
			return nil
		}
		if live == 0 {
			idleSteps++ // let goroutines of the code under test finish
		}
		if m == 0 {
			d := &Deadlock{}
			for i := 0; i < s.n; i++ {
				if t := &s.ths[i]; !t.done && !t.daemon {
					d.Threads = append(d.Threads, t.name+" at "+t.loc)
				}
			}
			return d
		}
		if s.Steps++; s.Steps > maxSteps {
			return ErrSteps(maxSteps)
		}
		var next *thread
		if cur != nil && cur.parked && run < fairness {
			// the current thread first
			for i := 0; i < m; i++ {
				if en[i] == cur {
					copy(en[1:i+1], en[:i])
					en[0] = cur
				}
			}
			next = cur
			if m > 1 {
				next = en[s.ch.Preempt(m, "at "+cur.loc)]
			}
		} else if m > 1 {
			next = en[s.ch.Choose(m, "next")]
		} else {
			next = en[0]
		}
		if next != cur {
			run = 0
			s.Switches++
		}
		run++
		cur = next
		k := 0
		if next.reqN > 1 {
			k = s.ch.Choose(next.reqN, next.reqL)
			next.reqN = 0
		}
		if s.Trace != nil {
			s.Trace(next.name, next.loc)
		}
		for i := 0; i < s.n; i++ {
			s.ths[i].free = 0 // only the chosen thread may pass points
		}
		if s.Trace == nil && (m == 1 || !s.ch.CanPreempt()) && run < fairness {
			// nobody else can run before this thread blocks or ends
			if m == 1 && s.ch.CanPreempt() {
				// but it may wake others, who may then preempt it
			} else {
				next.free = 2000
			}
		}
		next.parked = false
		raceDisable()
		next.gate <- k
		raceEnable()
	}
}

// Locs describes where every thread is.
//
//go:norace
func (s *Sched) Locs(f func(idx int, loc string, parked bool)) {
	for i := 0; i < s.n; i++ {
		f(i, s.ths[i].loc, s.ths[i].parked)
	}
}

//go:norace
func (s *Sched) abort() {
	s.kill = true
	for i := 0; i < s.n; i++ {
		if t := &s.ths[i]; t.parked {
			t.parked = false
			raceDisable()
			t.gate <- -1
			raceEnable()
			synctest.Wait()
		}
	}
}

// Execute runs f in a bubble with a fresh scheduler; panics of f come out of Execute.
func Execute(ch Chooser, f func(s *Sched)) {
	var pv any
	finished := false
	done := make(chan struct{})
	// A test in which a data race was reported ends its goroutine, so each
	// execution has one of its own.
	go func() {
		defer close(done)
		defer func() {
			if p := recover(); p != nil && !finished {
				pv = p
			}
			// Otherwise goroutines of the code under test are still blocked,
			// but the execution has been judged already.
			active.Store(nil)
		}()
		synctest.Test(T, func(*testing.T) {
			s := &Sched{ch: ch}
			epoch.Add(1)
			defer func() {
				pv = recover()
				active.Store(nil)
				s.abort()
				finished = true
			}()
			active.Store(s)
			f(s)
		})
	}()
	<-done
	if pv != nil {
		panic(pv)
	}
}

// Detached runs f, called by the controller, without scheduling points.
func (s *Sched) Detached(f func()) {
	active.Store(nil)
	defer active.Store(s)
	f()
}

// Quiet switches the race detector's view of synchronisation off and on.
func Quiet(on bool) {
	if on {
		raceDisable()
	} else {
		raceEnable()
	}
}

// Cell is a lazily made lock channel that belongs to the current execution.
type Cell struct {
	mu    sync.Mutex
	ch    chan struct{}
	epoch int64
}

// Get returns the channel.
//
//go:norace
func (c *Cell) Get() chan struct{} {
	raceDisable()
	c.mu.Lock()
	if e := epoch.Load(); c.ch == nil || c.epoch != e {
		c.ch, c.epoch = make(chan struct{}, 1), e
	}
	ch := c.ch
	c.mu.Unlock()
	raceEnable()
	return ch
}

// Case is a case of a select statement.
type Case interface {
	never() bool
	try() bool
	sel() reflect.SelectCase
	got(v reflect.Value, ok bool)
}

// Recv is a receive case.
type Recv[E any] struct {
	ch <-chan E
	V  E
	Ok bool
}

// RecvCase makes a receive case.
func RecvCase[E any](ch <-chan E) *Recv[E] { return &Recv[E]{ch: ch} }

func (r *Recv[E]) never() bool { return r.ch == nil }

func (r *Recv[E]) try() bool {
	select {
	case r.V, r.Ok = <-r.ch:
		return true
	default:
		return false
	}
}

func (r *Recv[E]) sel() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.ch)}
}

func (r *Recv[E]) got(v reflect.Value, ok bool) {
	r.Ok = ok
	if ok {
		reflect.ValueOf(&r.V).Elem().Set(v)
	}
}

// Send is a send case.
type Send[E any] struct {
	ch chan<- E
	v  E
}

// SendCase makes a send case.
func SendCase[E any](ch chan<- E) *Send[E] { return &Send[E]{ch: ch} }

// With sets the value to send.
func (r *Send[E]) With(v E) *Send[E] { r.v = v; return r }

func (r *Send[E]) never() bool { return r.ch == nil }

func (r *Send[E]) try() bool {
	select {
	case r.ch <- r.v:
		return true
	default:
		return false
	}
}

func (r *Send[E]) sel() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(r.ch), Send: reflect.ValueOf(&r.v).Elem()}
}

func (r *Send[E]) got(reflect.Value, bool) {}

// Select performs a select statement and returns the index of the case taken, -1 for default.
func Select(hasDefault bool, cs ...Case) int {
	// a nil channel is never ready
	var can [16]int
	n := 0
	for i := range cs {
		if !cs[i].never() && n < len(can) {
			can[n] = i
			n++
		}
	}
	first := Choose(n, "select")
	for i := 0; i < n; i++ {
		k := can[(first+i)%n]
		if cs[k].try() {
			return k
		}
	}
	if hasDefault {
		return -1
	}
	sc := make([]reflect.SelectCase, len(cs))
	for i := range cs {
		sc[i] = cs[i].sel()
	}
	k, v, ok := reflect.Select(sc)
	cs[k].got(v, ok)
	return k
}
