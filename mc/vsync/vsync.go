// Package vsync stands in for package sync in the instrumented build. Its
// locks are made of channels, so that a goroutine waiting for one is seen to
// be blocked, and acquiring or releasing one is a scheduling point.
package vsync

import (
	"sync"

	"verif.local/mc/vsched"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
)

// WaitGroup is sync.WaitGroup, starting goroutines that can be scheduled.
type WaitGroup struct{ sync.WaitGroup }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Spawn(func() {
		defer w.Done()
		f()
	})
}

// Mutex replaces sync.Mutex; its zero value is unlocked.
type Mutex struct{ cell vsched.Cell }

func (m *Mutex) c() chan struct{} { return m.cell.Get() }

func (m *Mutex) Lock() {
	vsched.Point()
	m.c() <- struct{}{}
}

func (m *Mutex) TryLock() bool {
	vsched.Point()
	select {
	case m.c() <- struct{}{}:
		return true
	default:
		return false
	}
}

func (m *Mutex) Unlock() {
	vsched.Point()
	select {
	case <-m.c():
	default:
		panic("sync: unlock of unlocked mutex")
	}
}

// RWMutex replaces sync.RWMutex. Readers are counted under a mutex; the first
// one takes the write lock.
type RWMutex struct {
	w, r    Mutex
	readers int
}

func (m *RWMutex) Lock()         { m.w.Lock() }
func (m *RWMutex) TryLock() bool { return m.w.TryLock() }
func (m *RWMutex) Unlock()       { m.w.Unlock() }

func (m *RWMutex) RLock() {
	m.r.Lock()
	if m.readers == 0 {
		m.w.Lock()
	}
	m.readers++
	m.r.Unlock()
}

func (m *RWMutex) TryRLock() bool {
	m.r.Lock()
	defer m.r.Unlock()
	if m.readers == 0 && !m.w.TryLock() {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	m.r.Lock()
	if m.readers--; m.readers < 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	if m.readers == 0 {
		m.w.Unlock()
	}
	m.r.Unlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool replaces sync.Pool: last in, first out, never dropping anything, which
// is the reuse a caller has to be prepared for.
type Pool struct {
	New func() any
	m   Mutex
	l   []any
}

func (p *Pool) Get() any {
	p.m.Lock()
	if n := len(p.l); n > 0 {
		v := p.l[n-1]
		p.l = p.l[:n-1]
		p.m.Unlock()
		return v
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	p.m.Lock()
	p.l = append(p.l, v)
	p.m.Unlock()
}

// Cond replaces sync.Cond.
type Cond struct {
	L       Locker
	m       Mutex
	waiting []chan struct{}
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	ch := make(chan struct{})
	c.m.Lock()
	c.waiting = append(c.waiting, ch)
	c.m.Unlock()
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.m.Lock()
	if len(c.waiting) > 0 {
		close(c.waiting[0])
		c.waiting = c.waiting[1:]
	}
	c.m.Unlock()
}

func (c *Cond) Broadcast() {
	c.m.Lock()
	for _, ch := range c.waiting {
		close(ch)
	}
	c.waiting = nil
	c.m.Unlock()
}
