//go:build go1.22

// Package vksync is package sync for the controlled scheduler. The real primitives are used as well (uncontended), so
// that the race detector sees exactly the happens-before edges of the code under test.
package vksync

import (
	rs "sync"

	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vksched"
)

type (
	Locker = rs.Locker
	Map    = rs.Map
	Pool   = rs.Pool
)

// Mutex is sync.Mutex.
type Mutex struct {
	held bool
	m    rs.Mutex
}

//go:norace
func (m *Mutex) Ready() bool { return !m.held }

//go:norace
func (m *Mutex) Lock() {
	if vksched.Aborting() {
		return
	}
	vksched.P()
	if m.held {
		vksched.Block(m)
	}
	m.held = true
	m.m.Lock()
}

//go:norace
func (m *Mutex) TryLock() bool {
	vksched.P()
	if m.held {
		return false
	}
	m.held = true
	m.m.Lock()
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if vksched.Aborting() {
		return
	}
	vksched.P()
	if !m.held {
		vksched.Fault("sync: unlock of unlocked mutex")
		return
	}
	m.m.Unlock()
	m.held = false
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	w       bool
	r, wait int
	m       rs.RWMutex
}
type rwR struct{ m *RWMutex }
type rwW struct{ m *RWMutex }

//go:norace
func (x rwR) Ready() bool { return !x.m.w && x.m.wait == 0 }

//go:norace
func (x rwW) Ready() bool { return !x.m.w && x.m.r == 0 }

//go:norace
func (m *RWMutex) RLock() {
	if vksched.Aborting() {
		return
	}
	vksched.P()
	if m.w || m.wait > 0 {
		vksched.Block(rwR{m})
	}
	m.r++
	m.m.RLock()
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	vksched.P()
	if m.w || m.wait > 0 {
		return false
	}
	m.r++
	m.m.RLock()
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if vksched.Aborting() {
		return
	}
	vksched.P()
	if m.r == 0 {
		vksched.Fault("sync: RUnlock of unlocked RWMutex")
		return
	}
	m.m.RUnlock()
	m.r--
}

//go:norace
func (m *RWMutex) Lock() {
	if vksched.Aborting() {
		return
	}
	vksched.P()
	if m.w || m.r > 0 {
		m.wait++ // a waiting writer keeps new readers out
		vksched.Block(rwW{m})
		m.wait--
	}
	m.w = true
	m.m.Lock()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	vksched.P()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	m.m.Lock()
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if vksched.Aborting() {
		return
	}
	vksched.P()
	if !m.w {
		vksched.Fault("sync: Unlock of unlocked RWMutex")
		return
	}
	m.m.Unlock()
	m.w = false
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	g := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { g() }
}

func OnceValue[T any](f func() T) func() T {
	g := OnceValues(func() (T, struct{}) { return f(), struct{}{} })
	return func() T { v, _ := g(); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var once Once
	var ok bool
	var p any
	var a T1
	var b T2
	return func() (T1, T2) {
		once.Do(func() {
			defer func() {
				p = recover()
				if !ok {
					panic(p)
				}
			}()
			a, b = f()
			ok = true
		})
		if !ok {
			panic(p)
		}
		return a, b
	}
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n  int
	wg rs.WaitGroup
}

//go:norace
func (w *WaitGroup) Ready() bool { return w.n == 0 }

//go:norace
func (w *WaitGroup) Add(d int) {
	if vksched.Aborting() {
		return
	}
	vksched.P()
	w.wg.Add(d)
	w.n += d
}
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if vksched.Aborting() {
		return
	}
	vksched.P()
	if w.n > 0 {
		vksched.Block(w)
	}
	w.wg.Wait()
}

// Cond is sync.Cond.
type Cond struct {
	L       Locker
	waiting []*ticket
}
type ticket struct{ ok bool }

//go:norace
func (t *ticket) Ready() bool { return t.ok }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	t := new(ticket)
	c.waiting = append(c.waiting, t)
	c.L.Unlock()
	vksched.Block(t)
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	vksched.P()
	if len(c.waiting) > 0 {
		c.waiting[0].ok = true
		c.waiting = c.waiting[1:]
	}
}

//go:norace
func (c *Cond) Broadcast() {
	vksched.P()
	for _, t := range c.waiting {
		t.ok = true
	}
	c.waiting = nil
}
