// Package simsync: locks that park the cooperative task instead of the thread.
// The real locks are still taken (TryLock), so the race detector sees the
// happens-before edges they create.
package simsync

import (
	"sync"

	"github.com/hymkor/gmnlisp/zz_verif/simrt"
)

type Locker = sync.Locker

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	simrt.Tick()
	for !m.m.TryLock() {
		simrt.Block()
	}
}
func (m *Mutex) TryLock() bool { simrt.Tick(); return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); simrt.Tick() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	simrt.Tick()
	for !m.m.TryLock() {
		simrt.Block()
	}
}
func (m *RWMutex) RLock() {
	simrt.Tick()
	for !m.m.TryRLock() {
		simrt.Block()
	}
}
func (m *RWMutex) TryLock() bool  { simrt.Tick(); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { simrt.Tick(); return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock(); simrt.Tick() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock(); simrt.Tick() }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type WaitGroup struct {
	m Mutex
	n int
}

func (w *WaitGroup) Add(d int) { w.m.Lock(); w.n += d; w.m.Unlock() }
func (w *WaitGroup) Done()     { w.Add(-1) }
func (w *WaitGroup) Wait() {
	for {
		w.m.Lock()
		n := w.n
		w.m.Unlock()
		if n <= 0 {
			return
		}
		simrt.Block()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool gives back what was put last.
type Pool struct {
	New func() any
	m   Mutex
	l   []any
}

func (p *Pool) Get() any {
	p.m.Lock()
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.l = append(p.l, x)
	p.m.Unlock()
}

type Cond struct {
	L   Locker
	m   Mutex
	gen int
	one int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.m.Lock()
	gen := c.gen
	c.m.Unlock()
	c.L.Unlock()
	for {
		c.m.Lock()
		if c.gen != gen || c.one > 0 {
			if c.gen == gen {
				c.one--
			}
			c.m.Unlock()
			break
		}
		c.m.Unlock()
		simrt.Block()
	}
	c.L.Lock()
}
func (c *Cond) Signal()    { c.m.Lock(); c.one++; c.m.Unlock() }
func (c *Cond) Broadcast() { c.m.Lock(); c.gen++; c.one = 0; c.m.Unlock() }
