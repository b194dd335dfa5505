// Package zz_verif_simsync stands in for package sync in the instrumented packages: the
// same types and guarantees, but a thread that has to wait hands the baton on instead
// of stopping the process.  The real primitives underneath give the race detector the
// happens-before edges the program is entitled to, and no others.
package zz_verif_simsync

import (
	"sync"
	"unsafe"

	sched "github.com/kwilteam/kuneiform/zz_verif_simsched"
)

type Locker = sync.Locker
type Map = sync.Map

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) addr() uintptr { return uintptr(unsafe.Pointer(m)) }
func (m *Mutex) Lock() {
	for !m.mu.TryLock() {
		if !sched.Block(m.addr()) {
			m.mu.Lock()
			return
		}
	}
}
func (m *Mutex) TryLock() bool { return m.mu.TryLock() }
func (m *Mutex) Unlock()       { m.mu.Unlock(); sched.Wake(m.addr()); sched.H(0) }

// RWMutex: as in the standard library, a writer that waits keeps new readers out.
type RWMutex struct {
	mu      sync.RWMutex
	writers counter
}

func (m *RWMutex) addr() uintptr { return uintptr(unsafe.Pointer(m)) }
func (m *RWMutex) Lock() {
	if m.mu.TryLock() {
		return
	}
	m.writers.add(1)
	for !m.mu.TryLock() {
		if !sched.Block(m.addr()) {
			m.mu.Lock()
			break
		}
	}
	m.writers.add(-1)
}
func (m *RWMutex) RLock() {
	for m.writers.add(0) > 0 || !m.mu.TryRLock() {
		if !sched.Block(m.addr()) {
			m.mu.RLock()
			return
		}
	}
}
func (m *RWMutex) TryLock() bool  { return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.writers.add(0) == 0 && m.mu.TryRLock() }
func (m *RWMutex) Unlock()        { m.mu.Unlock(); sched.Wake(m.addr()); sched.H(0) }
func (m *RWMutex) RUnlock()       { m.mu.RUnlock(); sched.Wake(m.addr()); sched.H(0) }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once: as in the standard library, on the mutex above.
type Once struct {
	m    Mutex
	done onceFlag
}

func (o *Once) Do(f func()) {
	if o.done.get() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.get() {
		defer o.done.set()
		f()
	}
}

func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p any
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}
func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	g := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { g(); return r1, r2 }
}

type WaitGroup struct {
	wg sync.WaitGroup
	n  counter
}

func (w *WaitGroup) addr() uintptr { return uintptr(unsafe.Pointer(w)) }
func (w *WaitGroup) Add(d int) {
	w.wg.Add(d)
	if w.n.add(d) == 0 {
		sched.Wake(w.addr())
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go sched.Wrap(func() { defer w.Done(); f() })()
}
func (w *WaitGroup) Wait() {
	for w.n.add(0) > 0 {
		if !sched.Block(w.addr()) {
			break
		}
	}
	w.wg.Wait()
}

type Cond struct {
	L       Locker
	tickets []*Mutex // each waiter's own mutex, locked until it is signalled
	m       sync.Mutex
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	t := new(Mutex)
	t.Lock()
	c.m.Lock()
	c.tickets = append(c.tickets, t)
	c.m.Unlock()
	c.L.Unlock()
	t.Lock()
	t.Unlock()
	c.L.Lock()
}
func (c *Cond) Signal() {
	c.m.Lock()
	var t *Mutex
	if len(c.tickets) > 0 {
		t, c.tickets = c.tickets[0], c.tickets[1:]
	}
	c.m.Unlock()
	if t != nil {
		t.Unlock()
	}
}
func (c *Cond) Broadcast() {
	c.m.Lock()
	ts := c.tickets
	c.tickets = nil
	c.m.Unlock()
	for _, t := range ts {
		t.Unlock()
	}
}

// Pool: last in, first out, never drops anything.  An item carries its own edge from
// Put to Get.
type Pool struct {
	New   func() any
	items [64]poolItem
	n     counter
}
type poolItem struct {
	e sync.Mutex
	x any
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.push(x)
	sched.H(0)
}

//go:norace
func (p *Pool) push(x any) {
	i := p.n.add(0)
	if i >= len(p.items) {
		return
	}
	p.items[i].e.Lock()
	p.items[i].x = x
	p.items[i].e.Unlock()
	p.n.add(1)
}

//go:norace
func (p *Pool) pop() any {
	i := p.n.add(0)
	if i == 0 {
		return nil
	}
	p.n.add(-1)
	p.items[i-1].e.Lock()
	x := p.items[i-1].x
	p.items[i-1].x = nil
	p.items[i-1].e.Unlock()
	return x
}
func (p *Pool) Get() any {
	if x := p.pop(); x != nil {
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

type counter struct{ v int }

//go:norace
func (c *counter) add(d int) int { c.v += d; return c.v }
