// Package simsync stands in for package sync in the code under test, so that a
// task waiting for a lock hands control to the scheduler instead of blocking
// the whole simulation. Each primitive keeps a real one inside, so the race
// detector sees the same happens-before edges.
package simsync

import (
	"sync"

	"verifsim/hook"
)

type Locker = sync.Locker

// Map is a sync.Map that is walked in an order of the simulator's choice.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { hook.Pass(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { hook.Pass(); m.m.Store(k, v) }
func (m *Map) Clear()                           { hook.Pass(); m.m.Clear() }
func (m *Map) LoadOrStore(k, v any) (any, bool) { hook.Pass(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { hook.Pass(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { hook.Pass(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { hook.Pass(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, old, new any) bool {
	hook.Pass()
	return m.m.CompareAndSwap(k, old, new)
}
func (m *Map) CompareAndDelete(k, old any) bool { hook.Pass(); return m.m.CompareAndDelete(k, old) }
func (m *Map) Range(f func(k, v any) bool) {
	keys := map[any]bool{}
	m.m.Range(func(k, _ any) bool { keys[k] = true; return true })
	for _, k := range hook.MapKeys(keys) {
		if v, ok := m.m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	hook.Pass()
	for !m.m.TryLock() {
		hook.Wait()
	}
}
func (m *Mutex) TryLock() bool { hook.Pass(); return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); hook.Pass() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	hook.Pass()
	for !m.m.TryLock() {
		hook.Wait()
	}
}
func (m *RWMutex) RLock() {
	hook.Pass()
	for !m.m.TryRLock() {
		hook.Wait()
	}
}
func (m *RWMutex) TryLock() bool  { hook.Pass(); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { hook.Pass(); return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock(); hook.Pass() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock(); hook.Pass() }
func (m *RWMutex) RLocker() Locker {
	return rlocker{m}
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	// One-time initialisation is the only kind of waiting that does not count.
	hook.Pass()
	for !o.m.m.TryLock() {
		hook.Block()
	}
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool hands back the most recently pooled value, the choice most likely to
// expose one value being used twice.
type Pool struct {
	New func() any
	m   sync.Mutex
	l   []any
}

func (p *Pool) Get() any {
	hook.Pass()
	p.m.Lock()
	var v any
	if n := len(p.l); n > 0 {
		v = p.l[n-1]
		p.l = p.l[:n-1]
	}
	p.m.Unlock()
	if v == nil && p.New != nil {
		v = p.New()
	}
	return v
}
func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	p.m.Lock()
	p.l = append(p.l, v)
	p.m.Unlock()
	hook.Pass()
}

type WaitGroup struct {
	m sync.Mutex
	n int
}

func (w *WaitGroup) Add(d int) { w.m.Lock(); w.n += d; w.m.Unlock() }
func (w *WaitGroup) Done()     { w.Add(-1); hook.Pass() }
func (w *WaitGroup) Wait() {
	for {
		w.m.Lock()
		n := w.n
		w.m.Unlock()
		if n <= 0 {
			return
		}
		hook.Block()
	}
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	hook.Go(func() {
		defer w.Done()
		f()
	})
}

// Cond wakes every waiter on any signal: waiters have to check their
// condition anyway.
type Cond struct {
	L Locker
	m sync.Mutex
	n uint64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) gen() uint64  { c.m.Lock(); defer c.m.Unlock(); return c.n }
func (c *Cond) Signal()      { c.Broadcast() }
func (c *Cond) Broadcast()   { c.m.Lock(); c.n++; c.m.Unlock(); hook.Pass() }
func (c *Cond) Wait() {
	n := c.gen()
	c.L.Unlock()
	for c.gen() == n {
		hook.Block()
	}
	c.L.Lock()
}
