// Package sync is sync with blocking decided by the simulator.
package sync

import (
	"sync"
	"zsim/core"
)

type Locker = sync.Locker

type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	core.Yield()
	if core.Dead() {
		return
	}
	for m.held {
		core.Block(func() bool { return !m.held }, false)
	}
	m.held = true
}
func (m *Mutex) TryLock() bool {
	core.Yield()
	if m.held {
		return false
	}
	m.held = true
	return true
}
func (m *Mutex) Unlock() {
	if core.Dead() {
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	core.Yield()
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	core.Yield()
	if core.Dead() {
		return
	}
	for m.w || m.r > 0 {
		core.Block(func() bool { return !m.w && m.r == 0 }, false)
	}
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	if core.Dead() {
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	core.Yield()
}
func (m *RWMutex) RLock() {
	core.Yield()
	if core.Dead() {
		return
	}
	for m.w {
		core.Block(func() bool { return !m.w }, false)
	}
	m.r++
}
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) RUnlock() {
	if core.Dead() {
		return
	}
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	core.Yield()
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() {
	if core.Dead() {
		return
	}
	w.Add(-1)
	core.Yield()
}
func (w *WaitGroup) Wait() {
	core.Yield()
	if core.Dead() {
		return
	}
	core.Block(func() bool { return w.n == 0 }, false)
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	core.Go(func() { defer w.Done(); f() })
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	core.Yield()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type Cond struct {
	L    Locker
	wait []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	if core.Dead() {
		return
	}
	f := new(bool)
	c.wait = append(c.wait, f)
	c.L.Unlock()
	core.Block(func() bool { return *f }, false)
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.wait) > 0 {
		*c.wait[0] = true
		c.wait = c.wait[1:]
	}
}
func (c *Cond) Broadcast() {
	for len(c.wait) > 0 {
		c.Signal()
	}
}

// Pool reuses or drops items as the ambient randomness decides.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x != nil {
		p.items = append(p.items, x)
	}
}

// Map is a plain map: only one task runs at a time.
type Map struct{ m map[any]any }

func (m *Map) Load(k any) (any, bool) { core.Yield(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any) {
	core.Yield()
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	core.Yield()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) { v, ok := m.m[k]; delete(m.m, k); return v, ok }
func (m *Map) Delete(k any)                    { delete(m.m, k) }
func (m *Map) Swap(k, v any) (any, bool)       { x, ok := m.m[k]; m.Store(k, v); return x, ok }
func (m *Map) CompareAndSwap(k, old, new any) bool {
	if x, ok := m.m[k]; ok && x == old {
		m.m[k] = new
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	if x, ok := m.m[k]; ok && x == old {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range core.MapKeys(m.m) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() { m.m = nil }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}
