// Package simsync is package sync under the simulator.
package simsync

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"

	"dst/sim"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

func dead() bool { return sim.S == nil || sim.Dead() }

// Mutex is sync.Mutex.
type Mutex struct {
	held bool
	q    []*sim.Task
}

func (m *Mutex) Lock() {
	if dead() {
		return
	}
	sim.SyncPoint()
	m.lock("mutex")
}

func (m *Mutex) lock(why string) {
	for m.held {
		m.q = append(m.q, sim.Cur())
		sim.Block("lock " + why)
	}
	m.held = true
	sim.Acquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	if dead() {
		return true
	}
	sim.SyncPoint()
	if m.held {
		return false
	}
	m.held = true
	sim.Acquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	if dead() {
		return
	}
	if !m.held {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	sim.Release(unsafe.Pointer(m))
	m.unlock()
	sim.SyncPoint()
}

func (m *Mutex) unlock() {
	m.held = false
	if len(m.q) > 0 {
		t := m.q[0]
		m.q = m.q[1:]
		sim.Ready(t)
	}
}

// RWMutex is sync.RWMutex: a pending writer keeps new readers out; an unlocking
// writer lets the waiting readers in first.
type RWMutex struct {
	w       Mutex
	rc      byte
	active  bool
	pending bool
	readers int
	rq      []*sim.Task
	wt      *sim.Task
}

func (m *RWMutex) RLock() {
	if dead() {
		return
	}
	sim.SyncPoint()
	if m.active || m.pending {
		m.rq = append(m.rq, sim.Cur())
		sim.Block("rlock") // granted by Unlock
	} else {
		m.readers++
	}
	sim.Acquire(unsafe.Pointer(m))
}

func (m *RWMutex) TryRLock() bool {
	if dead() {
		return true
	}
	sim.SyncPoint()
	if m.active || m.pending {
		return false
	}
	m.readers++
	sim.Acquire(unsafe.Pointer(m))
	return true
}

func (m *RWMutex) RUnlock() {
	if dead() {
		return
	}
	if m.readers == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	sim.Release(unsafe.Pointer(&m.rc))
	m.readers--
	if m.readers == 0 && m.pending && m.wt != nil {
		t := m.wt
		m.wt = nil
		sim.Ready(t)
	}
	sim.SyncPoint()
}

func (m *RWMutex) Lock() {
	if dead() {
		return
	}
	sim.SyncPoint()
	m.w.lock("rwmutex")
	m.pending = true
	for m.readers > 0 {
		m.wt = sim.Cur()
		sim.Block("lock rwmutex (readers active)")
	}
	m.active = true
	sim.Acquire(unsafe.Pointer(m))
	sim.Acquire(unsafe.Pointer(&m.rc))
}

func (m *RWMutex) TryLock() bool {
	if dead() {
		return true
	}
	sim.SyncPoint()
	if m.w.held || m.readers > 0 {
		return false
	}
	m.w.held = true
	m.active, m.pending = true, true
	sim.Acquire(unsafe.Pointer(m))
	sim.Acquire(unsafe.Pointer(&m.rc))
	return true
}

func (m *RWMutex) Unlock() {
	if dead() {
		return
	}
	if !m.active {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	sim.Release(unsafe.Pointer(m))
	m.active, m.pending = false, false
	q := m.rq
	m.rq = nil
	for _, t := range q {
		m.readers++
		sim.Ready(t)
	}
	m.w.unlock()
	sim.SyncPoint()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker is RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n int
	q []*sim.Task
}

func (w *WaitGroup) Add(d int) {
	if dead() {
		return
	}
	sim.SyncPoint()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if d < 0 {
		sim.Release(unsafe.Pointer(w))
	}
	if w.n == 0 {
		for _, t := range w.q {
			sim.Ready(t)
		}
		w.q = nil
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if dead() {
		return
	}
	sim.SyncPoint()
	if w.n > 0 { // released when the counter reached zero
		w.q = append(w.q, sim.Cur())
		sim.Block("waitgroup")
	}
	sim.Acquire(unsafe.Pointer(w))
}

// Go is WaitGroup.Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sim.Go("waitgroup", func() { defer w.Done(); f() })
}

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if sim.S == nil {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	sim.SyncPoint()
	if o.done {
		sim.Acquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true; sim.Release(unsafe.Pointer(o)) }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// Cond is sync.Cond.
type Cond struct {
	L Locker
	q []*sim.Task
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if dead() {
		return
	}
	c.q = append(c.q, sim.Cur())
	me := sim.Cur()
	c.L.Unlock()
	for _, t := range c.q {
		if t == me {
			sim.Block("cond wait")
			break
		}
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	if dead() {
		return
	}
	sim.SyncPoint()
	if len(c.q) > 0 {
		t := c.q[0]
		c.q = c.q[1:]
		sim.Ready(t)
	}
}

func (c *Cond) Broadcast() {
	if dead() {
		return
	}
	sim.SyncPoint()
	for _, t := range c.q {
		sim.Ready(t)
	}
	c.q = nil
}

// Pool is sync.Pool.
type Pool struct {
	New func() any
	s   []any
}

func (p *Pool) Get() any {
	sim.SyncPoint()
	if n := len(p.s); n > 0 && sim.Choose(4) != 3 {
		v := p.s[n-1]
		p.s = p.s[:n-1]
		sim.Acquire(unsafe.Pointer(p))
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	sim.SyncPoint()
	sim.Release(unsafe.Pointer(p))
	p.s = append(p.s, v)
}

// Map is sync.Map.
type Map struct{ m map[any]any }

func (m *Map) sync() {
	sim.SyncPoint()
	sim.Acquire(unsafe.Pointer(m))
	sim.Release(unsafe.Pointer(m))
	if m.m == nil {
		m.m = map[any]any{}
	}
}
func (m *Map) Load(k any) (any, bool) { m.sync(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.sync(); m.m[sim.Key(k)] = v }
func (m *Map) Delete(k any)           { m.sync(); delete(m.m, k) }
func (m *Map) Clear()                 { m.sync(); clear(m.m) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.sync()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.m[sim.Key(k)] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.sync()
	x, ok := m.m[k]
	delete(m.m, k)
	return x, ok
}
func (m *Map) Swap(k, v any) (any, bool) {
	m.sync()
	x, ok := m.m[k]
	m.m[sim.Key(k)] = v
	return x, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.sync()
	if x, ok := m.m[k]; ok && x == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.sync()
	if x, ok := m.m[k]; ok && x == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.sync()
	keys := make([]any, 0, len(m.m))
	for k := range m.m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return rank(keys[i]) < rank(keys[j]) })
	for _, k := range keys {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}

func rank(k any) string {
	v := reflect.ValueOf(k)
	if v.Kind() == reflect.Chan || v.Kind() == reflect.Pointer {
		if sim.S != nil {
			return fmt.Sprintf("p%08d", sim.S.PtrID(v.UnsafePointer(), k))
		}
	}
	return fmt.Sprintf("%T%020v", k, k)
}
