// Package vsync stands in for package sync in verification builds: the operations are the real
// ones, but the controlled scheduler decides when a goroutine may carry them out.
package vsync

import (
	"reflect"
	"sync"
	"unsafe"

	v "github.com/xeipuuv/gojsonschema/verifshim"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is a sync.Mutex.
type Mutex struct {
	mu sync.Mutex
	o  v.Object
}

// VerifReset forgets the state.
//
//go:norace
func (m *Mutex) VerifReset() { m.mu, m.o = sync.Mutex{}, v.Object{} }

// Lock locks.
func (m *Mutex) Lock() {
	if w := v.Self(); w >= 0 {
		v.Register(&m.o, m)
		v.Point(w, v.OpMutex, &m.o)
	}
	m.mu.Lock()
}

// TryLock locks if possible.
func (m *Mutex) TryLock() bool {
	if w := v.Self(); w >= 0 {
		v.Register(&m.o, m)
		v.Point(w, v.OpNone, nil)
		if !v.Try(&m.o, v.OpMutex) {
			return false
		}
		m.mu.Lock()
		return true
	}
	return m.mu.TryLock()
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	m.mu.Unlock()
	if v.Self() >= 0 {
		v.Release(&m.o, v.OpMutex)
	}
}

// RWMutex is a sync.RWMutex.
type RWMutex struct {
	rw sync.RWMutex
	o  v.Object
}

// VerifReset forgets the state.
//
//go:norace
func (m *RWMutex) VerifReset() { m.rw, m.o = sync.RWMutex{}, v.Object{} }

// Lock locks for writing: from the moment it waits, new readers wait as well.
func (m *RWMutex) Lock() {
	if w := v.Self(); w >= 0 {
		v.Register(&m.o, m)
		v.Point(w, v.OpAnnounce, &m.o)
		if v.Waiting(&m.o) {
			v.Point(w, v.OpAcquire, &m.o)
		}
	}
	m.rw.Lock()
}

// TryLock locks for writing if possible.
func (m *RWMutex) TryLock() bool {
	if w := v.Self(); w >= 0 {
		v.Register(&m.o, m)
		v.Point(w, v.OpNone, nil)
		if !v.Try(&m.o, v.OpAnnounce) {
			return false
		}
		m.rw.Lock()
		return true
	}
	return m.rw.TryLock()
}

// Unlock unlocks.
func (m *RWMutex) Unlock() {
	m.rw.Unlock()
	if v.Self() >= 0 {
		v.Release(&m.o, v.OpAcquire)
	}
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if w := v.Self(); w >= 0 {
		v.Register(&m.o, m)
		v.Point(w, v.OpRLock, &m.o)
	}
	m.rw.RLock()
}

// TryRLock locks for reading if possible.
func (m *RWMutex) TryRLock() bool {
	if w := v.Self(); w >= 0 {
		v.Register(&m.o, m)
		v.Point(w, v.OpNone, nil)
		if !v.Try(&m.o, v.OpRLock) {
			return false
		}
		m.rw.RLock()
		return true
	}
	return m.rw.TryRLock()
}

// RUnlock unlocks.
func (m *RWMutex) RUnlock() {
	m.rw.RUnlock()
	if v.Self() >= 0 {
		v.Release(&m.o, v.OpRLock)
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is the reading side as a Locker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is a sync.Once.
type Once struct {
	once sync.Once
	o    v.Object
}

// VerifReset forgets that somebody is inside.
//
//go:norace
func (o *Once) VerifReset() {
	if o.o.N == 1 {
		o.once, o.o = sync.Once{}, v.Object{}
	}
}

// Do calls f the first time.
func (o *Once) Do(f func()) {
	if w := v.Self(); w >= 0 {
		v.Register(&o.o, o)
		v.Point(w, v.OpOnce, &o.o)
		o.once.Do(func() {
			defer v.Release(&o.o, v.OpOnce)
			f()
		})
		v.Release(&o.o, v.OpOnce)
		return
	}
	o.once.Do(f)
}

// WaitGroup is a sync.WaitGroup.
type WaitGroup struct{ wg sync.WaitGroup }

// Add adds.
func (g *WaitGroup) Add(n int) { g.wg.Add(n) }

// Done is Add(-1).
func (g *WaitGroup) Done() { g.wg.Done() }

// Go runs f in a goroutine.
func (g *WaitGroup) Go(f func()) {
	g.wg.Add(1)
	go func() {
		defer g.wg.Done()
		f()
	}()
}

// Wait waits.
func (g *WaitGroup) Wait() {
	if w := v.Self(); w >= 0 {
		v.NativeBegin(w)
		g.wg.Wait()
		v.NativeEnd(w)
		return
	}
	g.wg.Wait()
}

// Cond is a sync.Cond.
type Cond struct {
	L Locker
	c *sync.Cond
	m sync.Mutex
	n int
	k int
}

// NewCond makes a Cond.
func NewCond(l Locker) *Cond {
	c := &Cond{L: l}
	c.c = sync.NewCond(&c.m)
	return c
}

// Wait waits for a signal.
func (c *Cond) Wait() {
	c.m.Lock()
	ticket := c.n
	c.n++
	c.m.Unlock()
	c.L.Unlock()
	w := v.Self()
	if w >= 0 {
		v.NativeBegin(w)
	}
	c.m.Lock()
	for c.k <= ticket {
		c.c.Wait()
	}
	c.m.Unlock()
	if w >= 0 {
		v.NativeEnd(w)
	}
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() {
	c.m.Lock()
	if c.k < c.n {
		c.k++
	}
	c.c.Broadcast()
	c.m.Unlock()
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	c.m.Lock()
	c.k = c.n
	c.c.Broadcast()
	c.m.Unlock()
}

// Map is a sync.Map.
type Map struct{ m sync.Map }

// Load loads.
func (m *Map) Load(k interface{}) (interface{}, bool) { v.Yield(); return m.m.Load(k) }

// Store stores.
func (m *Map) Store(k, x interface{}) { v.Yield(); m.m.Store(k, x) }

// LoadOrStore loads or stores.
func (m *Map) LoadOrStore(k, x interface{}) (interface{}, bool) {
	v.Yield()
	return m.m.LoadOrStore(k, x)
}

// LoadAndDelete loads and deletes.
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	v.Yield()
	return m.m.LoadAndDelete(k)
}

// Delete deletes.
func (m *Map) Delete(k interface{}) { v.Yield(); m.m.Delete(k) }

// Swap swaps.
func (m *Map) Swap(k, x interface{}) (interface{}, bool) { v.Yield(); return m.m.Swap(k, x) }

// CompareAndSwap compares and swaps.
func (m *Map) CompareAndSwap(k, a, b interface{}) bool { v.Yield(); return m.m.CompareAndSwap(k, a, b) }

// CompareAndDelete compares and deletes.
func (m *Map) CompareAndDelete(k, a interface{}) bool { v.Yield(); return m.m.CompareAndDelete(k, a) }

// Clear clears.
func (m *Map) Clear() { v.Yield(); m.m.Clear() }

// Range visits the entries.
func (m *Map) Range(f func(k, x interface{}) bool) {
	v.Yield()
	m.m.Range(func(k, x interface{}) bool { v.Yield(); return f(k, x) })
}

// Pool is a pool that always reuses the object that was put last.
type Pool struct {
	New   func() interface{}
	mu    sync.Mutex
	items []interface{}
}

func addr(x interface{}) unsafe.Pointer {
	r := reflect.ValueOf(x)
	switch r.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Chan:
		return unsafe.Pointer(r.Pointer())
	}
	return nil
}

//go:norace
func (p *Pool) pop() (interface{}, bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x, true
	}
	return nil, false
}

//go:norace
func (p *Pool) push(x interface{}) {
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
}

// Get takes an object.
func (p *Pool) Get() interface{} {
	v.Yield()
	v.Hidden(true)
	x, ok := p.pop()
	v.Hidden(false)
	if ok {
		if a := addr(x); a != nil {
			v.RaceAcquire(a)
		}
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put gives an object back.
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	v.Yield()
	if a := addr(x); a != nil {
		v.RaceRelease(a)
	}
	v.Hidden(true)
	p.push(x)
	v.Hidden(false)
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
