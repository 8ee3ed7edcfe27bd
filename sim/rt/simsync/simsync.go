// Package simsync stands in for package sync in the code under test: blocking
// parks the simulated task, and each primitive still performs the real
// synchronisation underneath so that the happens-before detector sees it.
package simsync

import (
	"sync"

	"verif.local/simrt"
)

type Locker = sync.Locker

// Map is sync.Map, ranging in an order the run decides. Only the entry's own
// lock orders a load after the store it observes, as the detector sees it.
// (sync.Map itself would be compiled into this package without the detector.)
type Map struct{ m map[any]*entry }

type entry struct {
	mu sync.RWMutex
	v  any
}

func (e *entry) get() any { e.mu.RLock(); defer e.mu.RUnlock(); return e.v }
func (e *entry) set(v any) (old any) {
	e.mu.Lock()
	defer e.mu.Unlock()
	old, e.v = e.v, v
	return old
}

//go:noinline
func (m *Map) find(k any) *entry { return m.m[k] }

//go:noinline
func (m *Map) add(k, v any) {
	if m.m == nil {
		m.m = map[any]*entry{}
	}
	e := &entry{}
	e.set(v)
	m.m[k] = e
}

//go:noinline
func (m *Map) remove(k any) { delete(m.m, k) }

func (m *Map) Load(k any) (any, bool) {
	simrt.Y(0)
	if e := m.find(k); e != nil {
		return e.get(), true
	}
	return nil, false
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.Y(0)
	if e := m.find(k); e != nil {
		return e.get(), true
	}
	m.add(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	simrt.Y(0)
	if e := m.find(k); e != nil {
		m.remove(k)
		return e.get(), true
	}
	return nil, false
}

func (m *Map) Delete(k any) { simrt.Y(0); m.remove(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	simrt.Y(0)
	if e := m.find(k); e != nil {
		return e.set(v), true
	}
	m.add(k, v)
	return nil, false
}

func (m *Map) CompareAndSwap(k, old, new any) bool {
	simrt.Y(0)
	if e := m.find(k); e != nil && e.get() == old {
		e.set(new)
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old any) bool {
	simrt.Y(0)
	if e := m.find(k); e != nil && e.get() == old {
		m.remove(k)
		return true
	}
	return false
}

func (m *Map) Clear() { simrt.Y(0); m.m = nil }

func (m *Map) Range(f func(k, v any) bool) {
	simrt.Y(0)
	for _, k := range simrt.MapKeys(m.m) {
		if e := m.find(k); e != nil && !f(k, e.get()) {
			return
		}
	}
}

type Mutex struct {
	mu   sync.Mutex
	held bool
}

//go:noinline
func (m *Mutex) Lock() {
	if simrt.InRun() {
		simrt.Y(0)
		simrt.Block("mutex", func() bool { return !m.held })
	}
	m.mu.Lock()
	m.held = true
}

//go:noinline
func (m *Mutex) TryLock() bool {
	simrt.Y(0)
	if m.held {
		simrt.Pass()
		return false
	}
	m.mu.Lock()
	m.held = true
	return true
}

//go:noinline
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	m.mu.Unlock()
	simrt.Y(0)
}

type RWMutex struct {
	mu sync.RWMutex
	w  bool
	r  int
	// A waiting writer keeps new readers out; the readers that wait when a
	// writer is done go before the next one.
	ww, rw   int // waiting writers, waiting readers
	gen, adm int // writers so far, readers to go before the next one
}

//go:noinline
func (m *RWMutex) Lock() {
	if simrt.InRun() {
		simrt.Y(0)
		m.ww++
		func() {
			defer func() { m.ww-- }()
			simrt.Block("rwmutex", func() bool { return !m.w && m.r == 0 && m.adm == 0 })
		}()
	}
	m.mu.Lock()
	m.w = true
}

//go:noinline
func (m *RWMutex) TryLock() bool {
	simrt.Y(0)
	if m.w || m.r > 0 || m.ww > 0 {
		simrt.Pass()
		return false
	}
	m.mu.Lock()
	m.w = true
	return true
}

//go:noinline
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.gen++
	m.adm = m.rw
	m.mu.Unlock()
	simrt.Y(0)
}

//go:noinline
func (m *RWMutex) RLock() {
	if simrt.InRun() {
		simrt.Y(0)
		if m.w || m.ww > 0 {
			gen := m.gen
			m.rw++
			func() {
				defer func() {
					m.rw--
					if m.adm > 0 {
						m.adm--
					}
				}()
				simrt.Block("rwmutex (read)", func() bool { return !m.w && (m.ww == 0 || m.gen != gen) })
			}()
		}
	}
	m.mu.RLock()
	m.r++
}

//go:noinline
func (m *RWMutex) TryRLock() bool {
	simrt.Y(0)
	if m.w || m.ww > 0 {
		simrt.Pass()
		return false
	}
	m.mu.RLock()
	m.r++
	return true
}

//go:noinline
func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	m.mu.RUnlock()
	simrt.Y(0)
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	// pub orders the first call before the return of all others. (An atomic
	// would not do: this package is compiled without the detector, and there
	// atomics are plain instructions.)
	pub  sync.Mutex
	done bool
	m    Mutex
}

func (o *Once) isDone() bool {
	o.pub.Lock()
	defer o.pub.Unlock()
	return o.done
}

func (o *Once) setDone() {
	o.pub.Lock()
	o.done = true
	o.pub.Unlock()
}

//go:noinline
func (o *Once) Do(f func()) {
	if o.isDone() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p interface{}
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var result T
	do := OnceFunc(func() { result = f() })
	return func() T {
		do()
		return result
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	do := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) {
		do()
		return r1, r2
	}
}

// Pool hands out pooled items in an order decided by the run, or a fresh one,
// as a garbage collection at any moment would make it.
type Pool struct {
	New   func() any
	items []*poolItem
}

type poolItem struct {
	mu sync.Mutex
	v  any
}

//go:noinline
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	simrt.Y(0)
	it := &poolItem{}
	it.mu.Lock()
	it.v = x
	it.mu.Unlock()
	if len(p.items) < 64 {
		p.items = append(p.items, it)
	}
}

//go:noinline
func (p *Pool) Get() any {
	simrt.Y(0)
	if n := len(p.items); n > 0 {
		i := 0
		drop := false
		if s := simrt.Active(); s != nil {
			drop = s.C.P(simrt.SPool, 1, 8)
			i = s.C.N(simrt.SPool, n)
		}
		if !drop {
			i = n - 1 - i
			it := p.items[i]
			p.items = append(p.items[:i:i], p.items[i+1:]...)
			it.mu.Lock()
			v := it.v
			it.mu.Unlock()
			return v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

type WaitGroup struct {
	wg sync.WaitGroup
	n  int
}

//go:noinline
func (w *WaitGroup) Add(d int) {
	if w.n+d < 0 {
		panic("sync: negative WaitGroup counter")
	}
	w.n += d
	w.wg.Add(d)
}

//go:noinline
func (w *WaitGroup) Done() { w.Add(-1); simrt.Y(0) }

//go:noinline
func (w *WaitGroup) Wait() {
	if simrt.InRun() {
		simrt.Y(0)
		simrt.Block("wait group", func() bool { return w.n == 0 })
	}
	w.wg.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L       Locker
	waiters []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:noinline
func (c *Cond) Wait() {
	woken := new(bool)
	c.waiters = append(c.waiters, woken)
	c.L.Unlock()
	simrt.Block("condition variable", func() bool { return *woken })
	c.L.Lock()
}

//go:noinline
func (c *Cond) Signal() {
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
	simrt.Y(0)
}

//go:noinline
func (c *Cond) Broadcast() {
	for _, w := range c.waiters {
		*w = true
	}
	c.waiters = nil
	simrt.Y(0)
}
