// Package sync stands in for sync: the same operations, each a scheduling
// point. Blocking operations block in the scheduler. The happens-before edges
// are those of the real operations, made by real ones.
package sync

import (
	"sync"
	"sync/atomic"

	"verifmc/sched"
)

type Locker = sync.Locker

// ---- Mutex ----

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	sched.Point(sched.KLock)
	for !m.m.TryLock() {
		sched.Block(m)
	}
}

func (m *Mutex) TryLock() bool {
	sched.Point(sched.KLock)
	return m.m.TryLock()
}

func (m *Mutex) Unlock() {
	m.m.Unlock()
	sched.Wake(m)
	sched.Point(sched.KUnlock)
}

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	sched.Point(sched.KLock)
	for !m.m.TryLock() {
		sched.Block(m)
	}
}

func (m *RWMutex) TryLock() bool { sched.Point(sched.KLock); return m.m.TryLock() }

func (m *RWMutex) Unlock() {
	m.m.Unlock()
	sched.Wake(m)
	sched.Point(sched.KUnlock)
}

func (m *RWMutex) RLock() {
	sched.Point(sched.KLock)
	for !m.m.TryRLock() {
		sched.Block(m)
	}
}

func (m *RWMutex) TryRLock() bool { sched.Point(sched.KLock); return m.m.TryRLock() }

func (m *RWMutex) RUnlock() {
	m.m.RUnlock()
	sched.Wake(m)
	sched.Point(sched.KUnlock)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// ---- Once ----

type Once struct {
	done atomic.Bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	sched.Point(sched.KLock)
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p any
	return func() {
		once.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			f()
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	g := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { g(); return r1, r2 }
}

// ---- WaitGroup, Cond ----

type WaitGroup struct {
	w sync.WaitGroup
	n atomic.Int64
}

func (w *WaitGroup) Add(d int) {
	sched.Point(sched.KOther)
	w.n.Add(int64(d))
	w.w.Add(d)
	sched.Wake(w)
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	sched.Point(sched.KOther)
	for w.n.Load() > 0 {
		sched.Block(w)
	}
	w.w.Wait()
}

type Cond struct {
	L Locker
	n atomic.Int64 // signals
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	seen := c.n.Load()
	c.L.Unlock()
	for c.n.Load() == seen {
		sched.Block(c)
	}
	c.L.Lock()
}

// Signal wakes all: allowed spurious wake-ups are not, but waiting in a loop is the rule.
func (c *Cond) Signal() { c.Broadcast() }

func (c *Cond) Broadcast() {
	sched.Point(sched.KOther)
	c.n.Add(1)
	sched.Wake(c)
}

// ---- Map ----

type Map struct{ m sync.Map }

func pt() { sched.Point(sched.KMap) }

func (m *Map) Load(k any) (any, bool)              { pt(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                      { pt(); m.m.Store(k, v) }
func (m *Map) Clear()                              { pt(); m.m.Clear() }
func (m *Map) LoadOrStore(k, v any) (any, bool)    { pt(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)     { pt(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                        { pt(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)           { pt(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, old, new any) bool { pt(); return m.m.CompareAndSwap(k, old, new) }
func (m *Map) CompareAndDelete(k, old any) bool    { pt(); return m.m.CompareAndDelete(k, old) }
func (m *Map) Range(f func(k, v any) bool)         { pt(); m.m.Range(f) }

// ---- Pool ----

const poolSize = 64

// Pool gives back what was put last, or on the explorer's decision what was
// put first, or a new object (as after a garbage collection). An object's Put
// happens before the Get that returns it, and nothing else is ordered.
type Pool struct {
	New func() any

	items      [poolSize]*poolItem
	n          int
	registered bool
}

type poolItem struct {
	v    any
	sync atomic.Int32
}

var (
	pools  [256]*Pool
	npools int
)

//go:norace
func (p *Pool) register() {
	if !p.registered && npools < len(pools) {
		p.registered = true
		pools[npools] = p
		npools++
	}
}

//go:norace
func (p *Pool) push(it *poolItem) {
	p.register()
	if p.n < poolSize {
		p.items[p.n] = it
		p.n++
	}
}

//go:norace
func (p *Pool) pop() *poolItem {
	p.register()
	if p.n == 0 {
		return nil
	}
	options := 2
	if p.n > 1 && sched.PoolOldest {
		options = 3
	}
	switch sched.Choose(options) {
	case 1:
		return nil
	case 2:
		it := p.items[0]
		for i := 1; i < p.n; i++ {
			p.items[i-1] = p.items[i]
		}
		p.n--
		return it
	}
	p.n--
	return p.items[p.n]
}

func (p *Pool) Get() any {
	sched.Point(sched.KPoolGet)
	if it := p.pop(); it != nil {
		it.sync.Load()
		return it.v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	sched.Point(sched.KPoolPut)
	it := &poolItem{v: v}
	it.sync.Store(1)
	p.push(it)
}

// Drain empties all pools.
//
//go:norace
func Drain() {
	for i := 0; i < npools; i++ {
		p := pools[i]
		for j := range p.items {
			p.items[j] = nil
		}
		p.n = 0
	}
}
