// Package ssync replaces package sync in instrumented sources: locks whose
// waiting and hand-over the simulator decides.
package ssync

import (
	stdsync "sync"

	"verif.local/sim/vsim"
)

// Locker is sync.Locker.
type Locker = stdsync.Locker

const (
	locLock = 0xf0000001 + iota
	locUnlock
	locRLock
	locRUnlock
	locOnce
	locPool
	locWG
	locMap
)

// Mutex replaces sync.Mutex.
type Mutex struct {
	locked bool
	std    stdsync.Mutex
	real   bool
}

func (m *Mutex) Lock() {
	if vsim.Active() == nil {
		m.std.Lock()
		m.real = true
		return
	}
	vsim.Yield(vsim.KSync, locLock)
	if m.real {
		// taken outside the simulation (a background goroutine of a library)
		m.std.Lock()
		m.std.Unlock()
	}
	vsim.Block("mutex", func() bool { return !m.locked })
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	if vsim.Active() == nil {
		if m.std.TryLock() {
			m.real = true
			return true
		}
		return false
	}
	vsim.Yield(vsim.KSync, locLock)
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if m.real && !m.locked {
		m.real = false
		m.std.Unlock()
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	vsim.Yield(vsim.KSync, locUnlock)
}

// RWMutex replaces sync.RWMutex, with the same writer preference: a waiting
// writer holds off new readers.
type RWMutex struct {
	w       bool
	readers int
	waiting int
	std     stdsync.RWMutex
	realW   bool
	realR   int
	realMu  stdsync.Mutex
}

func (m *RWMutex) Lock() {
	if vsim.Active() == nil {
		m.std.Lock()
		m.realW = true
		return
	}
	vsim.Yield(vsim.KSync, locLock)
	if m.w || m.readers > 0 {
		m.waiting++
		func() {
			defer func() { m.waiting-- }()
			vsim.Block("rwmutex(w)", func() bool { return !m.w && m.readers == 0 })
		}()
	}
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	if vsim.Active() == nil {
		if m.std.TryLock() {
			m.realW = true
			return true
		}
		return false
	}
	vsim.Yield(vsim.KSync, locLock)
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if m.realW && !m.w {
		m.realW = false
		m.std.Unlock()
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	vsim.Yield(vsim.KSync, locUnlock)
}

func (m *RWMutex) RLock() {
	if vsim.Active() == nil {
		m.std.RLock()
		m.realMu.Lock()
		m.realR++
		m.realMu.Unlock()
		return
	}
	vsim.Yield(vsim.KSync, locRLock)
	vsim.Block("rwmutex(r)", func() bool { return !m.w && m.waiting == 0 })
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	if vsim.Active() == nil {
		if m.std.TryRLock() {
			m.realMu.Lock()
			m.realR++
			m.realMu.Unlock()
			return true
		}
		return false
	}
	vsim.Yield(vsim.KSync, locRLock)
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		m.realMu.Lock()
		r := m.realR
		if r > 0 {
			m.realR--
		}
		m.realMu.Unlock()
		if r > 0 {
			m.std.RUnlock()
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	vsim.Yield(vsim.KSync, locRUnlock)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	vsim.Yield(vsim.KSync, locOnce)
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc replaces sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue replaces sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues replaces sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool replaces sync.Pool. It is a plain stack, so that a value put back is the
// next one handed out: the reuse a use-after-put would be exposed by.
type Pool struct {
	New func() any
	mu  stdsync.Mutex
	s   []any
	run uint64
}

// fresh drops what an earlier run left, so that a run depends on nothing but
// its own decisions. The caller holds mu.
func (p *Pool) fresh() {
	if r := vsim.RunID(); p.run != r {
		p.run = r
		p.s = nil
	}
}

func (p *Pool) Get() any {
	vsim.Yield(vsim.KSync, locPool)
	p.mu.Lock()
	p.fresh()
	var v any
	if n := len(p.s); n > 0 {
		v = p.s[n-1]
		p.s = p.s[:n-1]
	}
	p.mu.Unlock()
	if v == nil && p.New != nil {
		v = p.New()
	}
	return v
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	// Poisoned, as the next owner would overwrite it: a reader that kept the
	// buffer sees garbage at once.
	switch b := x.(type) {
	case *[]byte:
		poison(*b)
	case []byte:
		poison(b)
	}
	p.mu.Lock()
	p.fresh()
	p.s = append(p.s, x)
	p.mu.Unlock()
	vsim.Yield(vsim.KSync, locPool)
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n   int
	std stdsync.WaitGroup
}

func (w *WaitGroup) Add(d int) {
	if vsim.Active() == nil {
		w.std.Add(d)
		return
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	vsim.Yield(vsim.KSync, locWG)
}

func (w *WaitGroup) Done() {
	if vsim.Active() == nil {
		w.std.Done()
		return
	}
	w.Add(-1)
}

func (w *WaitGroup) Wait() {
	if vsim.Active() == nil {
		w.std.Wait()
		return
	}
	vsim.Block("waitgroup", func() bool { return w.n == 0 })
}

// Go replaces sync.WaitGroup.Go.
func (w *WaitGroup) Go(f func()) {
	if vsim.Active() == nil {
		w.std.Go(f)
		return
	}
	w.Add(1)
	vsim.GoStmt(func() { defer w.Done(); f() })
}

// Cond replaces sync.Cond.
type Cond struct {
	L    Locker
	std  *stdsync.Cond
	gen  int
	wait []*int
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l, std: stdsync.NewCond(l)} }

func (c *Cond) Wait() {
	if vsim.Active() == nil {
		c.std.Wait()
		return
	}
	woken := new(int)
	c.wait = append(c.wait, woken)
	c.L.Unlock()
	vsim.Block("cond", func() bool { return *woken == 1 })
	c.L.Lock()
}

func (c *Cond) Signal() {
	if vsim.Active() == nil {
		c.std.Signal()
		return
	}
	if len(c.wait) > 0 {
		*c.wait[0] = 1
		c.wait = c.wait[1:]
	}
	vsim.Yield(vsim.KSync, locLock)
}

func (c *Cond) Broadcast() {
	if vsim.Active() == nil {
		c.std.Broadcast()
		return
	}
	for _, w := range c.wait {
		*w = 1
	}
	c.wait = nil
	vsim.Yield(vsim.KSync, locLock)
}

// Map replaces sync.Map.
type Map struct{ std stdsync.Map }

func (m *Map) Load(k any) (any, bool) { vsim.Yield(vsim.KSync, locMap); return m.std.Load(k) }
func (m *Map) Store(k, v any)         { vsim.Yield(vsim.KSync, locMap); m.std.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	vsim.Yield(vsim.KSync, locMap)
	return m.std.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	vsim.Yield(vsim.KSync, locMap)
	return m.std.LoadAndDelete(k)
}
func (m *Map) Delete(k any) { vsim.Yield(vsim.KSync, locMap); m.std.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	vsim.Yield(vsim.KSync, locMap)
	return m.std.Swap(k, v)
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	vsim.Yield(vsim.KSync, locMap)
	return m.std.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool {
	vsim.Yield(vsim.KSync, locMap)
	return m.std.CompareAndDelete(k, o)
}
func (m *Map) Range(f func(k, v any) bool) { m.std.Range(f) }
func (m *Map) Clear()                      { m.std.Clear() }

func poison(b []byte) {
	if vsim.Active() == nil {
		return
	}
	b = b[:cap(b)]
	if len(b) > 4096 {
		b = b[:4096]
	}
	for i := range b {
		b[i] = 0xDB
	}
}
