// Package sync replaces the standard sync package in instrumented code: every blocking operation is a
// scheduling point and every lock state belongs to the scheduler.
package sync

import (
	"runtime"
	"strconv"
	real "sync"
	"unsafe"

	"verif/mc/vs"
)

type Locker = real.Locker

func at(op string) string {
	_, file, line, ok := runtime.Caller(2)
	if !ok {
		return op
	}
	n := 0
	for i := len(file) - 1; i >= 0; i-- {
		if file[i] == '/' {
			if n++; n == 2 {
				file = file[i+1:]
				break
			}
		}
	}
	return op + " at " + file + ":" + strconv.Itoa(line)
}

func fatal(msg string) {
	if vs.Cur() == nil || vs.Cur().Proc == nil {
		panic("fatal error: " + msg)
	}
	vs.ExitProc(2, "fatal error: "+msg)
}

// Mutex: locked is touched by the scheduler only (outside an execution, by the only goroutine).
type Mutex struct {
	locked bool
	tok    byte
}

//go:norace
func (m *Mutex) get() bool { return m.locked }

//go:norace
func (m *Mutex) set(v bool) { m.locked = v }

func (m *Mutex) isFree() bool { return !m.get() }
func (m *Mutex) take()        { m.set(true) }

func (m *Mutex) lock(label string) {
	if vs.Cur() == nil {
		if m.get() {
			panic("deadlock: lock of a locked mutex outside an execution")
		}
		m.set(true)
		return
	}
	vs.Block(label, m.isFree, m.take)
	vs.Acquire(unsafe.Pointer(&m.tok))
}

func (m *Mutex) Lock() { m.lock(at("Lock")) }

func (m *Mutex) TryLock() bool {
	if vs.Cur() == nil {
		ok := !m.get()
		m.set(true)
		return ok
	}
	vs.Point("TryLock")
	_, _, ok := vs.CallX(func() (any, int, bool) {
		ok := !m.get()
		m.set(true)
		return nil, 0, ok
	})
	if ok {
		vs.Acquire(unsafe.Pointer(&m.tok))
	}
	return ok
}

func (m *Mutex) Unlock() {
	if vs.Cur() == nil {
		m.set(false)
		return
	}
	vs.Release(unsafe.Pointer(&m.tok))
	_, _, ok := vs.CallX(func() (any, int, bool) {
		ok := m.get()
		m.set(false)
		return nil, 0, ok
	})
	if !ok {
		fatal("sync: unlock of unlocked mutex")
	}
	if vs.Cfg().UnlockPts {
		vs.Point("after Unlock")
	}
}

// RWMutex: writer-preferring, as the real one.
type RWMutex struct {
	w       bool
	r       int
	waiting int
	tok     byte
	rtok    byte
}

//go:norace
func (m *RWMutex) canW() bool { return !m.w && m.r == 0 }

//go:norace
func (m *RWMutex) takeW() { m.w = true; m.waiting-- }

//go:norace
func (m *RWMutex) wait() { m.waiting++ }

//go:norace
func (m *RWMutex) canR() bool { return !m.w && m.waiting == 0 }

//go:norace
func (m *RWMutex) takeR() { m.r++ }

//go:norace
func (m *RWMutex) tryW() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

//go:norace
func (m *RWMutex) tryR() bool {
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	return true
}

//go:norace
func (m *RWMutex) relW() bool { ok := m.w; m.w = false; return ok }

//go:norace
func (m *RWMutex) relR() bool {
	if m.r <= 0 {
		return false
	}
	m.r--
	return true
}

func (m *RWMutex) Lock() {
	if vs.Cur() == nil {
		m.tryW()
		return
	}
	label := at("Lock")
	vs.Point(label)
	vs.Call(m.wait)
	vs.Block(label, m.canW, m.takeW)
	vs.Acquire(unsafe.Pointer(&m.tok))
	vs.Acquire(unsafe.Pointer(&m.rtok))
}

func (m *RWMutex) TryLock() bool {
	if vs.Cur() == nil {
		return m.tryW()
	}
	vs.Point("TryLock")
	_, _, ok := vs.CallX(func() (any, int, bool) { return nil, 0, m.tryW() })
	if ok {
		vs.Acquire(unsafe.Pointer(&m.tok))
		vs.Acquire(unsafe.Pointer(&m.rtok))
	}
	return ok
}

func (m *RWMutex) Unlock() {
	if vs.Cur() == nil {
		m.relW()
		return
	}
	vs.Release(unsafe.Pointer(&m.tok))
	if _, _, ok := vs.CallX(func() (any, int, bool) { return nil, 0, m.relW() }); !ok {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	if vs.Cfg().UnlockPts {
		vs.Point("after Unlock")
	}
}

func (m *RWMutex) RLock() {
	if vs.Cur() == nil {
		m.tryR()
		return
	}
	vs.Block(at("RLock"), m.canR, m.takeR)
	vs.Acquire(unsafe.Pointer(&m.tok))
}

func (m *RWMutex) TryRLock() bool {
	if vs.Cur() == nil {
		return m.tryR()
	}
	vs.Point("TryRLock")
	_, _, ok := vs.CallX(func() (any, int, bool) { return nil, 0, m.tryR() })
	if ok {
		vs.Acquire(unsafe.Pointer(&m.tok))
	}
	return ok
}

func (m *RWMutex) RUnlock() {
	if vs.Cur() == nil {
		m.relR()
		return
	}
	vs.Release(unsafe.Pointer(&m.rtok))
	if _, _, ok := vs.CallX(func() (any, int, bool) { return nil, 0, m.relR() }); !ok {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	if vs.Cfg().UnlockPts {
		vs.Point("after RUnlock")
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup.
type WaitGroup struct {
	n   int
	tok byte
}

//go:norace
func (w *WaitGroup) add(d int) int { w.n += d; return w.n }

//go:norace
func (w *WaitGroup) zero() bool { return w.n == 0 }

func (w *WaitGroup) Add(d int) {
	if vs.Cur() == nil {
		w.add(d)
		return
	}
	if d < 0 {
		vs.Release(unsafe.Pointer(&w.tok))
	}
	if _, n, _ := vs.CallX(func() (any, int, bool) { return nil, w.add(d), true }); n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if vs.Cur() == nil {
		return
	}
	vs.Block(at("Wait"), w.zero, nil)
	vs.Acquire(unsafe.Pointer(&w.tok))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vs.Go("WaitGroup.Go", func() {
		defer w.Done()
		f()
	})
}

// Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.lock(at("Once.Do"))
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v T1
	var w T2
	return func() (T1, T2) { o.Do(func() { v, w = f() }); return v, w }
}

// Cond.
type Cond struct {
	L       Locker
	waiters []*ticket
	tok     byte
}

type ticket struct{ ready bool }

//go:norace
func (t *ticket) isReady() bool { return t.ready }

//go:norace
func (c *Cond) push(t *ticket) { c.waiters = append(c.waiters, t) }

//go:norace
func (c *Cond) pop(all bool) {
	for len(c.waiters) > 0 {
		c.waiters[0].ready = true
		c.waiters = c.waiters[1:]
		if !all {
			return
		}
	}
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	t := &ticket{}
	label := at("Cond.Wait")
	vs.Call(func() { c.push(t) })
	c.L.Unlock()
	vs.Block(label, t.isReady, nil)
	vs.Acquire(unsafe.Pointer(&c.tok))
	c.L.Lock()
}

func (c *Cond) Signal() {
	vs.Release(unsafe.Pointer(&c.tok))
	vs.Point("Signal")
	vs.Call(func() { c.pop(false) })
}

func (c *Cond) Broadcast() {
	vs.Release(unsafe.Pointer(&c.tok))
	vs.Point("Broadcast")
	vs.Call(func() { c.pop(true) })
}

// Pool never drops its items.
type Pool struct {
	New   func() any
	m     real.Mutex
	items []any
}

func (p *Pool) Get() any {
	p.m.Lock()
	n := len(p.items)
	if n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.items = append(p.items, x)
	p.m.Unlock()
}

// Map keeps insertion order; each method is one atomic step.
type Map struct {
	mu   real.Mutex
	m    map[any]any
	keys []any
}

func (m *Map) step(f func()) {
	vs.Point("sync.Map")
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	f()
}

func (m *Map) put(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) Load(k any) (v any, ok bool) { m.step(func() { v, ok = m.m[k] }); return }
func (m *Map) Store(k, v any)              { m.step(func() { m.put(k, v) }) }
func (m *Map) Delete(k any)                { m.step(func() { m.del(k) }) }
func (m *Map) Clear()                      { m.step(func() { m.m = map[any]any{}; m.keys = nil }) }
func (m *Map) Swap(k, v any) (p any, ok bool) {
	m.step(func() { p, ok = m.m[k]; m.put(k, v) })
	return
}
func (m *Map) LoadOrStore(k, v any) (a any, loaded bool) {
	m.step(func() {
		if a, loaded = m.m[k]; !loaded {
			m.put(k, v)
			a = v
		}
	})
	return
}
func (m *Map) LoadAndDelete(k any) (v any, ok bool) {
	m.step(func() { v, ok = m.m[k]; m.del(k) })
	return
}
func (m *Map) CompareAndSwap(k, old, new any) (ok bool) {
	m.step(func() {
		if v, has := m.m[k]; has && v == old {
			m.put(k, new)
			ok = true
		}
	})
	return
}
func (m *Map) CompareAndDelete(k, old any) (ok bool) {
	m.step(func() {
		if v, has := m.m[k]; has && v == old {
			m.del(k)
			ok = true
		}
	})
	return
}
func (m *Map) Range(f func(k, v any) bool) {
	var ks []any
	m.step(func() { ks = append(ks, m.keys...) })
	for _, k := range ks {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}
