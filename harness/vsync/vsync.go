// Package vsync stands in for sync in the code under test.
package vsync

import (
	"sync"
	"unsafe"

	"go.f110.dev/go-memcached/internal/zverif/vsched"
)

type Locker = sync.Locker

// Mutex: in a controlled execution Lock is a blocking scheduling point.
type Mutex struct {
	real sync.Mutex
	ex   *vsched.Exec
	held bool
	wait []*waiter
}

// waiter is a Lock under way. Like the real one, the mutex is handed to a waiter
// of more than a millisecond which another has overtaken.
type waiter struct {
	since int64
	lost  bool
}

func (m *Mutex) sync() {
	if c := vsched.Current(); m.ex != c {
		m.ex, m.held, m.wait = c, false, nil
	}
}

// free reports whether w may take the mutex.
func (m *Mutex) free(w *waiter) bool {
	if m.held {
		return false
	}
	for _, o := range m.wait {
		if o == w {
			return true
		}
		if o.lost {
			return false
		}
	}
	return true
}

func (m *Mutex) take(w *waiter) {
	m.held = true
	if len(m.wait) == 1 && m.wait[0] == w {
		m.wait = m.wait[:0]
		return
	}
	now := vsched.Now()
	out := m.wait[:0]
	for _, o := range m.wait {
		if o != w {
			if now-o.since > 1e6 {
				o.lost = true
			}
			out = append(out, o)
		}
	}
	m.wait = out
}

func (m *Mutex) Lock() {
	if !vsched.Active() {
		m.real.Lock()
		return
	}
	m.sync()
	vsched.Point("lock")
	w := &waiter{since: vsched.Now()}
	m.wait = append(m.wait, w)
	vsched.Block(func() bool { return m.free(w) }, "mutex lock")
	m.take(w)
	vsched.Acquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	if !vsched.Active() {
		return m.real.TryLock()
	}
	m.sync()
	vsched.Point("trylock")
	if !m.free(nil) {
		return false
	}
	m.take(nil)
	vsched.Acquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	if !vsched.Active() {
		m.real.Unlock()
		return
	}
	if vsched.Killing() {
		return
	}
	m.sync()
	if !m.held {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.held = false
	vsched.Release(unsafe.Pointer(m))
	vsched.Point("unlock")
}

type RWMutex struct {
	real    sync.RWMutex
	ex      *vsched.Exec
	w       bool
	r       int
	pending int
}

func (m *RWMutex) sync() {
	if c := vsched.Current(); m.ex != c {
		m.ex, m.w, m.r, m.pending = c, false, 0, 0
	}
}

func (m *RWMutex) Lock() {
	if !vsched.Active() {
		m.real.Lock()
		return
	}
	m.sync()
	vsched.Point("lock")
	m.pending++
	vsched.Block(func() bool { return !m.w && m.r == 0 }, "rwmutex lock")
	m.pending--
	m.w = true
	m.acquireW()
}

// A writer comes after earlier writers (address of m) and readers (address of
// m.r), a reader only after earlier writers.
func (m *RWMutex) acquireW() {
	vsched.Acquire(unsafe.Pointer(m))
	vsched.Acquire(unsafe.Pointer(&m.r))
}

func (m *RWMutex) TryLock() bool {
	if !vsched.Active() {
		return m.real.TryLock()
	}
	m.sync()
	vsched.Point("trylock")
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	m.acquireW()
	return true
}

func (m *RWMutex) Unlock() {
	if !vsched.Active() {
		m.real.Unlock()
		return
	}
	if vsched.Killing() {
		return
	}
	m.sync()
	if !m.w {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	vsched.Release(unsafe.Pointer(m))
	vsched.Point("unlock")
}

func (m *RWMutex) RLock() {
	if !vsched.Active() {
		m.real.RLock()
		return
	}
	m.sync()
	vsched.Point("rlock")
	vsched.Block(func() bool { return !m.w && m.pending == 0 }, "rwmutex rlock")
	m.r++
	vsched.Acquire(unsafe.Pointer(m))
}

func (m *RWMutex) TryRLock() bool {
	if !vsched.Active() {
		return m.real.TryRLock()
	}
	m.sync()
	vsched.Point("tryrlock")
	if m.w || m.pending > 0 {
		return false
	}
	m.r++
	vsched.Acquire(unsafe.Pointer(m))
	return true
}

func (m *RWMutex) RUnlock() {
	if !vsched.Active() {
		m.real.RUnlock()
		return
	}
	if vsched.Killing() {
		return
	}
	m.sync()
	if m.r == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	vsched.Release(unsafe.Pointer(&m.r))
	vsched.Point("runlock")
}

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	ex   *vsched.Exec
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done {
		return
	}
	defer func() { o.done = true }()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct {
	real sync.WaitGroup
	n    int
}

func (w *WaitGroup) Add(d int) {
	if !vsched.Active() {
		w.real.Add(d)
		return
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	vsched.Release(unsafe.Pointer(w))
	vsched.Point("wg.add")
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if !vsched.Active() {
		w.real.Wait()
		return
	}
	vsched.Block(func() bool { return w.n == 0 }, "waitgroup")
	vsched.Acquire(unsafe.Pointer(w))
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L    Locker
	real *sync.Cond
	wait []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

func (c *Cond) Wait() {
	if !vsched.Active() {
		c.real.Wait()
		return
	}
	sig := false
	c.wait = append(c.wait, &sig)
	c.L.Unlock()
	vsched.Block(func() bool { return sig }, "cond wait")
	vsched.Acquire(unsafe.Pointer(c))
	c.L.Lock()
}
func (c *Cond) Signal() {
	if !vsched.Active() {
		c.real.Signal()
		return
	}
	if len(c.wait) > 0 {
		*c.wait[0] = true
		c.wait = c.wait[1:]
	}
	vsched.Release(unsafe.Pointer(c))
	vsched.Point("signal")
}
func (c *Cond) Broadcast() {
	if !vsched.Active() {
		c.real.Broadcast()
		return
	}
	for _, w := range c.wait {
		*w = true
	}
	c.wait = nil
	vsched.Release(unsafe.Pointer(c))
	vsched.Point("broadcast")
}

// Pool hands objects back last-in first-out, the order most likely to expose
// stale contents; with Opts.PoolNew a fresh object is an alternative.
type Pool struct {
	New  func() interface{}
	real sync.Pool
	ex   *vsched.Exec
	free []interface{}
}

func (p *Pool) sync() {
	if c := vsched.Current(); p.ex != c {
		p.ex, p.free = c, nil
	}
}

func (p *Pool) Get() interface{} {
	if !vsched.Active() {
		if v := p.real.Get(); v != nil {
			return v
		}
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	p.sync()
	if n := len(p.free); n > 0 {
		if vsched.PoolNewOn() && vsched.Choose(2, 1, "pool") == 1 {
			n = 0
		}
		if n > 0 {
			v := p.free[n-1]
			p.free = p.free[:n-1]
			vsched.Acquire(unsafe.Pointer(p))
			return v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v interface{}) {
	if v == nil {
		return
	}
	if !vsched.Active() {
		p.real.Put(v)
		return
	}
	if vsched.Killing() {
		return
	}
	p.sync()
	vsched.Release(unsafe.Pointer(p))
	p.free = append(p.free, v)
}

// Map is sync.Map with a scheduling point before every operation.
type Map struct{ m sync.Map }

func (m *Map) pt() {
	vsched.Point("map")
	vsched.Acquire(unsafe.Pointer(m))
	vsched.Release(unsafe.Pointer(m))
}

func (m *Map) Load(k any) (any, bool)           { m.pt(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { m.pt(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { m.pt(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { m.pt(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { m.pt(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { m.pt(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.pt()
	return m.m.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool { m.pt(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear()                         { m.pt(); m.m.Clear() }
func (m *Map) Range(f func(k, v any) bool) {
	m.pt()
	kv := map[any]any{}
	m.m.Range(func(k, v any) bool { kv[k] = v; return true })
	for _, k := range vsched.Keys(kv) {
		if !f(k, kv[k]) {
			return
		}
	}
}
