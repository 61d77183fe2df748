// Package sync stands in for the standard package: pools recycle objects the
// way the simulator decides, and locks block simulated threads, not real ones.
package sync

import (
	"helena/verifsim/rt"
)

type Locker interface {
	Lock()
	Unlock()
}

// Pool hands out recycled objects in an order chosen by the simulator: the
// latest, any other, or a fresh one, and may drop what it is given, as the
// real one may at any time.
type Pool struct {
	New   func() any
	items []any
}

//go:norace
func (p *Pool) Get() any {
	c := rt.Cur()
	c.PoolGets++
	n := len(p.items)
	if n > 0 {
		k, m := 0, 0
		if !c.Reuse {
			m = c.C.N(rt.Pool, 16)
		}
		switch {
		case m < 9:
		case m < 14:
			k = c.C.N(rt.Pool, n)
			if k > 0 {
				c.PoolOther++
			}
		default:
			k = n
		}
		if k < n {
			i := n - 1 - k
			x := p.items[i]
			for j := i; j < n-1; j++ {
				p.items[j] = p.items[j+1]
			}
			p.items[n-1] = nil
			p.items = p.items[:n-1]
			c.PoolReuse++
			rt.Acquire(x)
			return x
		}
	}
	c.PoolFresh++
	if p.New == nil {
		return nil
	}
	return p.New()
}

//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	c := rt.Cur()
	c.PoolPuts++
	if !c.Reuse && (len(p.items) >= 64 || c.C.N(rt.Pool, 16) == 15) {
		return
	}
	rt.Release(x)
	if len(p.items) == cap(p.items) {
		n := make([]any, len(p.items), 2*len(p.items)+8)
		for i := range p.items {
			n[i] = p.items[i]
		}
		p.items = n
	}
	p.items = p.items[:len(p.items)+1]
	p.items[len(p.items)-1] = x
}

type Mutex struct {
	held bool
	tag  *byte
}

//go:norace
func (m *Mutex) Lock() {
	rt.P()
	if m.held {
		rt.Block(func() bool { return m.held })
	}
	m.held = true
	rt.AcquireLock(&m.tag)
}

//go:norace
func (m *Mutex) TryLock() bool {
	rt.P()
	if m.held {
		return false
	}
	m.held = true
	rt.AcquireLock(&m.tag)
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	rt.ReleaseLock(&m.tag)
	m.held = false
	rt.P()
}

type RWMutex struct {
	writer  bool
	readers int
	tag     *byte
}

//go:norace
func (m *RWMutex) Lock() {
	rt.P()
	if m.writer || m.readers > 0 {
		rt.Block(func() bool { return m.writer || m.readers > 0 })
	}
	m.writer = true
	rt.AcquireLock(&m.tag)
}

//go:norace
func (m *RWMutex) TryLock() bool {
	rt.P()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	rt.AcquireLock(&m.tag)
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	rt.ReleaseLock(&m.tag)
	m.writer = false
	rt.P()
}

//go:norace
func (m *RWMutex) RLock() {
	rt.P()
	if m.writer {
		rt.Block(func() bool { return m.writer })
	}
	m.readers++
	rt.AcquireLock(&m.tag)
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	rt.P()
	if m.writer {
		return false
	}
	m.readers++
	rt.AcquireLock(&m.tag)
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	rt.ReleaseLock(&m.tag)
	m.readers--
	rt.P()
}

type rlocker RWMutex

func (m *rlocker) Lock()           { (*RWMutex)(m).RLock() }
func (m *rlocker) Unlock()         { (*RWMutex)(m).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type WaitGroup struct {
	m Mutex
	n int
}

func (w *WaitGroup) Add(d int) {
	w.m.Lock()
	w.n += d
	neg := w.n < 0
	w.m.Unlock()
	if neg {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if w.n > 0 {
		rt.Block(func() bool { return w.n > 0 })
	}
	w.m.Lock()
	w.m.Unlock()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L   Locker
	seq int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	s := c.seq
	c.L.Unlock()
	rt.Block(func() bool { return c.seq == s })
	c.L.Lock()
}
func (c *Cond) Signal()    { c.seq++ }
func (c *Cond) Broadcast() { c.seq++ }

// Map is a locked map; its iteration order is the simulator's.
type Map struct {
	mu Mutex
	m  map[any]any
}

func (m *Map) Load(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, is := m.m[k]
	return v, is
}
func (m *Map) Store(k, v any) { m.Swap(k, v) }
func (m *Map) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m = nil
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if x, is := m.m[k]; is {
		return x, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	x, is := m.m[k]
	delete(m.m, k)
	return x, is
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	x, is := m.m[k]
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
	return x, is
}
func (m *Map) CompareAndSwap(k, old, v any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if x, is := m.m[k]; is && x == old {
		m.m[k] = v
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if x, is := m.m[k]; is && x == old {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.mu.Lock()
	ks := []any{}
	for k := range m.m {
		ks = append(ks, k)
	}
	m.mu.Unlock()
	rt.SortKeys(ks)
	for _, k := range ks {
		if v, is := m.Load(k); is && !f(k, v) {
			return
		}
	}
}
