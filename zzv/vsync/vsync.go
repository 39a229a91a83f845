// Package vsync replaces package sync in instrumented code.
package vsync

import "github.com/donnie4w/gofer/zzv/vsched"

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	vsched.Block(func() bool { return !m.locked })
	m.locked = true
}
func (m *Mutex) TryLock() bool {
	vsched.Y()
	if m.locked {
		vsched.Spin()
		return false
	}
	vsched.Progress()
	m.locked = true
	return true
}
func (m *Mutex) Unlock() {
	vsched.Y()
	if !m.locked {
		vsched.Fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
}

type RWMutex struct {
	w       bool
	readers int
	waiting int // writers waiting: they block new readers
}

func (m *RWMutex) Lock() {
	vsched.Y()
	if m.w || m.readers > 0 {
		m.waiting++
		done := false
		defer func() {
			if !done {
				m.waiting--
			}
		}()
		vsched.Block(func() bool { return !m.w && m.readers == 0 })
		done = true
		m.waiting--
	}
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	vsched.Y()
	if m.w || m.readers > 0 || m.waiting > 0 {
		vsched.Spin()
		return false
	}
	vsched.Progress()
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	vsched.Y()
	if !m.w {
		vsched.Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}
func (m *RWMutex) RLock() {
	vsched.Block(func() bool { return !m.w && m.waiting == 0 })
	m.readers++
}
func (m *RWMutex) TryRLock() bool {
	vsched.Y()
	if m.w || m.waiting > 0 {
		vsched.Spin()
		return false
	}
	vsched.Progress()
	m.readers++
	return true
}
func (m *RWMutex) RUnlock() {
	vsched.Y()
	if m.readers <= 0 {
		vsched.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	vsched.Y()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() { vsched.Block(func() bool { return w.n == 0 }) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() { defer w.Done(); f() })
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	vsched.Y()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type Cond struct {
	L       Locker
	waiters []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	b := new(bool)
	c.waiters = append(c.waiters, b)
	c.L.Unlock()
	vsched.Block(func() bool { return *b })
	c.L.Lock()
}
func (c *Cond) Signal() {
	vsched.Y()
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
}
func (c *Cond) Broadcast() {
	vsched.Y()
	for _, b := range c.waiters {
		*b = true
	}
	c.waiters = nil
}

// Pool keeps every value (LIFO); the real one may also drop values, which New covers.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	vsched.Y()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	vsched.Y()
	p.items = append(p.items, x)
}

// Map is sync.Map with atomic operations and deterministic iteration (insertion order).
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(append([]any{}, m.keys[:i]...), m.keys[i+1:]...)
			return
		}
	}
}
func (m *Map) Load(k any) (v any, ok bool) { vsched.Y(); v, ok = m.m[k]; return }
func (m *Map) Store(k, v any)              { vsched.Y(); m.set(k, v) }
func (m *Map) Clear()                      { vsched.Y(); m.m, m.keys = nil, nil }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	vsched.Y()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (v any, ok bool) {
	vsched.Y()
	v, ok = m.m[k]
	m.del(k)
	return
}
func (m *Map) Delete(k any) { vsched.Y(); m.del(k) }
func (m *Map) Swap(k, v any) (o any, ok bool) {
	vsched.Y()
	o, ok = m.m[k]
	m.set(k, v)
	return
}
func (m *Map) CompareAndSwap(k, old, v any) bool {
	vsched.Y()
	if o, ok := m.m[k]; ok && o == old {
		m.m[k] = v
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	vsched.Y()
	if o, ok := m.m[k]; ok && o == old {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	vsched.Y()
	keys := append([]any{}, m.keys...)
	for _, k := range keys {
		vsched.Y()
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}
