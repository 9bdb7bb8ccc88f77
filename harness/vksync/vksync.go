// Package vksync models the types of package sync that the engine does not
// know itself, with mutexes. vkrt/vsync/more.go is the same code for replays.
package vksync

import "sync"

// Mutex is sync.Mutex.
type Mutex = sync.Mutex

// Locker is sync.Locker.
type Locker = sync.Locker

// Map is sync.Map.
type Map struct {
	mu         Mutex
	keys, vals []interface{}
}

func (m *Map) at(key interface{}) int {
	for i, k := range m.keys {
		if k == key {
			return i
		}
	}
	return -1
}

func (m *Map) put(i int, key, value interface{}) {
	if i < 0 {
		m.keys, m.vals = append(m.keys, key), append(m.vals, value)
		return
	}
	m.vals[i] = value
}

func (m *Map) del(i int) {
	n := len(m.keys) - 1
	m.keys[i], m.vals[i] = m.keys[n], m.vals[n]
	m.keys, m.vals = m.keys[:n], m.vals[:n]
}

// Load is sync.Map.Load.
func (m *Map) Load(key interface{}) (value interface{}, ok bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if i := m.at(key); i >= 0 {
		return m.vals[i], true
	}
	return nil, false
}

// Store is sync.Map.Store.
func (m *Map) Store(key, value interface{}) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.put(m.at(key), key, value)
}

// Clear is sync.Map.Clear.
func (m *Map) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.keys, m.vals = nil, nil
}

// LoadOrStore is sync.Map.LoadOrStore.
func (m *Map) LoadOrStore(key, value interface{}) (actual interface{}, loaded bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if i := m.at(key); i >= 0 {
		return m.vals[i], true
	}
	m.put(-1, key, value)
	return value, false
}

// LoadAndDelete is sync.Map.LoadAndDelete.
func (m *Map) LoadAndDelete(key interface{}) (value interface{}, loaded bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	i := m.at(key)
	if i < 0 {
		return nil, false
	}
	value = m.vals[i]
	m.del(i)
	return value, true
}

// Delete is sync.Map.Delete.
func (m *Map) Delete(key interface{}) { m.LoadAndDelete(key) }

// Swap is sync.Map.Swap.
func (m *Map) Swap(key, value interface{}) (previous interface{}, loaded bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	i := m.at(key)
	if i >= 0 {
		previous, loaded = m.vals[i], true
	}
	m.put(i, key, value)
	return previous, loaded
}

// CompareAndSwap is sync.Map.CompareAndSwap.
func (m *Map) CompareAndSwap(key, old, new interface{}) (swapped bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	i := m.at(key)
	if i < 0 || m.vals[i] != old {
		return false
	}
	m.vals[i] = new
	return true
}

// CompareAndDelete is sync.Map.CompareAndDelete.
func (m *Map) CompareAndDelete(key, old interface{}) (deleted bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	i := m.at(key)
	if i < 0 || m.vals[i] != old {
		return false
	}
	m.del(i)
	return true
}

// Range is sync.Map.Range.
func (m *Map) Range(f func(key, value interface{}) bool) {
	m.mu.Lock()
	keys := append([]interface{}(nil), m.keys...)
	m.mu.Unlock()
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

// Pool is sync.Pool, which keeps all and gives back the last first.
type Pool struct {
	New  func() interface{}
	mu   Mutex
	free []interface{}
}

// Get is sync.Pool.Get.
func (p *Pool) Get() interface{} {
	p.mu.Lock()
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

// Put is sync.Pool.Put.
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.free = append(p.free, x)
	p.mu.Unlock()
}

// Cond is sync.Cond.
type Cond struct {
	L       Locker
	mu      Mutex
	waiting []*Mutex
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait is sync.Cond.Wait.
func (c *Cond) Wait() {
	w := new(Mutex)
	w.Lock()
	c.mu.Lock()
	c.waiting = append(c.waiting, w)
	c.mu.Unlock()
	c.L.Unlock()
	w.Lock()
	c.L.Lock()
}

// Signal is sync.Cond.Signal.
func (c *Cond) Signal() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.waiting) > 0 {
		w := c.waiting[0]
		c.waiting = c.waiting[1:]
		w.Unlock()
	}
}

// Broadcast is sync.Cond.Broadcast.
func (c *Cond) Broadcast() {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, w := range c.waiting {
		w.Unlock()
	}
	c.waiting = nil
}
