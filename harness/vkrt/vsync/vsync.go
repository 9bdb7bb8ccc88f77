// Package vsync stands for package sync in instrumented code.
package vsync

import (
	"sync"
	"unsafe"

	"verifharness/vkrt"
	"verifharness/vkrt/vatomic"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is scheduled.
type Mutex struct {
	locked bool
	w      byte
}

// Lock locks.
//
//go:norace
func (m *Mutex) Lock() {
	vkrt.Op("Lock", func() bool { return !m.locked }, func() { m.locked = true }, unsafe.Pointer(&m.w))
}

// TryLock tries.
//
//go:norace
func (m *Mutex) TryLock() (ok bool) {
	vkrt.Op("Lock", nil, func() {
		if ok = !m.locked; ok {
			m.locked = true
		}
	}, unsafe.Pointer(&m.w))
	return
}

// Unlock unlocks.
//
//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		vkrt.Fatal("fatal error: sync: unlock of unlocked mutex")
	}
	vkrt.Release(func() { m.locked = false }, unsafe.Pointer(&m.w))
}

// RWMutex is scheduled.
type RWMutex struct {
	locked  bool
	readers int
	pending int
	w, r    byte
}

// Lock locks.
//
//go:norace
func (m *RWMutex) Lock() {
	announced := false
	vkrt.Writer(func() bool { return !m.locked }, func() bool { return m.readers > 0 },
		func() { announced = true; m.pending++ }, func() {
			if announced {
				m.pending--
			}
			m.locked = true
		}, unsafe.Pointer(&m.w), unsafe.Pointer(&m.r))
}

// Unlock unlocks.
//
//go:norace
func (m *RWMutex) Unlock() {
	if !m.locked {
		vkrt.Fatal("fatal error: sync: unlock of unlocked mutex")
	}
	vkrt.Release(func() { m.locked = false }, unsafe.Pointer(&m.w))
}

// RLock locks.
//
//go:norace
func (m *RWMutex) RLock() {
	vkrt.Op("RLock", func() bool { return !m.locked && m.pending == 0 }, func() { m.readers++ }, unsafe.Pointer(&m.w))
}

// RUnlock unlocks.
//
//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		vkrt.Fatal("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	vkrt.Release(func() { m.readers-- }, unsafe.Pointer(&m.r))
}

// RLocker is a read locker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup is scheduled.
type WaitGroup struct {
	n int
	s byte
}

// Add adds.
//
//go:norace
func (w *WaitGroup) Add(d int) {
	if w.n+d < 0 {
		panic("sync: negative WaitGroup counter")
	}
	vkrt.Release(func() { w.n += d }, unsafe.Pointer(&w.s))
}

// Done is Add(-1).
//
//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

// Go runs f.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vkrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Wait waits.
//
//go:norace
func (w *WaitGroup) Wait() {
	vkrt.Op("wg.Wait", func() bool { return w.n == 0 }, func() {}, unsafe.Pointer(&w.s))
}

// Once is scheduled.
type Once struct {
	done vatomic.Bool
	m    Mutex
}

// Do runs f once.
func (o *Once) Do(f func()) {
	if !o.done.Load() {
		o.doSlow(f)
	}
}

func (o *Once) doSlow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}
