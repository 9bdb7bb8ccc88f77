// Package vktime models the timers of package time with goroutines that
// sleep. The engine executes it in place of the timers of the runtime, and
// its instrumented form does so in the replays.
package vktime

import (
	"sync/atomic"
	"time"
)

// Timer is time.Timer.
type Timer struct {
	C <-chan time.Time
	t *timer
}

type timer struct {
	c    chan time.Time
	f    func()
	gen  atomic.Int64 // last arming
	live atomic.Int64 // arming not fired and not stopped, 0 if none
}

func (t *timer) arm(d time.Duration) {
	g := t.gen.Add(1)
	t.live.Store(g)
	go t.fire(g, d)
}

func (t *timer) fire(g int64, d time.Duration) {
	time.Sleep(d)
	if t.live.CompareAndSwap(g, 0) {
		if t.f != nil {
			t.f()
			return
		}
		select {
		case t.c <- time.Now():
		default:
		}
	}
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &timer{c: c}
	t.arm(d)
	return &Timer{C: c, t: t}
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &timer{f: f}
	t.arm(d)
	return &Timer{t: t}
}

// After is time.After.
func After(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	go after(c, d)
	return c
}

func after(c chan time.Time, d time.Duration) {
	time.Sleep(d)
	c <- time.Now()
}

// Stop is time.Timer.Stop.
func (t *Timer) Stop() bool {
	if t.t == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	return t.t.live.Swap(0) != 0
}

// Reset is time.Timer.Reset.
func (t *Timer) Reset(d time.Duration) bool {
	if t.t == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	on := t.t.live.Swap(0) != 0
	t.t.arm(d)
	return on
}

// Ticker is time.Ticker.
type Ticker struct {
	C <-chan time.Time
	t *timer
}

func (t *timer) tick(g int64, d time.Duration) {
	for {
		time.Sleep(d)
		if t.live.Load() != g {
			return
		}
		select {
		case t.c <- time.Now():
		default:
		}
	}
}

func (t *timer) run(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	g := t.gen.Add(1)
	t.live.Store(g)
	go t.tick(g, d)
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	t := &timer{c: c}
	t.run(d)
	return &Ticker{C: c, t: t}
}

// Tick is time.Tick.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Stop is time.Ticker.Stop.
func (t *Ticker) Stop() {
	if t.t != nil {
		t.t.live.Store(0)
	}
}

// Reset is time.Ticker.Reset.
func (t *Ticker) Reset(d time.Duration) {
	if t.t == nil {
		panic("time: Reset called on uninitialized Ticker")
	}
	t.t.run(d)
}
