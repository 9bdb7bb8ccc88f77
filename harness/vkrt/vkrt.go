// Package vkrt runs instrumented goroutines under a given schedule, one at a
// time: it replays the schedules found by the engine against the real code.
// Every visible operation (locks, channels, select, sleep, atomics, start of
// a goroutine, resumption) is a scheduling point, as in the engine. After the
// schedule the threads go on in a random order. Its own synchronization is
// hidden from the race detector; the ordering that the emulated operations
// guarantee is reported to it explicitly.
package vkrt

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"
)

// Step is one scheduling decision of the engine.
type Step struct {
	Tid  int    `json:"t"`
	Op   string `json:"op"`
	Loc  string `json:"loc"`
	Kase int    `json:"case"`
	Name string `json:"name,omitempty"`
}

const (
	running = iota
	atOp
	parked
	done
)

type thread struct {
	name    string
	spawned int
	grant   chan struct{}
	state   int
	op      string
	enabled func() bool
	wake    int64 // sleeping until
	kase    int   // case of the select to take
	// hand-over to a parked thread
	val   interface{}
	ok    bool
	which int
	note  byte // address used for ordering
	back  byte
}

var (
	mu      sync.Mutex
	threads []*thread
	byGoid  = map[int64]*thread{}
	steps   []Step
	pos     int
	free    bool
	nfree   int
	clock   int64

	// Race adds a scheduling point after each release, as the engine does.
	Race bool
	// Virtual time, otherwise it stands still.
	Virtual bool
	// MaxProgress lets time pass only when nothing else can happen.
	MaxProgress bool
	// Verbose traces the schedule.
	Verbose bool
	active  bool
	rnd     *rand.Rand
	// Diverged tells why the schedule could not be followed.
	Diverged string
)

//go:norace
func goid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	s := strings.TrimPrefix(string(b[:n]), "goroutine ")
	s = s[:strings.IndexByte(s, ' ')]
	id, _ := strconv.ParseInt(s, 10, 64)
	return id
}

//go:norace
func enter() { raceOff(); mu.Lock() }

//go:norace
func leave() { mu.Unlock(); raceOn() }

// Main runs f under the schedule.
//
//go:norace
func Main(sched []Step, seed int64, f func()) {
	steps = sched
	rnd = rand.New(rand.NewSource(seed))
	active = true
	enter()
	t := &thread{name: "main", grant: make(chan struct{}, 1)}
	threads = append(threads, t)
	byGoid[goid()] = t
	leave()
	f()
}

//go:norace
func self() *thread {
	id := goid()
	enter()
	t := byGoid[id]
	leave()
	return t
}

// stop waits until the scheduler lets t go on. mu is held.
//
//go:norace
func (t *thread) stop(op string, enabled func() bool) {
	t.state, t.op, t.enabled = atOp, op, enabled
	t.wait()
}

//go:norace
func (t *thread) wait() {
	dispatch()
	mu.Unlock()
	<-t.grant
	mu.Lock()
	t.state = running
}

//go:norace
func (t *thread) can() bool {
	return t.state == atOp && (t.enabled == nil || t.enabled())
}

//go:norace
func (t *thread) let() {
	t.state = running
	t.grant <- struct{}{}
}

//go:norace
func diverge(why string) {
	Diverged = why
	fmt.Println("DIVERGED:", why)
	free = true
}

// dispatch chooses who goes on. mu is held and nobody runs.
//
//go:norace
func dispatch() {
	if !free {
		if pos >= len(steps) {
			free = true
			fmt.Println("SCHEDULE FOLLOWED", len(steps))
		} else {
			s := steps[pos]
			var t *thread
			for _, x := range threads {
				if x.name == s.Name {
					t = x
				}
			}
			switch {
			case t == nil:
				diverge(fmt.Sprintf("step %d: no thread %s", pos, s.Name))
			case !t.can():
				diverge(fmt.Sprintf("step %d: %s cannot do %s at %s (state %d, %s)", pos, s.Name, s.Op, s.Loc, t.state, t.op))
			case t.op != s.Op:
				diverge(fmt.Sprintf("step %d: %s is at %s, expected %s at %s", pos, s.Name, t.op, s.Op, s.Loc))
			}
			if !free {
				if Verbose {
					fmt.Println("step", pos, s.Name, s.Op, s.Loc)
				}
				pos++
				t.kase = s.Kase
				if t.op == "sleep" && t.wake > clock {
					clock = t.wake
				}
				t.let()
				return
			}
		}
	}
	var can, sleep []*thread
	for _, t := range threads {
		if t.can() {
			if t.op == "sleep" {
				sleep = append(sleep, t)
			} else {
				can = append(can, t)
			}
		}
	}
	if Virtual && MaxProgress {
		if len(can) == 0 && len(sleep) > 0 {
			best := sleep[0]
			for _, t := range sleep {
				if t.wake < best.wake {
					best = t
				}
			}
			can = []*thread{best}
		}
	} else {
		can = append(can, sleep...)
	}
	if len(can) == 0 {
		fmt.Println("DEADLOCK:", where())
		os.Exit(5)
	}
	nfree++
	if nfree > 300000 {
		fmt.Println("LIVELOCK:", where())
		os.Exit(6)
	}
	t := can[rnd.Intn(len(can))]
	if t.op == "sleep" && t.wake > clock {
		clock = t.wake
	}
	t.kase = 0
	t.let()
}

//go:norace
func where() string {
	var l []string
	for _, t := range threads {
		if t.state != done {
			l = append(l, t.name+" at "+t.op)
		}
	}
	return strings.Join(l, "; ")
}

// Go starts an instrumented goroutine.
//
//go:norace
func Go(f func()) {
	if !active {
		go f()
		return
	}
	p := self()
	if p == nil {
		go f()
		return
	}
	enter()
	p.spawned++
	t := &thread{name: fmt.Sprintf("%s.%d", p.name, p.spawned), grant: make(chan struct{}, 1), state: atOp, op: "start"}
	threads = append(threads, t)
	leave()
	go t.main(f)
	after()
}

//go:norace
func (t *thread) main(f func()) {
	enter()
	byGoid[goid()] = t
	mu.Unlock()
	<-t.grant
	raceOn()
	f()
	enter()
	t.state = done
	dispatch()
	leave()
}

// after is the scheduling point after a release.
//
//go:norace
func after() {
	if Race && active {
		if t := self(); t != nil {
			enter()
			t.stop("yield", nil)
			leave()
		}
	}
}

// Op is a visible operation that acts when enabled.
//
//go:norace
func Op(op string, enabled func() bool, act func(), acq ...unsafe.Pointer) {
	t := self()
	if !active {
		act()
		return
	}
	if t == nil {
		lost()
	}
	enter()
	t.stop(op, enabled)
	act()
	leave()
	for _, p := range acq {
		raceAcq(p)
	}
}

// Release is an operation that never waits.
//
//go:norace
func Release(act func(), rel ...unsafe.Pointer) {
	for _, p := range rel {
		raceRel(p)
	}
	enter()
	act()
	leave()
	after()
}

// Yield is a scheduling point.
//
//go:norace
func Yield() { YieldOp("yield") }

// YieldOp is a scheduling point before an operation that never waits.
//
//go:norace
func YieldOp(op string) {
	if !active {
		return
	}
	t := self()
	if t == nil {
		return
	}
	enter()
	t.stop(op, nil)
	leave()
}

// Writer is a two phase lock of a read-write mutex.
//
//go:norace
func Writer(can, readers func() bool, announce, act func(), acq ...unsafe.Pointer) {
	t := self()
	if !active {
		act()
		return
	}
	if t == nil {
		lost()
	}
	enter()
	t.stop("Lock", can)
	if readers() {
		announce()
		t.stop("Lock(pending)", func() bool { return can() && !readers() })
	}
	act()
	leave()
	for _, p := range acq {
		raceAcq(p)
	}
}

// ---------------------------------------------------------------- time

const base = 1600000000

// Now is the time.
//
//go:norace
func Now() time.Time {
	if !active {
		return time.Now()
	}
	enter()
	c := clock
	leave()
	return time.Unix(base, 0).Add(time.Duration(c))
}

// Sleep waits.
//
//go:norace
func Sleep(d time.Duration) {
	t := self()
	if !active || t == nil {
		time.Sleep(d)
		return
	}
	enter()
	t.wake = clock
	if Virtual && d > 0 {
		t.wake += int64(d)
	}
	t.stop("sleep", nil)
	leave()
}

// ---------------------------------------------------------------- channels

type waiter struct {
	t    *thread
	kase int
	val  interface{}
	push func()
}

type shadow struct {
	ch    interface{}
	sendq []*waiter
	recvq []*waiter
	sync  byte
}

var chans = map[uintptr]*shadow{}

//go:norace
func shadowOf(ch interface{}) *shadow {
	v := reflect.ValueOf(ch)
	if v.IsNil() {
		return nil
	}
	p := v.Pointer()
	s := chans[p]
	if s == nil {
		s = &shadow{ch: ch}
		chans[p] = s
	}
	return s
}

// Case is one communication of a select.
type Case interface {
	shadow() *shadow
	send() bool
	ready(s *shadow) bool
	// try performs the communication if possible
	try(s *shadow, c *comm) bool
	waiter() *waiter
	result(v interface{}, ok bool)
}

// comm gathers what has to be told to the race detector.
type comm struct {
	acq, rel []unsafe.Pointer
	t        *thread
	closed   bool
}

// RCase is a receive.
type RCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

// SCase is a send.
type SCase[T any] struct {
	ch chan<- T
	v  T
}

// NewRecv is a receive case.
func NewRecv[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch} }

// NewSend is a send case.
func NewSend[T any](ch chan<- T) func(T) *SCase[T] {
	return func(v T) *SCase[T] { return &SCase[T]{ch, v} }
}

//go:norace
func (c *RCase[T]) shadow() *shadow { return shadowOf(c.ch) }

//go:norace
func (c *SCase[T]) shadow() *shadow { return shadowOf(c.ch) }
func (c *RCase[T]) send() bool      { return false }
func (c *SCase[T]) send() bool      { return true }

//go:norace
func (c *RCase[T]) waiter() *waiter { return &waiter{} }

//go:norace
func (c *SCase[T]) waiter() *waiter {
	return &waiter{val: c.v, push: func() { c.ch <- c.v }}
}

//go:norace
func (c *RCase[T]) result(v interface{}, ok bool) {
	c.OK = ok
	if v != nil {
		c.V = v.(T)
	}
}
func (c *SCase[T]) result(interface{}, bool) {}

//go:norace
func isClosed(s *shadow) bool { return closed[s] }

var closed = map[*shadow]bool{}

//go:norace
func (c *RCase[T]) ready(s *shadow) bool {
	return len(c.ch) > 0 || len(s.sendq) > 0 || isClosed(s)
}

//go:norace
func (c *SCase[T]) ready(s *shadow) bool {
	return isClosed(s) || len(s.recvq) > 0 || len(c.ch) < cap(c.ch)
}

//go:norace
func wake(w *waiter, c *comm) {
	for _, s := range chans {
		s.sendq = drop(s.sendq, w.t)
		s.recvq = drop(s.recvq, w.t)
	}
	t := w.t
	t.which = w.kase
	t.state, t.op, t.enabled = atOp, "yield", nil
	c.acq = append(c.acq, unsafe.Pointer(&t.note))
	c.rel = append(c.rel, unsafe.Pointer(&t.back))
}

//go:norace
func drop(q []*waiter, t *thread) []*waiter {
	var out []*waiter
	for _, w := range q {
		if w.t != t {
			out = append(out, w)
		}
	}
	return out
}

//go:norace
func (c *RCase[T]) try(s *shadow, cm *comm) bool {
	if len(c.ch) > 0 {
		c.V, c.OK = <-c.ch
		cm.acq = append(cm.acq, unsafe.Pointer(&s.sync))
		if len(s.sendq) > 0 {
			w := s.sendq[0]
			w.push()
			w.t.ok = true
			wake(w, cm)
		}
		return true
	}
	if len(s.sendq) > 0 {
		w := s.sendq[0]
		c.result(w.val, true)
		w.t.ok = true
		wake(w, cm)
		return true
	}
	if isClosed(s) {
		c.OK = false
		cm.acq = append(cm.acq, unsafe.Pointer(&s.sync))
		return true
	}
	return false
}

//go:norace
func (c *SCase[T]) try(s *shadow, cm *comm) bool {
	if isClosed(s) {
		cm.closed = true
		return true
	}
	if len(s.recvq) > 0 {
		w := s.recvq[0]
		w.t.val, w.t.ok = c.v, true
		wake(w, cm)
		return true
	}
	if len(c.ch) < cap(c.ch) {
		c.ch <- c.v
		cm.rel = append(cm.rel, unsafe.Pointer(&s.sync))
		return true
	}
	return false
}

// Select performs one of the cases.
//
//go:norace
func Select(hasDefault bool, cases ...Case) int { return communicate("select", hasDefault, cases) }

//go:norace
func communicate(op string, hasDefault bool, cases []Case) int {
	t := self()
	if !active || t == nil {
		lost()
	}
	c := &comm{t: t}
	enter()
	t.stop(op, nil)
	var ready []int
	for i, k := range cases {
		if s := k.shadow(); s != nil && k.ready(s) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := ready[0]
		if len(ready) > 1 {
			if free {
				k = ready[rnd.Intn(len(ready))]
			} else if t.kase > 0 && t.kase <= len(ready) {
				k = ready[t.kase-1]
			}
		}
		cases[k].try(cases[k].shadow(), c)
		leave()
		for _, p := range c.acq {
			raceAcq(p)
		}
		for _, p := range c.rel {
			raceRel(p)
		}
		if c.closed {
			panic("send on closed channel")
		}
		if len(c.rel) > 0 {
			after()
		}
		return k
	}
	if hasDefault {
		leave()
		return -1
	}
	for i, k := range cases {
		s := k.shadow()
		if s == nil {
			continue
		}
		w := k.waiter()
		w.t, w.kase = t, i
		if k.send() {
			s.sendq = append(s.sendq, w)
		} else {
			s.recvq = append(s.recvq, w)
		}
	}
	t.val, t.ok = nil, false
	t.state, t.op, t.enabled = parked, op, nil
	raceOn()
	raceRel(unsafe.Pointer(&t.note))
	raceOff()
	t.wait()
	k := t.which
	v, ok := t.val, t.ok
	leave()
	raceAcq(unsafe.Pointer(&t.back))
	if cases[k].send() && !ok {
		panic("send on closed channel")
	}
	cases[k].result(v, ok)
	return k
}

// Recv receives.
func Recv[T any](ch <-chan T) T {
	c := NewRecv(ch)
	communicate("recv", false, []Case{c})
	return c.V
}

// Recv2 receives and tells whether the channel is open.
func Recv2[T any](ch <-chan T) (T, bool) {
	c := NewRecv(ch)
	communicate("recv", false, []Case{c})
	return c.V, c.OK
}

// SendTo sends.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) { communicate("send", false, []Case{NewSend(ch)(v)}) }
}

// Close closes.
//
//go:norace
func Close[T any](ch chan<- T) {
	t := self()
	if !active || t == nil {
		lost()
	}
	c := &comm{t: t}
	enter()
	t.stop("close", nil)
	s := shadowOf(ch)
	if s == nil || isClosed(s) {
		leave()
		close(ch)
		return
	}
	closed[s] = true
	raceOn()
	raceRel(unsafe.Pointer(&s.sync))
	raceOff()
	close(ch)
	for _, w := range append(append([]*waiter(nil), s.recvq...), s.sendq...) {
		w.t.val, w.t.ok = nil, false
		wake(w, c)
	}
	leave()
	for _, p := range c.acq {
		raceAcq(p)
	}
	for _, p := range c.rel {
		raceRel(p)
	}
	after()
}

// After is the scheduling point after a release.
func After() { after() }

// Fatal ends the process as the runtime would.
func Fatal(msg string) {
	fmt.Fprintln(os.Stderr, msg)
	os.Exit(2)
}

// lost ends a replay that meets a goroutine it does not control.
func lost() {
	fmt.Println("LOST: goroutine out of control")
	os.Exit(7)
}

// NumCPU is the number of processors the engine assumes, 0 for the real one.
var NumCPU = 2

// CPUs stands for runtime.NumCPU.
func CPUs(f func() int) int {
	if NumCPU > 0 {
		return NumCPU
	}
	return f()
}
