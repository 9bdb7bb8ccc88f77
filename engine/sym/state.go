package sym

import (
	"fmt"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"

	"verifengine/smt"
)

var epochs uint64

func newEpoch() uint64 { return atomic.AddUint64(&epochs, 1) }

type deferred struct {
	fn    Func
	bi    *ssa.Builtin
	args  []Value
	instr *ssa.Defer
}

type panicRec struct {
	val       Iface
	recovered bool
	where     string
}

// Frame is an activation record.
type Frame struct {
	epoch  uint64
	fn     *fnInfo
	block  int
	pc     int
	prev   int
	regs   []Value
	defers []deferred
	// panicking is set while the frame unwinds
	panicking *panicRec
	isDefer   bool                                   // called by the frame below while it runs its defers
	isInit    bool                                   // package initializer called lazily: on return re-execute
	native    func(st *State, th *Thread, res Value) // continuation after return instead of storing
}

type status uint8

const (
	runnable status = iota
	atOp            // stopped before a visible operation
	parked          // parked in a channel queue
	done
)

type opKind uint8

const (
	opNone opKind = iota
	opLock
	opRLock
	opLockPending // writer announced, waiting for readers
	opSend
	opRecv
	opSelect
	opClose
	opSleep
	opWgWait
	opAtomic
	opYield
	opStart
	opCond
)

var opNames = [...]string{"none", "Lock", "RLock", "Lock(pending)", "send", "recv", "select", "close", "sleep", "wg.Wait", "atomic", "yield", "start", "cond"}

// waitInfo describes the visible operation a thread is about to do.
type waitInfo struct {
	kind opKind
	ptr  Ptr       // lock, wait group, atomic cell
	ch   int       // channel object
	wake *smt.Term // end of a sleep
	own  bool      // yield asked by the harness
	loc  string
}

type resume struct {
	val  Value
	ok   bool
	kase int
}

// Thread is a goroutine.
type Thread struct {
	id        int
	name      string
	frames    []*Frame
	status    status
	wait      waitInfo
	granted   bool
	resume    *resume
	slept     bool // sleep already performed for the current instruction
	client    bool // must finish (harness main and threads it waits for)
	spawned   int
	vc        vclock
	mustYield bool // stop after this instruction (race mode)
}

// State is one symbolic machine state.
type State struct {
	run     *Run
	epoch   uint64
	globs   []*Obj
	objs    []*Obj
	threads []*Thread
	cur     int // index of running thread in seq mode
	pc      *smt.PC
	known   map[int]bool
	model   smt.Model
	inputs  []*input
	names   map[string]int
	obs     []observation
	covers  map[string]bool
	clock   *smt.Term
	steps   int
	inits   map[*ssa.Package]bool
	sched   []SchedStep
	draws   int
	events  []string
	outcome *Outcome
	race    *raceState
	selN    int
	acc     []access
	rel     []relRec
	guard   *smt.Term
	level   int
	mergeN  int
	apps    []fnApp
	unsure  bool // the solver gave up on this path: it may be infeasible
	preempt int
	cn      *cnode
	vis     *visited
	cone    *smt.Term
	flip    bool // maps and threads in the other order
}

type input struct {
	name string
	kind string // int, real, fp, bool, draw
	term *smt.Term
	meta string
}

type observation struct {
	tag string
	val Value
}

// SchedStep is one scheduling decision.
type SchedStep struct {
	Tid  int    `json:"t"`
	Op   string `json:"op"`
	Loc  string `json:"loc"`
	Kase int    `json:"case"`
	Name string `json:"name,omitempty"`
}

func (st *State) fork() *State {
	n := *st
	n.epoch = newEpoch()
	st.epoch = newEpoch()
	n.globs = append([]*Obj(nil), st.globs...)
	n.objs = append([]*Obj(nil), st.objs...)
	n.threads = make([]*Thread, len(st.threads))
	for i, t := range st.threads {
		c := *t
		c.frames = append([]*Frame(nil), t.frames...)
		c.vc = t.vc.clone()
		n.threads[i] = &c
	}
	n.known = make(map[int]bool, len(st.known)+4)
	for k, v := range st.known {
		n.known[k] = v
	}
	n.names = make(map[string]int, len(st.names))
	for k, v := range st.names {
		n.names[k] = v
	}
	n.covers = make(map[string]bool, len(st.covers))
	for k, v := range st.covers {
		n.covers[k] = v
	}
	n.inits = make(map[*ssa.Package]bool, len(st.inits))
	for k, v := range st.inits {
		n.inits[k] = v
	}
	n.inputs = st.inputs[:len(st.inputs):len(st.inputs)]
	n.obs = st.obs[:len(st.obs):len(st.obs)]
	n.sched = st.sched[:len(st.sched):len(st.sched)]
	n.events = st.events[:len(st.events):len(st.events)]
	n.acc = st.acc[:len(st.acc):len(st.acc)]
	n.rel = st.rel[:len(st.rel):len(st.rel)]
	if st.race != nil {
		n.race = st.race.clone()
	}
	n.vis = nil
	return &n
}

// thread returns thread i.
func (st *State) thread(i int) *Thread { return st.threads[i] }

func (st *State) byID(id int) *Thread {
	for i, t := range st.threads {
		if t.id == id {
			return st.thread(i)
		}
	}
	return nil
}

// top returns the writable top frame.
func (st *State) top(t *Thread) *Frame {
	n := len(t.frames) - 1
	f := t.frames[n]
	if f.epoch != st.epoch {
		c := *f
		c.epoch = st.epoch
		c.regs = append([]Value(nil), f.regs...)
		c.defers = append([]deferred(nil), f.defers...)
		if f.panicking != nil {
			p := *f.panicking
			c.panicking = &p
		}
		t.frames[n] = &c
		f = &c
	}
	return f
}

// frameAt returns the writable i-th frame.
func (st *State) frameAt(t *Thread, i int) *Frame {
	f := t.frames[i]
	if f.epoch != st.epoch {
		c := *f
		c.epoch = st.epoch
		c.regs = append([]Value(nil), f.regs...)
		c.defers = append([]deferred(nil), f.defers...)
		if f.panicking != nil {
			p := *f.panicking
			c.panicking = &p
		}
		t.frames[i] = &c
		f = &c
	}
	return f
}

func (st *State) newObj(o *Obj) int {
	o.epoch = st.epoch
	st.objs = append(st.objs, o)
	return len(st.objs) - 1
}

func (st *State) allocCells(cells []Value, tag string) Ptr {
	return Ptr{st.newObj(&Obj{kind: kCells, cells: cells, tag: tag}), 0}
}

func (st *State) obj(id int) *Obj {
	if id < 0 {
		return st.globs[-id]
	}
	return st.objs[id]
}

// wobj returns a writable object.
func (st *State) wobj(id int) *Obj {
	if id < 0 {
		o := st.globs[-id]
		if o.epoch != st.epoch {
			o = o.clone(st.epoch)
			st.globs[-id] = o
		}
		return o
	}
	o := st.objs[id]
	if o.epoch != st.epoch {
		o = o.clone(st.epoch)
		st.objs[id] = o
	}
	return o
}

func (st *State) assume(t *smt.Term) {
	if t.IsTrue() {
		return
	}
	st.pc = st.pc.Push(t)
	st.setKnown(t, true)
}

func (st *State) setKnown(t *smt.Term, v bool) {
	if t.Op == smt.ONot {
		t, v = t.A[0], !v
	}
	st.known[t.ID] = v
	if v && t.Op == smt.OAnd {
		for _, a := range t.A {
			st.setKnown(a, true)
		}
	}
	if !v && t.Op == smt.OOr {
		for _, a := range t.A {
			st.setKnown(a, false)
		}
	}
}

func (st *State) lookupKnown(t *smt.Term) (bool, bool) {
	neg := false
	if t.Op == smt.ONot {
		t, neg = t.A[0], true
	}
	if v, ok := st.known[t.ID]; ok {
		return v != neg, true
	}
	n := st.run.C.Not(t)
	if n.Op != smt.ONot {
		if v, ok := st.known[n.ID]; ok {
			return v == neg, true
		}
	}
	return false, false
}

func (st *State) uniq(name string) string {
	n := st.names[name]
	st.names[name] = n + 1
	return fmt.Sprintf("%s#%d", name, n)
}

// Outcome is how a path ended.
type Outcome struct {
	Kind string // done, assert, panic, bound, unsupported, deadlock, race, hang, killed
	Msg  string
	Loc  string
	St   *State
	// for violations: model of the inputs
	Model smt.Model
	Extra []SchedStep // steps that show a race
	Steps []SchedStep // schedule (conc)
}
