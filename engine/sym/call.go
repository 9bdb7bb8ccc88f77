package sym

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verifengine/smt"
)

// call is an intrinsic call in progress.
type call struct {
	st       *State
	th       *Thread
	fn       *ssa.Function
	args     []Value
	deferred bool
	blocked  bool // the thread stopped before the operation: retry later
	pushed   bool // the intrinsic pushed a frame that produces the result
	threw    bool // the intrinsic raised a panic
	pass     bool // not handled: execute the real body
}

func (c *call) term(i int) *smt.Term { return c.args[i].(*smt.Term) }

type handler func(r *Run, c *call) Value

// prepareCall evaluates the callee and arguments of a call.
func (r *Run) prepareCall(st *State, th *Thread, f *Frame, cc *ssa.CallCommon) (d deferred, ok bool) {
	args := make([]Value, 0, len(cc.Args)+1)
	if cc.IsInvoke() {
		recv := r.get(st, f, cc.Value).(Iface)
		if recv.T == nil {
			r.nilDeref(st, th)
			return d, false
		}
		fn := r.lookupMethod(recv.T, cc.Method)
		args = append(args, recv.V)
		d.fn = Func{Fn: fn}
	} else {
		switch v := r.get(st, f, cc.Value).(type) {
		case Func:
			d.fn = v
		case *ssa.Builtin:
			d.bi = v
		default:
			panic(unsupported("callee"))
		}
	}
	for _, a := range cc.Args {
		args = append(args, r.get(st, f, a))
	}
	d.args = args
	if d.fn.Fn != nil && d.fn.Fn.Pkg != nil {
		switch d.fn.Fn.Pkg.Pkg.Path() {
		case "time":
			d.fn = r.model(d.fn)
		case "sync":
			r.modelSync(st, f, &d)
		}
	}
	return d, true
}

// VKTime is the package that models the timers of package time.
const VKTime = "verifharness/vktime"

// model returns the model of a function of package time, if any.
func (r *Run) model(fn Func) Func {
	name := fn.Fn.Name()
	recv := ""
	switch fn.Fn.String() {
	case "time.NewTimer", "time.AfterFunc", "time.After", "time.Tick", "time.NewTicker":
	case "(*time.Timer).Stop", "(*time.Timer).Reset":
		recv = "Timer"
	case "(*time.Ticker).Stop", "(*time.Ticker).Reset":
		recv = "Ticker"
	default:
		return fn
	}
	pk := r.P.Pkgs[VKTime]
	if pk == nil {
		return fn
	}
	r.P.buildPkg(pk)
	if recv == "" {
		return Func{Fn: pk.Func(name)}
	}
	return Func{Fn: r.P.SSA.LookupMethod(types.NewPointer(pk.Type(recv).Type()), pk.Pkg, name)}
}

// VKSync is the package that models sync.Map, sync.Pool and sync.Cond.
const VKSync = "verifharness/vksync"

// modelSync redirects a call of a method of such an object by the code under
// test to its model, which the object refers to by one of its cells.
func (r *Run) modelSync(st *State, f *Frame, d *deferred) {
	if pk := f.fn.fn.Pkg; pk != nil && !strings.HasPrefix(pk.Pkg.Path(), "github.com/wearelumenai/") && !strings.HasPrefix(pk.Pkg.Path(), "verifharness/") {
		return
	}
	pk := r.P.Pkgs[VKSync]
	if pk == nil {
		return
	}
	fn := d.fn.Fn
	recv := fn.Signature.Recv()
	if recv == nil || len(d.args) == 0 {
		return
	}
	pt, ok := recv.Type().(*types.Pointer)
	if !ok {
		return
	}
	nt, ok := pt.Elem().(*types.Named)
	if !ok {
		return
	}
	p, ok := d.args[0].(Ptr)
	if !ok || p.Obj == 0 {
		return
	}
	name := nt.Obj().Name()
	self, from := 0, -1 // the cells with the model and with the public field
	switch name {
	case "Map":
	case "Pool":
		from = len(r.zeroCells(nt)) - 1
	case "Cond":
		self, from = 1, 0
	default:
		return
	}
	r.P.buildPkg(pk)
	mt := pk.Type(name).Type()
	m := r.P.SSA.LookupMethod(types.NewPointer(mt), pk.Pkg, fn.Name())
	if m == nil {
		return
	}
	q, ok := st.obj(p.Obj).cells[p.Off+self].(Ptr)
	if !ok || q.Obj == 0 {
		q = st.allocCells(r.zeroCells(mt), "sync."+name)
		st.wobj(p.Obj).cells[p.Off+self] = q
	}
	if from >= 0 {
		st.wobj(q.Obj).cells[0] = st.obj(p.Obj).cells[p.Off+from]
	}
	d.fn, d.args[0] = Func{Fn: m}, q
}

func (r *Run) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	if t == r.rtErr {
		return nil
	}
	fn := r.P.SSA.LookupMethod(t, m.Pkg(), m.Name())
	if fn == nil {
		panic(unsupported("method " + m.Name() + " of " + t.String()))
	}
	return fn
}

func (r *Run) doCall(st *State, th *Thread, f *Frame, x *ssa.Call) {
	d, ok := r.prepareCall(st, th, f, &x.Call)
	if !ok {
		return
	}
	if d.bi != nil {
		r.builtin(st, th, f, x, d.bi, d.args)
		return
	}
	r.invoke(st, th, x, d.fn, d.args)
}

func (r *Run) invoke(st *State, th *Thread, x *ssa.Call, fn Func, args []Value) {
	if fn.Fn == nil {
		if x.Call.IsInvoke() && x.Call.Method.Name() == "Error" { // runtime error value
			f := st.top(th)
			s, _ := args[0].(string)
			f.set(x, "runtime error: "+s)
			f.pc++
			return
		}
		r.nilDeref(st, th)
		return
	}
	if fn.Fn.String() == "(*sync.Pool).Get" { // an empty pool: always a new value
		p := args[0].(Ptr)
		u := fn.Fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		mk, _ := st.obj(p.Obj).cells[p.Off+r.L.fieldOff(u, u.NumFields()-1)].(Func)
		if mk.Fn == nil {
			f := st.top(th)
			f.set(x, Iface{})
			f.pc++
			return
		}
		fn, args = mk, nil
	}
	if h := r.intrinsic(fn.Fn); h != nil {
		c := &call{st: st, th: th, fn: fn.Fn, args: args}
		v := h(r, c)
		if c.blocked || c.pushed || c.threw || st.outcome != nil {
			return
		}
		if !c.pass {
			f := st.top(th)
			if v == nil {
				v = Tuple{}
			}
			f.set(x, v)
			f.pc++
			return
		}
	}
	if fn.Fn.Synthetic == "package initializer" { // dependencies are initialized on first use
		f := st.top(th)
		f.set(x, Tuple{})
		f.pc++
		return
	}
	if fn.Fn.Pkg != nil && r.lazyInit(st, th, fn.Fn.Pkg) {
		return
	}
	r.P.build(fn.Fn)
	if fn.Fn.Blocks == nil {
		panic(unsupported("external function " + fn.Fn.String()))
	}
	r.pushFrame(st, th, fn.Fn, args, fn.Env)
}

// lazyInit runs a package's initializer before its first use; true means a
// frame was pushed and the current instruction must be executed again.
func (r *Run) lazyInit(st *State, th *Thread, pk *ssa.Package) bool {
	if pk == nil || st.inits[pk] {
		return false
	}
	st.inits[pk] = true
	if path := pk.Pkg.Path(); skipInit[path] || r.P.stdlib(pk) && !pureInit[path] {
		return false
	}
	r.P.buildPkg(pk)
	fn := pk.Func("init")
	if fn == nil || fn.Blocks == nil {
		return false
	}
	r.pushFrame(st, th, fn, nil, nil)
	st.top(th).isInit = true
	return true
}

// standard packages whose globals are plain tables
var pureInit = map[string]bool{"math/bits": true, "unicode/utf8": true, "sort": true, "slices": true, "strings": true, "bytes": true,
	"container/list": true, "container/heap": true, "cmp": true, "maps": true}

// packages whose initializers touch the runtime and whose globals the code
// under test does not need
var skipInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "reflect": true, "time": true,
	"internal/cpu": true, "internal/godebug": true, "internal/poll": true, "unicode": true,
	"fmt": true, "log": true, "sync": true, "sync/atomic": true, "internal/reflectlite": true,
	"golang.org/x/exp/errors/fmt": true, "golang.org/x/exp/errors": true, "internal/abi": true, "crypto": true,
	"math": true, "math/rand": true, "math/bits": false, VKTime: true, VKSync: true,
}

// ---------------------------------------------------------------- builtins

func (r *Run) builtin(st *State, th *Thread, f *Frame, x *ssa.Call, b *ssa.Builtin, args []Value) {
	C := r.C
	done := func(v Value) {
		f := st.top(th)
		f.set(x, v)
		f.pc++
	}
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case string:
			done(C.Int(int64(len(v))))
		case Slice:
			done(C.Int(int64(v.Len)))
		case MapV:
			n := 0
			if v.Obj != 0 {
				r.noteAccess(st, Ptr{v.Obj, 0}, 1, false)
				n = len(st.obj(v.Obj).keys)
			}
			done(C.Int(int64(n)))
		case ChanV:
			n := 0
			if v.Obj != 0 {
				if !r.visible(st, th, waitInfo{kind: opAtomic, ch: v.Obj}) {
					return
				}
				n = len(st.obj(v.Obj).cells)
			}
			done(C.Int(int64(n)))
		case Agg:
			done(C.Int(x.Call.Args[0].Type().Underlying().(*types.Array).Len()))
		case Ptr:
			done(C.Int(x.Call.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		default:
			panic(unsupported("len"))
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			done(C.Int(int64(v.Cap)))
		case ChanV:
			n := 0
			if v.Obj != 0 {
				n = st.obj(v.Obj).cap
			}
			done(C.Int(int64(n)))
		default:
			panic(unsupported("cap"))
		}
	case "append":
		s := args[0].(Slice)
		var et types.Type
		if sl, ok := x.Call.Args[0].Type().Underlying().(*types.Slice); ok {
			et = sl.Elem()
		} else {
			et = x.Type().Underlying().(*types.Slice).Elem()
		}
		n := r.L.sizeOf(et)
		var add []Value
		na := 0
		switch a := args[1].(type) {
		case string:
			for i := 0; i < len(a); i++ {
				add = append(add, C.Int(int64(a[i])))
			}
			na = len(a)
		case Slice:
			na = a.Len
			if a.Obj != 0 && na > 0 {
				r.noteAccess(st, Ptr{a.Obj, a.Off}, na*n, false)
				add = append(add, st.obj(a.Obj).cells[a.Off:a.Off+na*n]...)
			}
		}
		if na == 0 {
			done(s)
			return
		}
		if s.Len+na <= s.Cap {
			r.noteAccess(st, Ptr{s.Obj, s.Off + s.Len*n}, na*n, true)
			o := st.wobj(s.Obj)
			copy(o.cells[s.Off+s.Len*n:], add)
			done(Slice{s.Obj, s.Off, s.Len + na, s.Cap})
			return
		}
		c := growCap(s.Cap, s.Len+na, n)
		cells := make([]Value, 0, c*n)
		if s.Obj != 0 {
			r.noteAccess(st, Ptr{s.Obj, s.Off}, s.Len*n, false)
			cells = append(cells, st.obj(s.Obj).cells[s.Off:s.Off+s.Len*n]...)
		}
		cells = append(cells, add...)
		z := r.zeroCells(et)
		for len(cells) < c*n {
			cells = append(cells, z...)
		}
		p := st.allocCells(cells, "append")
		done(Slice{p.Obj, 0, s.Len + na, c})
	case "copy":
		d := args[0].(Slice)
		n := r.L.sizeOf(x.Call.Args[0].Type().Underlying().(*types.Slice).Elem())
		switch s := args[1].(type) {
		case Slice:
			k := min(d.Len, s.Len)
			if k > 0 {
				r.noteAccess(st, Ptr{s.Obj, s.Off}, k*n, false)
				r.noteAccess(st, Ptr{d.Obj, d.Off}, k*n, true)
				src := append([]Value(nil), st.obj(s.Obj).cells[s.Off:s.Off+k*n]...)
				copy(st.wobj(d.Obj).cells[d.Off:], src)
			}
			done(C.Int(int64(k)))
		case string:
			k := min(d.Len, len(s))
			if k > 0 {
				o := st.wobj(d.Obj)
				for i := 0; i < k; i++ {
					o.cells[d.Off+i] = C.Int(int64(s[i]))
				}
			}
			done(C.Int(int64(k)))
		}
	case "delete":
		r.mapDelete(st, args[0].(MapV), args[1])
		done(Tuple{})
	case "close":
		ch := args[0].(ChanV)
		if !r.visible(st, th, waitInfo{kind: opClose, ch: ch.Obj}) {
			return
		}
		if !r.closeChan(st, th, ch) {
			return
		}
		done(Tuple{})
	case "recover":
		n := len(th.frames)
		var v Value = Iface{}
		if n >= 2 && th.frames[n-1].isDefer && th.frames[n-2].panicking != nil && !th.frames[n-2].panicking.recovered {
			g := st.frameAt(th, n-2)
			g.panicking.recovered = true
			v = g.panicking.val
		}
		done(v)
	case "min", "max":
		acc := args[0]
		for _, a := range args[1:] {
			p, ok := acc.(*smt.Term)
			q, ok2 := a.(*smt.Term)
			if !ok || !ok2 {
				panic(unsupported("min/max"))
			}
			v, _ := r.binop(st, th, token.LSS, q, p, x.Type(), x.Type())
			less := r.decide(st, v.(*smt.Term))
			if less == (b.Name() == "min") {
				acc = q
			}
		}
		done(acc)
	case "clear":
		switch v := args[0].(type) {
		case MapV:
			if v.Obj != 0 {
				r.noteAccess(st, Ptr{v.Obj, 0}, 1, true)
				o := st.wobj(v.Obj)
				o.keys, o.cells = nil, nil
			}
		case Slice:
			n := r.L.sizeOf(x.Call.Args[0].Type().Underlying().(*types.Slice).Elem())
			z := r.zeroCells(x.Call.Args[0].Type().Underlying().(*types.Slice).Elem())
			if v.Len > 0 {
				o := st.wobj(v.Obj)
				for i := 0; i < v.Len; i++ {
					copy(o.cells[v.Off+i*n:], z)
				}
			}
		}
		done(Tuple{})
	case "print", "println":
		done(Tuple{})
	case "ssa:wrapnilchk":
		p := args[0].(Ptr)
		if p.Obj == 0 {
			r.nilDeref(st, th)
			return
		}
		done(p)
	case "real", "imag", "complex":
		panic(unsupported("complex numbers"))
	default:
		panic(unsupported("builtin " + b.Name()))
	}
}

func growCap(old, need, cells int) int {
	c := old
	double := c + c
	if need > double {
		c = need
	} else if old < 256 {
		c = double
	} else {
		for c < need {
			c += (c + 3*256) / 4
		}
	}
	// size classes of 8 byte (or larger) elements for small slices
	classes := []int{1, 2, 3, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30, 32, 36, 40, 44, 48, 52, 56, 60, 64}
	for _, k := range classes {
		words := c * cells
		if k >= words && k%cells == 0 {
			return k / cells
		}
	}
	return c
}

// ---------------------------------------------------------------- threads

func (r *Run) spawn(st *State, th *Thread, d deferred, x *ssa.Go) {
	if d.bi != nil {
		panic(unsupported("go builtin"))
	}
	if len(st.threads) >= r.Cfg.MaxThreads {
		panic(killPath{"bound: threads"})
	}
	th.spawned++
	st.run.maxThread++
	id := 1
	for _, t := range st.threads {
		if t.id >= id {
			id = t.id + 1
		}
	}
	name := fmt.Sprintf("%s.%d", th.name, th.spawned)
	t := &Thread{id: id, name: name}
	st.threads = append(st.threads, t)
	if d.fn.Fn == nil {
		panic(unsupported("go nil"))
	}
	if h := r.intrinsic(d.fn.Fn); h != nil {
		panic(unsupported("go intrinsic " + d.fn.Fn.String()))
	}
	r.pushFrame(st, t, d.fn.Fn, d.args, d.fn.Env)
	if st.race != nil {
		st.race.fork(th, t)
	}
	if r.Cfg.Mode == "conc" {
		r.noteRelease(st, relRec{kind: opStart, tid: id})
	}
}

func (r *Run) threadDone(st *State, th *Thread) {
	r.noteRelease(st, relRec{kind: opNone, tid: th.id})
}

// ---------------------------------------------------------------- visible operations

// enabled tells whether the visible operation w of th can be performed now.
func (r *Run) enabled(st *State, th *Thread, w waitInfo) bool {
	switch w.kind {
	case opLock:
		l := r.lockAt(st, w.ptr)
		return !l.locked && (len(l.readers) == 0 || r.isRW(w))
	case opLockPending:
		l := r.lockAt(st, w.ptr)
		return !l.locked && len(l.readers) == 0
	case opRLock:
		l := r.lockAt(st, w.ptr)
		return !l.locked && len(l.pending) == 0
	case opWgWait:
		n := r.wgAt(st, w.ptr)
		return n.IsConst() && n.K == 0
	case opSleep:
		v, ok := st.lookupKnown(r.C.ILe(w.wake, st.clock))
		return ok && v
	}
	return true
}

func (r *Run) isRW(w waitInfo) bool { return w.ch == -7 }

// visible is called before a visible operation is performed. False: the
// thread must stop here and the instruction be retried later.
func (r *Run) visible(st *State, th *Thread, w waitInfo) bool {
	if r.Cfg.Mode == "conc" {
		if th.granted {
			th.granted = false
			return true
		}
		th.status = atOp
		th.wait = w
		th.wait.loc = r.locOf(th.frames[len(th.frames)-1])
		return false
	}
	if !r.enabled(st, th, w) {
		th.status = atOp
		th.wait = w
		th.wait.loc = r.locOf(th.frames[len(th.frames)-1])
		return false
	}
	th.status = runnable
	return true
}

func (r *Run) lockAt(st *State, p Ptr) lockState {
	switch v := st.obj(p.Obj).cells[p.Off].(type) {
	case lockState:
		return v
	}
	return lockState{}
}

func (r *Run) wgAt(st *State, p Ptr) *smt.Term {
	if t, ok := st.obj(p.Obj).cells[p.Off].(*smt.Term); ok {
		return t
	}
	return r.C.Int(0)
}

func (r *Run) setLock(st *State, p Ptr, l lockState) {
	st.wobj(p.Obj).cells[p.Off] = l
}

func without(s []int, x int) []int {
	var out []int
	gone := false
	for _, y := range s {
		if y == x && !gone {
			gone = true
			continue
		}
		out = append(out, y)
	}
	return out
}

func with(s []int, x int) []int {
	out := append(append([]int(nil), s...), x)
	sort.Ints(out)
	return out
}

// mutexLock performs Lock on a plain mutex (rw=false) or an RWMutex.
func (r *Run) mutexLock(c *call, rw bool) {
	st, th := c.st, c.th
	p := c.args[0].(Ptr)
	if p.Obj == 0 {
		c.threw = true
		r.nilDeref(st, th)
		return
	}
	l := r.lockAt(st, p)
	isPending := false
	for _, t := range l.pending {
		if t == th.id {
			isPending = true
		}
	}
	w := waitInfo{kind: opLock, ptr: p}
	if rw {
		w.ch = -7
	}
	if isPending {
		w.kind = opLockPending
	}
	if !r.visible(st, th, w) {
		c.blocked = true
		return
	}
	l = r.lockAt(st, p)
	if len(l.readers) > 0 && !isPending {
		// announce: later readers wait
		l.pending = with(l.pending, th.id)
		r.setLock(st, p, l)
		c.blocked = true
		th.status = atOp
		th.wait = waitInfo{kind: opLockPending, ptr: p, ch: w.ch, loc: r.locOf(th.frames[len(th.frames)-1])}
		return
	}
	if isPending {
		l.pending = without(l.pending, th.id)
	}
	l.locked, l.writer = true, th.id
	r.setLock(st, p, l)
	r.acquire(st, th, p)
}

func (r *Run) mutexUnlock(c *call) {
	st, th := c.st, c.th
	p := c.args[0].(Ptr)
	if p.Obj == 0 {
		c.threw = true
		r.nilDeref(st, th)
		return
	}
	l := r.lockAt(st, p)
	if !l.locked {
		st.outcome = &Outcome{Kind: "panic", Msg: "fatal error: sync: unlock of unlocked mutex", Loc: r.locOf(th.frames[len(th.frames)-1])}
		return
	}
	l.locked, l.writer = false, 0
	r.release(st, th, p, opLock)
	r.setLock(st, p, l)
}

func (r *Run) rlock(c *call) {
	st, th := c.st, c.th
	p := c.args[0].(Ptr)
	if p.Obj == 0 {
		c.threw = true
		r.nilDeref(st, th)
		return
	}
	if !r.visible(st, th, waitInfo{kind: opRLock, ptr: p}) {
		c.blocked = true
		return
	}
	l := r.lockAt(st, p)
	l.readers = with(l.readers, th.id)
	r.setLock(st, p, l)
	r.acquire(st, th, p)
}

func (r *Run) runlock(c *call) {
	st, th := c.st, c.th
	p := c.args[0].(Ptr)
	if p.Obj == 0 {
		c.threw = true
		r.nilDeref(st, th)
		return
	}
	l := r.lockAt(st, p)
	if len(l.readers) == 0 {
		st.outcome = &Outcome{Kind: "panic", Msg: "fatal error: sync: RUnlock of unlocked RWMutex", Loc: r.locOf(th.frames[len(th.frames)-1])}
		return
	}
	n := without(l.readers, th.id)
	if len(n) == len(l.readers) {
		n = n[1:]
	}
	l.readers = n
	r.release(st, th, p, opRLock)
	r.setLock(st, p, l)
}

// ---------------------------------------------------------------- channels

func (r *Run) wake(st *State, tid int, res *resume) {
	t := st.byID(tid)
	// leave every queue
	for _, id := range r.parkedIn(st, t) {
		o := st.wobj(id)
		o.sendq = dropWaiter(o.sendq, tid)
		o.recvq = dropWaiter(o.recvq, tid)
	}
	t.resume = res
	t.status = runnable
	t.wait = waitInfo{}
}

func (r *Run) parkedIn(st *State, t *Thread) []int {
	var out []int
	for id := 1; id < len(st.objs); id++ {
		o := st.objs[id]
		if o == nil || o.kind != kChan {
			continue
		}
		for _, w := range o.sendq {
			if w.tid == t.id {
				out = append(out, id)
			}
		}
		for _, w := range o.recvq {
			if w.tid == t.id {
				out = append(out, id)
			}
		}
	}
	return out
}

func dropWaiter(q []waiter, tid int) []waiter {
	var out []waiter
	for _, w := range q {
		if w.tid != tid {
			out = append(out, w)
		}
	}
	return out
}

func (r *Run) park(st *State, th *Thread, w waitInfo) {
	th.status = parked
	w.loc = r.locOf(th.frames[len(th.frames)-1])
	th.wait = w
}

// trySend performs a send if possible.
func (r *Run) trySend(st *State, th *Thread, ch int, v Value) bool {
	o := st.obj(ch)
	if len(o.recvq) > 0 {
		w := o.recvq[0]
		r.hbChan(st, th, ch, w.tid)
		r.wake(st, w.tid, &resume{val: v, ok: true, kase: w.kase})
		return true
	}
	if len(o.cells) < o.cap {
		o = st.wobj(ch)
		o.cells = append(o.cells, v)
		r.release(st, th, Ptr{ch, 0}, opSend)
		return true
	}
	return false
}

func (r *Run) tryRecv(st *State, th *Thread, ch int) (v Value, ok, done bool) {
	o := st.obj(ch)
	if len(o.cells) > 0 {
		o = st.wobj(ch)
		v = o.cells[0]
		o.cells = append([]Value(nil), o.cells[1:]...)
		r.acquire(st, th, Ptr{ch, 0})
		if len(o.sendq) > 0 {
			w := o.sendq[0]
			o.cells = append(o.cells, w.val)
			r.hbChan(st, th, ch, w.tid)
			r.wake(st, w.tid, &resume{ok: true, kase: w.kase})
		}
		return v, true, true
	}
	if len(o.sendq) > 0 {
		w := o.sendq[0]
		v = w.val
		r.hbChan(st, th, ch, w.tid)
		r.wake(st, w.tid, &resume{ok: true, kase: w.kase})
		return v, true, true
	}
	if o.closed {
		r.acquire(st, th, Ptr{ch, 0})
		return nil, false, true
	}
	return nil, false, false
}

func (r *Run) sendInstr(st *State, th *Thread, f *Frame, x *ssa.Send) {
	if th.resume != nil {
		res := th.resume
		th.resume = nil
		if !res.ok {
			r.throw(st, th, Iface{r.rtErr, "send on closed channel"}, "send on closed channel")
			return
		}
		f.pc++
		return
	}
	ch := r.get(st, f, x.Chan).(ChanV)
	v := r.get(st, f, x.X)
	if !r.visible(st, th, waitInfo{kind: opSend, ch: ch.Obj}) {
		return
	}
	if ch.Obj == 0 {
		r.park(st, th, waitInfo{kind: opSend})
		return
	}
	if st.obj(ch.Obj).closed {
		r.throw(st, th, Iface{r.rtErr, "send on closed channel"}, "send on closed channel")
		return
	}
	if r.trySend(st, th, ch.Obj, v) {
		st.top(th).pc++
		return
	}
	o := st.wobj(ch.Obj)
	o.sendq = append(o.sendq, waiter{th.id, v, -1})
	r.park(st, th, waitInfo{kind: opSend, ch: ch.Obj})
}

func (r *Run) recvInstr(st *State, th *Thread, f *Frame, x *ssa.UnOp) {
	et := x.X.Type().Underlying().(*types.Chan).Elem()
	finish := func(v Value, ok bool) {
		if v == nil {
			v = r.zero(et)
		}
		f := st.top(th)
		if x.CommaOk {
			f.set(x, Tuple{v, r.C.Bool(ok)})
		} else {
			f.set(x, v)
		}
		f.pc++
	}
	if th.resume != nil {
		res := th.resume
		th.resume = nil
		finish(res.val, res.ok)
		return
	}
	ch := r.get(st, f, x.X).(ChanV)
	if !r.visible(st, th, waitInfo{kind: opRecv, ch: ch.Obj}) {
		return
	}
	if ch.Obj == 0 {
		r.park(st, th, waitInfo{kind: opRecv})
		return
	}
	if v, ok, done := r.tryRecv(st, th, ch.Obj); done {
		finish(v, ok)
		return
	}
	o := st.wobj(ch.Obj)
	o.recvq = append(o.recvq, waiter{th.id, nil, -1})
	r.park(st, th, waitInfo{kind: opRecv, ch: ch.Obj})
}

func (r *Run) closeChan(st *State, th *Thread, ch ChanV) bool {
	if ch.Obj == 0 {
		r.throw(st, th, Iface{r.rtErr, "close of nil channel"}, "close of nil channel")
		return false
	}
	o := st.obj(ch.Obj)
	if o.closed {
		r.throw(st, th, Iface{r.rtErr, "close of closed channel"}, "close of closed channel")
		return false
	}
	o = st.wobj(ch.Obj)
	o.closed = true
	rq, sq := o.recvq, o.sendq
	r.release(st, th, Ptr{ch.Obj, 0}, opClose)
	for _, w := range rq {
		r.hbChan(st, th, ch.Obj, w.tid)
		r.wake(st, w.tid, &resume{ok: false, kase: w.kase})
	}
	for _, w := range sq {
		r.hbChan(st, th, ch.Obj, w.tid)
		r.wake(st, w.tid, &resume{ok: false, kase: w.kase})
	}
	return true
}

func (r *Run) selectInstr(st *State, th *Thread, f *Frame, x *ssa.Select) {
	recvIdx := func(k int) int { // position of case k among the receives
		n := 0
		for i := 0; i < k; i++ {
			if x.States[i].Dir == types.RecvOnly {
				n++
			}
		}
		return n
	}
	finish := func(k int, v Value, ok bool) {
		t := Tuple{r.C.Int(int64(k)), r.C.Bool(ok)}
		for i, s := range x.States {
			if s.Dir == types.RecvOnly {
				et := s.Chan.Type().Underlying().(*types.Chan).Elem()
				if i == k && v != nil {
					t = append(t, v)
				} else {
					t = append(t, r.zero(et))
				}
			}
		}
		_ = recvIdx
		f := st.top(th)
		f.set(x, t)
		f.pc++
	}
	if th.resume != nil {
		res := th.resume
		th.resume = nil
		if x.States[res.kase].Dir == types.SendOnly && !res.ok {
			r.throw(st, th, Iface{r.rtErr, "send on closed channel"}, "send on closed channel")
			return
		}
		finish(res.kase, res.val, res.ok)
		return
	}
	first := 0
	for _, s := range x.States {
		if c := r.get(st, f, s.Chan).(ChanV).Obj; c != 0 && first == 0 {
			first = c
		}
	}
	if !r.visible(st, th, waitInfo{kind: opSelect, ch: first}) {
		return
	}
	var ready []int
	for i, s := range x.States {
		ch := r.get(st, f, s.Chan).(ChanV).Obj
		if ch == 0 {
			continue
		}
		o := st.obj(ch)
		if s.Dir == types.SendOnly {
			if o.closed || len(o.recvq) > 0 || len(o.cells) < o.cap {
				ready = append(ready, i)
			}
		} else if len(o.cells) > 0 || len(o.sendq) > 0 || o.closed {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		if !x.Blocking {
			finish(-1, nil, false)
			return
		}
		for i, s := range x.States {
			ch := r.get(st, f, s.Chan).(ChanV).Obj
			if ch == 0 {
				continue
			}
			o := st.wobj(ch)
			if s.Dir == types.SendOnly {
				o.sendq = append(o.sendq, waiter{th.id, r.get(st, f, s.Send), i})
			} else {
				o.recvq = append(o.recvq, waiter{th.id, nil, i})
			}
		}
		r.park(st, th, waitInfo{kind: opSelect, ch: first})
		return
	}
	k := ready[0]
	if len(ready) > 1 {
		// which ready case runs is not determined: a fresh symbolic choice
		v := r.C.IntVar(fmt.Sprintf("select!%s.%d.%d", th.name, st.steps, st.level), 0, int64(len(ready)-1))
		granted := true
		if r.Cfg.Mode == "conc" {
			th.granted = true // the forked sibling retries the instruction
		}
		_ = granted
		pick := int(r.concretize(st, v))
		k = ready[pick]
		th = st.byID(th.id)
		th.granted = false
		if st.cn != nil && st.cn.id < 0 {
			cn := *st.cn
			cn.step.Kase = pick + 1
			st.cn = &cn
		}
	}
	s := x.States[k]
	ch := r.get(st, f, s.Chan).(ChanV).Obj
	if s.Dir == types.SendOnly {
		if st.obj(ch).closed {
			r.throw(st, th, Iface{r.rtErr, "send on closed channel"}, "send on closed channel")
			return
		}
		r.trySend(st, th, ch, r.get(st, f, s.Send))
		finish(k, nil, true)
		return
	}
	v, ok, _ := r.tryRecv(st, th, ch)
	finish(k, v, ok)
}
