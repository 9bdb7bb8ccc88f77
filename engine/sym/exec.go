package sym

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"

	"verifengine/smt"
)

// fnInfo numbers the registers of a function.
type fnInfo struct {
	fn   *ssa.Function
	idx  map[ssa.Value]int
	n    int
	gl   map[ssa.Instruction]*ssa.Package // instructions that mention a global
	live map[int][]bool                   // block<<16|pc: live registers (lazily)
}

// Program is shared by all runs.
type Program struct {
	SSA   *ssa.Program
	Pkgs  map[string]*ssa.Package
	mu    sync.Mutex
	infos map[*ssa.Function]*fnInfo
	built map[*ssa.Package]bool
	lmu   sync.Mutex
	// Sources are the loaded packages with their syntax.
	Sources []*packages.Package
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.infos[fn]; ok {
		return i
	}
	i := &fnInfo{fn: fn, idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) { i.idx[v] = i.n; i.n++ }
	for _, x := range fn.Params {
		add(x)
	}
	for _, x := range fn.FreeVars {
		add(x)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			var ops [8]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				if g, ok := (*o).(*ssa.Global); ok && g.Pkg != fn.Pkg {
					if i.gl == nil {
						i.gl = map[ssa.Instruction]*ssa.Package{}
					}
					i.gl[in] = g.Pkg
				}
			}
		}
	}
	p.infos[fn] = i
	return i
}

func (r *Run) pushFrame(st *State, th *Thread, fn *ssa.Function, args, env []Value) *Frame {
	r.P.build(fn)
	if fn.Blocks == nil {
		panic(unsupported("function without body: " + fn.String()))
	}
	if len(th.frames) > r.Cfg.MaxDepth {
		panic(killPath{"bound: call depth"})
	}
	info := r.P.info(fn)
	f := &Frame{epoch: st.epoch, fn: info, regs: make([]Value, info.n), prev: -1}
	copy(f.regs, args)
	copy(f.regs[len(fn.Params):], env)
	th.frames = append(th.frames, f)
	r.noteFn(fn)
	return f
}

func (r *Run) constVal(c *ssa.Const) Value {
	if v, ok := r.consts[c]; ok {
		return v
	}
	v := r.mkConst(c)
	r.consts[c] = v
	return v
}

func (r *Run) mkConst(c *ssa.Const) Value {
	if c.Value == nil {
		return r.zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		if tp, ok := t.(*types.Interface); ok && tp != nil {
			panic(unsupported("const of interface type"))
		}
		panic(unsupported("const of type " + t.String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return r.C.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		n, _ := constant.Int64Val(c.Value)
		return string(rune(n))
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		bi, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			panic(unsupported("integer constant"))
		}
		return r.C.BigInt(bi)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return r.float(f)
	}
	panic(unsupported("const of type " + t.String()))
}

func (r *Run) get(st *State, f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return r.constVal(x)
	case *ssa.Global:
		return Ptr{r.global(st, x), 0}
	case *ssa.Function:
		return Func{Fn: x}
	case *ssa.Builtin:
		return x
	}
	i, ok := f.fn.idx[v]
	if !ok {
		panic(unsupported("no register for " + v.Name()))
	}
	return f.regs[i]
}

func (f *Frame) set(v ssa.Value, x Value) { f.regs[f.fn.idx[v]] = x }

func (r *Run) global(st *State, g *ssa.Global) int {
	id, ok := r.gids[g]
	if !ok {
		id = len(r.gids) + 1
		r.gids[g] = id
	}
	for len(st.globs) <= id {
		st.globs = append(st.globs, nil)
	}
	if st.globs[id] == nil {
		t := g.Type().Underlying().(*types.Pointer).Elem()
		st.globs[id] = &Obj{epoch: st.epoch, kind: kCells, cells: r.zeroCells(t), tag: g.String()}
		if r.P.stdlib(g.Pkg) {
			st.globs[id].ro = false
		}
	}
	return -id
}

func (p *Program) stdlib(pk *ssa.Package) bool {
	if pk == nil {
		return true
	}
	path := pk.Pkg.Path()
	if len(path) > 12 && path[:12] == "verifharness" {
		return false
	}
	for i := 0; i < len(path); i++ {
		if path[i] == '.' {
			return false
		}
		if path[i] == '/' {
			break
		}
	}
	return true
}

// ---------------------------------------------------------------- memory

func (r *Run) load(st *State, p Ptr, t types.Type) Value {
	o := st.obj(p.Obj)
	if o == nil {
		panic(unsupported("load from missing object"))
	}
	r.noteAccess(st, p, r.L.sizeOf(t), false)
	if isAgg(t) {
		n := r.L.sizeOf(t)
		out := make(Agg, n)
		copy(out, o.cells[p.Off:p.Off+n])
		return out
	}
	if p.Off >= len(o.cells) {
		panic(unsupported("load outside object"))
	}
	return o.cells[p.Off]
}

func (r *Run) store(st *State, p Ptr, v Value) {
	n := 1
	if a, ok := v.(Agg); ok {
		n = len(a)
	}
	r.noteAccess(st, p, n, true)
	o := st.wobj(p.Obj)
	if a, ok := v.(Agg); ok {
		copy(o.cells[p.Off:], a)
		return
	}
	o.cells[p.Off] = v
}

func (r *Run) nilDeref(st *State, th *Thread) {
	r.throwRT(st, th, "invalid memory address or nil pointer dereference")
}

// ---------------------------------------------------------------- panics

func (r *Run) throwRT(st *State, th *Thread, msg string) {
	r.throw(st, th, Iface{T: r.rtErr, V: msg}, "runtime error: "+msg)
}

// throw starts panicking in the current frame.
func (r *Run) throw(st *State, th *Thread, v Iface, desc string) {
	f := st.top(th)
	f.panicking = &panicRec{val: v, where: desc + " at " + r.locOf(f)}
	r.unwind(st, th)
}

// unwind runs the next deferred call of the panicking top frame, or pops it.
func (r *Run) unwind(st *State, th *Thread) {
	for {
		f := st.top(th)
		p := f.panicking
		if p.recovered {
			// return to the caller with the named results
			f.panicking = nil
			if len(f.defers) > 0 {
				// remaining deferred calls run normally, then the recover block
				f.block, f.pc, f.prev = -1, 0, -1
				r.runDefersThenRecover(st, th)
				return
			}
			r.finishRecovered(st, th)
			return
		}
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			r.callDeferred(st, th, d)
			return
		}
		// propagate
		if len(th.frames) == 1 || f.isInit {
			st.outcome = &Outcome{Kind: "panic", Msg: p.where, Loc: p.where}
			return
		}
		was := f.isDefer
		th.frames = th.frames[:len(th.frames)-1]
		g := st.top(th)
		if was && g.panicking != nil {
			// a deferred call panicked while unwinding: replaces the panic
			g.panicking = &panicRec{val: p.val, where: p.where}
			continue
		}
		g.panicking = &panicRec{val: p.val, where: p.where}
	}
}

func (r *Run) runDefersThenRecover(st *State, th *Thread) {
	f := st.top(th)
	if n := len(f.defers); n > 0 {
		d := f.defers[n-1]
		f.defers = f.defers[:n-1]
		r.callDeferred(st, th, d)
		return
	}
	r.finishRecovered(st, th)
}

func (r *Run) finishRecovered(st *State, th *Thread) {
	f := st.top(th)
	if rb := f.fn.fn.Recover; rb != nil {
		f.prev = f.block
		f.block, f.pc = rb.Index, 0
		return
	}
	r.doReturn(st, th, r.zeroResults(f.fn.fn))
}

func (r *Run) zeroResults(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return Tuple{}
	case 1:
		return r.zero(res.At(0).Type())
	}
	return r.zero(res)
}

func (r *Run) callDeferred(st *State, th *Thread, d deferred) {
	if d.bi != nil {
		// deferred builtin (close, delete, print, recover)
		r.deferredBuiltin(st, th, d)
		return
	}
	n := len(th.frames)
	if d.fn.Fn == nil {
		r.nilDeref(st, th)
		return
	}
	if h := r.intrinsic(d.fn.Fn); h != nil {
		c := &call{st: st, th: th, fn: d.fn.Fn, args: d.args, deferred: true}
		v := h(r, c)
		if c.pass {
			r.pushFrame(st, th, d.fn.Fn, d.args, d.fn.Env)
			st.top(th).isDefer = true
			return
		}
		if c.threw || st.outcome != nil {
			return
		}
		if c.blocked {
			// undo the pop so that the call is retried
			f := st.top(th)
			f.defers = append(f.defers, d)
			return
		}
		_ = v
		if c.pushed {
			st.top(th).isDefer = true
			return
		}
		r.afterDeferred(st, th)
		return
	}
	r.pushFrame(st, th, d.fn.Fn, d.args, d.fn.Env)
	_ = n
	st.top(th).isDefer = true
}

func (r *Run) deferredBuiltin(st *State, th *Thread, d deferred) {
	switch d.bi.Name() {
	case "close":
		if !r.visible(st, th, waitInfo{kind: opClose, ch: d.args[0].(ChanV).Obj}) {
			f := st.top(th)
			f.defers = append(f.defers, d)
			return
		}
		if !r.closeChan(st, th, d.args[0].(ChanV)) {
			return
		}
	case "recover":
		f := st.top(th)
		if f.panicking != nil {
			// "defer recover()" does not stop a panic
		}
	case "delete", "print", "println":
		if d.bi.Name() == "delete" {
			r.mapDelete(st, d.args[0].(MapV), d.args[1])
		}
	default:
		panic(unsupported("deferred builtin " + d.bi.Name()))
	}
	r.afterDeferred(st, th)
}

// afterDeferred continues a frame whose deferred call has just returned.
func (r *Run) afterDeferred(st *State, th *Thread) {
	f := st.top(th)
	if f.panicking != nil {
		r.unwind(st, th)
		return
	}
	if f.block == -1 {
		r.runDefersThenRecover(st, th)
	}
	// else: normal RunDefers, the instruction is executed again
}

// doReturn pops the top frame and hands v to the caller.
func (r *Run) doReturn(st *State, th *Thread, v Value) {
	f := th.frames[len(th.frames)-1]
	th.frames = th.frames[:len(th.frames)-1]
	if f.isInit {
		return // the caller's instruction is executed again
	}
	if len(th.frames) == 0 {
		th.status = done
		r.threadDone(st, th)
		return
	}
	if f.isDefer {
		r.afterDeferred(st, th)
		return
	}
	if f.native != nil {
		f.native(st, th, v)
		return
	}
	g := st.top(th)
	in := r.P.instr(g)
	if c, ok := in.(*ssa.Call); ok {
		g.set(c, v)
	}
	g.pc++
}

func (p *Program) instr(f *Frame) ssa.Instruction {
	return f.fn.fn.Blocks[f.block].Instrs[f.pc]
}

func (r *Run) locOf(f *Frame) string {
	if f.block < 0 {
		return f.fn.fn.String()
	}
	in := r.P.instr(f)
	pos := in.Pos()
	for k := f.pc; !pos.IsValid() && k >= 0; k-- {
		pos = f.fn.fn.Blocks[f.block].Instrs[k].Pos()
	}
	if !pos.IsValid() {
		pos = f.fn.fn.Pos()
	}
	return shortPos(r.P.SSA.Fset.Position(pos)) + " (" + f.fn.fn.String() + ")"
}

func shortPos(p token.Position) string {
	return fmt.Sprintf("%s:%d", p.Filename, p.Line)
}

// ---------------------------------------------------------------- decisions

// decide resolves a condition, forking the state when both outcomes are
// possible: the clone re-executes the current instruction, so callers must
// not have mutated the state yet.
func (r *Run) decide(st *State, cond *smt.Term) bool {
	if cond.IsConst() {
		return cond.K == 1
	}
	if v, ok := st.lookupKnown(cond); ok {
		return v
	}
	r.branches++
	neg := r.C.Not(cond)
	canT, canF := smt.Unknown, smt.Unknown
	var mT, mF smt.Model
	if st.model != nil {
		if v := r.C.Eval(cond, st.model, map[int]*smt.Term{}); v != nil {
			if v.IsTrue() {
				canT, mT = smt.Sat, st.model
			} else {
				canF, mF = smt.Sat, st.model
			}
		}
	}
	if canT == smt.Unknown {
		canT, mT = r.checkSlice(st, cond)
	}
	if canF == smt.Unknown {
		if canT == smt.Unsat {
			canF = smt.Sat // the path itself is feasible
			mF = st.model
		} else {
			canF, mF = r.checkSlice(st, neg)
		}
	}
	if canT == smt.Unknown && canF == smt.Unknown {
		r.reduced("solver unknown at a branch")
	}
	if canT == smt.Unknown || canF == smt.Unknown {
		st.unsure = true // the path condition may be infeasible
	}
	switch {
	case canT == smt.Unsat && canF == smt.Unsat:
		panic(killPath{"infeasible"})
	case canT == smt.Unsat:
		st.setKnown(cond, false)
		return false
	case canF == smt.Unsat:
		st.setKnown(cond, true)
		return true
	}
	o := st.fork()
	o.assume(neg)
	o.model = mF
	r.push(o)
	st.assume(cond)
	st.model = mT
	return true
}

// concretize forks over the values of an integer term.
func (r *Run) concretize(st *State, t *smt.Term) int64 {
	if t.IsConst() {
		if t.R != nil {
			panic(unsupported("integer out of range"))
		}
		return t.K
	}
	if t.Lo > smt.NoLo && t.Hi < smt.NoHi && t.Hi-t.Lo <= 64 {
		for k := t.Lo; k < t.Hi; k++ {
			if r.decide(st, r.C.IEq(t, r.C.Int(k))) {
				return k
			}
		}
		return t.Hi
	}
	for i := 0; i < 64; i++ {
		res, m := r.checkVars(st, nil, smt.Vars([]*smt.Term{t}))
		if res != smt.Sat {
			panic(killPath{"bound: concretization without model"})
		}
		v := r.C.Eval(t, m, map[int]*smt.Term{})
		if v == nil || v.R != nil {
			panic(killPath{"bound: concretization without value"})
		}
		if r.decide(st, r.C.IEq(t, v)) {
			return v.K
		}
	}
	panic(killPath{"bound: too many values to concretize"})
}

// ---------------------------------------------------------------- stepping

// step executes one instruction of thread th (which must be runnable).
func (r *Run) step(st *State, th *Thread) {
	st.steps++
	if st.steps > r.Cfg.MaxSteps {
		panic(killPath{"bound: steps"})
	}
	f := st.top(th)
	if f.panicking != nil {
		r.unwind(st, th)
		return
	}
	if f.block == -1 {
		r.runDefersThenRecover(st, th)
		return
	}
	in := r.P.instr(f)
	r.instrs++
	if f.fn.gl != nil {
		if pk := f.fn.gl[in]; pk != nil && r.lazyInit(st, th, pk) {
			return
		}
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		f.pc++
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		f.set(x, st.allocCells(r.zeroCells(t), x.Comment))
		f.pc++
	case *ssa.BinOp:
		v, ok := r.binop(st, th, x.Op, r.get(st, f, x.X), r.get(st, f, x.Y), x.X.Type(), x.Y.Type())
		if ok {
			f = st.top(th)
			f.set(x, v)
			f.pc++
		}
	case *ssa.UnOp:
		r.unop(st, th, f, x)
	case *ssa.Call:
		r.doCall(st, th, f, x)
	case *ssa.ChangeInterface:
		f.set(x, r.get(st, f, x.X))
		f.pc++
	case *ssa.ChangeType:
		f.set(x, r.get(st, f, x.X))
		f.pc++
	case *ssa.Convert:
		v := r.convert(st, r.get(st, f, x.X), x.X.Type(), x.Type())
		f = st.top(th)
		f.set(x, v)
		f.pc++
	case *ssa.MultiConvert:
		panic(unsupported("MultiConvert"))
	case *ssa.Defer:
		d, ok := r.prepareCall(st, th, f, &x.Call)
		if !ok {
			return
		}
		d.instr = x
		f.defers = append(f.defers, d)
		f.pc++
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			r.callDeferred(st, th, d)
			return
		}
		f.pc++
	case *ssa.Extract:
		f.set(x, r.get(st, f, x.Tuple).(Tuple)[x.Index])
		f.pc++
	case *ssa.Field:
		a := r.get(st, f, x.X).(Agg)
		u := x.X.Type().Underlying().(*types.Struct)
		off := r.L.fieldOff(u, x.Field)
		f.set(x, slice(a, off, u.Field(x.Field).Type(), r))
		f.pc++
	case *ssa.FieldAddr:
		p := r.get(st, f, x.X).(Ptr)
		if p.Obj == 0 {
			r.nilDeref(st, th)
			return
		}
		u := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		f.set(x, Ptr{p.Obj, p.Off + r.L.fieldOff(u, x.Field)})
		f.pc++
	case *ssa.Go:
		d, ok := r.prepareCall(st, th, f, &x.Call)
		if !ok {
			return
		}
		r.spawn(st, th, d, x)
		st.top(th).pc++
	case *ssa.If:
		c := r.get(st, f, x.Cond).(*smt.Term)
		b := r.decide(st, c)
		f = st.top(th)
		if b {
			r.jump(st, f, 0)
		} else {
			r.jump(st, f, 1)
		}
	case *ssa.Index:
		r.index(st, th, f, x)
	case *ssa.IndexAddr:
		r.indexAddr(st, th, f, x)
	case *ssa.Jump:
		r.jump(st, f, 0)
	case *ssa.Lookup:
		r.lookup(st, th, f, x)
	case *ssa.MakeChan:
		n := r.concretize(st, r.get(st, f, x.Size).(*smt.Term))
		if n < 0 {
			r.throwRT(st, th, "makechan: size out of range")
			return
		}
		id := st.newObj(&Obj{kind: kChan, cap: int(n)})
		f = st.top(th)
		f.set(x, ChanV{id})
		f.pc++
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		env := make([]Value, len(x.Bindings))
		for i, b := range x.Bindings {
			env[i] = r.get(st, f, b)
		}
		f.set(x, Func{fn, env})
		f.pc++
	case *ssa.MakeInterface:
		f.set(x, Iface{x.X.Type(), r.get(st, f, x.X)})
		f.pc++
	case *ssa.MakeMap:
		id := st.newObj(&Obj{kind: kMap})
		f.set(x, MapV{id})
		f.pc++
	case *ssa.MakeSlice:
		n := r.concretize(st, r.get(st, f, x.Len).(*smt.Term))
		c := r.concretize(st, r.get(st, f, x.Cap).(*smt.Term))
		if n < 0 || n > 1<<40 {
			r.throwRT(st, th, "makeslice: len out of range")
			return
		}
		if c < n {
			r.throwRT(st, th, "makeslice: cap out of range")
			return
		}
		if c > 1<<16 {
			panic(killPath{"bound: slice size"})
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		z := r.zeroCells(et)
		cells := make([]Value, 0, int(c)*len(z))
		for i := 0; i < int(c); i++ {
			cells = append(cells, z...)
		}
		f = st.top(th)
		p := st.allocCells(cells, "makeslice")
		f.set(x, Slice{p.Obj, 0, int(n), int(c)})
		f.pc++
	case *ssa.MapUpdate:
		m := r.get(st, f, x.Map).(MapV)
		if m.Obj == 0 {
			r.throw(st, th, Iface{r.rtErr, "assignment to entry in nil map"}, "assignment to entry in nil map")
			return
		}
		k, v := r.get(st, f, x.Key), r.get(st, f, x.Value)
		r.mapSet(st, m, k, v)
		st.top(th).pc++
	case *ssa.Next:
		r.next(st, f, x)
	case *ssa.Panic:
		v := r.get(st, f, x.X).(Iface)
		r.throw(st, th, v, "panic: "+r.ifaceString(st, v))
	case *ssa.Phi:
		r.phis(st, f)
	case *ssa.Range:
		r.rang(st, f, x)
	case *ssa.Return:
		var v Value
		switch len(x.Results) {
		case 0:
			v = Tuple{}
		case 1:
			v = r.get(st, f, x.Results[0])
		default:
			t := make(Tuple, len(x.Results))
			for i, a := range x.Results {
				t[i] = r.get(st, f, a)
			}
			v = t
		}
		r.doReturn(st, th, v)
	case *ssa.Select:
		r.selectInstr(st, th, f, x)
	case *ssa.Send:
		r.sendInstr(st, th, f, x)
	case *ssa.Slice:
		r.sliceInstr(st, th, f, x)
	case *ssa.SliceToArrayPointer:
		panic(unsupported("SliceToArrayPointer"))
	case *ssa.Store:
		p := r.get(st, f, x.Addr).(Ptr)
		if p.Obj == 0 {
			r.nilDeref(st, th)
			return
		}
		r.store(st, p, r.get(st, f, x.Val))
		f.pc++
	case *ssa.TypeAssert:
		r.typeAssert(st, th, f, x)
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
}

func slice(a Agg, off int, t types.Type, r *Run) Value {
	if isAgg(t) {
		n := r.L.sizeOf(t)
		return append(Agg(nil), a[off:off+n]...)
	}
	return a[off]
}

func (r *Run) jump(st *State, f *Frame, succ int) {
	b := f.fn.fn.Blocks[f.block]
	f.prev = f.block
	f.block = b.Succs[succ].Index
	f.pc = 0
}

func (r *Run) phis(st *State, f *Frame) {
	b := f.fn.fn.Blocks[f.block]
	edge := -1
	for i, p := range b.Preds {
		if p.Index == f.prev {
			edge = i
			break
		}
	}
	var vals []Value
	n := f.pc
	for ; n < len(b.Instrs); n++ {
		ph, ok := b.Instrs[n].(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, r.get(st, f, ph.Edges[edge]))
	}
	for i := f.pc; i < n; i++ {
		f.set(b.Instrs[i].(*ssa.Phi), vals[i-f.pc])
	}
	f.pc = n
}

// ---------------------------------------------------------------- operators

func (r *Run) float(f float64) *smt.Term {
	if r.Cfg.Float == "fp" {
		return r.C.FPF(f)
	}
	return r.C.RealF(f)
}

func isFloat32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}

// float32 rounds a number that is not symbolic to single precision.
func (r *Run) float32(t *smt.Term) *smt.Term {
	if t.IsConst() && t.Sort == smt.Real && t.Special == 0 {
		f, _ := t.R.Float32()
		return r.float(float64(f))
	}
	f, ok := t.FloatVal()
	if !ok {
		panic(unsupported("float32"))
	}
	return r.float(float64(float32(f)))
}

func (r *Run) binop(st *State, th *Thread, op token.Token, a, b Value, ta, tb types.Type) (Value, bool) {
	C := r.C
	switch op {
	case token.EQL:
		return r.eq(st, a, b), true
	case token.NEQ:
		return C.Not(r.eq(st, a, b)), true
	}
	if s, ok := a.(string); ok {
		t := b.(string)
		switch op {
		case token.ADD:
			return s + t, true
		case token.LSS:
			return C.Bool(s < t), true
		case token.LEQ:
			return C.Bool(s <= t), true
		case token.GTR:
			return C.Bool(s > t), true
		case token.GEQ:
			return C.Bool(s >= t), true
		}
	}
	x, ok1 := a.(*smt.Term)
	y, ok2 := b.(*smt.Term)
	if !ok1 || !ok2 {
		panic(unsupported(fmt.Sprintf("operator %s on %T", op, a)))
	}
	if isFloat(ta) {
		z := r.fbin(st, op, x, y)
		if isFloat32(ta) && z.Sort != smt.Bool {
			z = r.float32(z)
		}
		return z, true
	}
	if isBool(ta) {
		switch op {
		case token.AND, token.LAND:
			return C.And(x, y), true
		case token.OR, token.LOR:
			return C.Or(x, y), true
		}
		panic(unsupported("bool operator " + op.String()))
	}
	bits, signed := intBits(ta)
	switch op {
	case token.ADD:
		return C.Wrap(C.IAdd(x, y), bits, signed), true
	case token.SUB:
		return C.Wrap(C.ISub(x, y), bits, signed), true
	case token.MUL:
		return C.Wrap(C.IMul(x, y), bits, signed), true
	case token.QUO, token.REM:
		if r.decide(st, C.IEq(y, C.Int(0))) {
			r.throwRT(st, th, "integer divide by zero")
			return nil, false
		}
		if op == token.QUO {
			return C.Wrap(C.IDiv(x, y), bits, signed), true
		}
		return C.IRem(x, y), true
	case token.LSS:
		return C.ILt(x, y), true
	case token.LEQ:
		return C.ILe(x, y), true
	case token.GTR:
		return C.ILt(y, x), true
	case token.GEQ:
		return C.ILe(y, x), true
	}
	// bit operations
	if op == token.SHL && y.IsConst() && !x.IsConst() && y.K < 62 {
		return C.Wrap(C.IMul(x, C.Int(1<<uint(y.K))), bits, signed), true
	}
	if op == token.SHR && y.IsConst() && !x.IsConst() && y.K < 62 && x.Lo >= 0 {
		return C.IDiv(x, C.Int(1<<uint(y.K))), true
	}
	if op == token.AND && !x.IsConst() && y.IsConst() && y.R == nil && x.Lo >= 0 && y.K >= 0 && y.K&(y.K+1) == 0 {
		return C.IRem(x, C.Int(y.K+1)), true
	}
	if op == token.AND && !x.IsConst() && y.IsConst() && y.R == nil && y.K == 0 {
		return y, true
	}
	xi, yi := C.Int(0), C.Int(0)
	if !x.IsConst() {
		xi = C.Int(r.concretize(st, x))
	} else {
		xi = x
	}
	if !y.IsConst() {
		yi = C.Int(r.concretize(st, y))
	} else {
		yi = y
	}
	p, q := xi.BigVal(), yi.BigVal()
	z := new(big.Int)
	switch op {
	case token.AND:
		z.And(p, q)
	case token.OR:
		z.Or(p, q)
	case token.XOR:
		z.Xor(p, q)
	case token.AND_NOT:
		z.AndNot(p, q)
	case token.SHL:
		if q.Sign() < 0 {
			r.throwRT(st, th, "negative shift amount")
			return nil, false
		}
		if q.Cmp(big.NewInt(512)) > 0 {
			z.SetInt64(0)
		} else {
			z.Lsh(p, uint(q.Int64()))
		}
	case token.SHR:
		if q.Sign() < 0 {
			r.throwRT(st, th, "negative shift amount")
			return nil, false
		}
		if q.Cmp(big.NewInt(512)) > 0 {
			q.SetInt64(512)
		}
		z.Rsh(p, uint(q.Int64()))
	default:
		panic(unsupported("operator " + op.String()))
	}
	return C.Wrap(C.BigInt(z), bits, signed), true
}

// fspec: sign of a term for operations with infinities: forks if needed.
func (r *Run) sign(st *State, x *smt.Term) int {
	if f, ok := x.FloatVal(); ok {
		switch {
		case f > 0:
			return 1
		case f < 0:
			return -1
		}
		return 0
	}
	z := r.C.RealF(0)
	if r.decide(st, r.C.RLt(z, x)) {
		return 1
	}
	if r.decide(st, r.C.RLt(x, z)) {
		return -1
	}
	return 0
}

func special(t *smt.Term) bool { return t.Op == smt.OConst && t.Sort == smt.Real && t.Special != 0 }

func (r *Run) fbin(st *State, op token.Token, x, y *smt.Term) *smt.Term {
	C := r.C
	if r.Cfg.Float == "fp" {
		switch op {
		case token.ADD:
			return C.FBin(smt.OFAdd, x, y)
		case token.SUB:
			return C.FBin(smt.OFSub, x, y)
		case token.MUL:
			return C.FBin(smt.OFMul, x, y)
		case token.QUO:
			return C.FBin(smt.OFDiv, x, y)
		case token.LSS:
			return C.FCmp(smt.OFLt, x, y)
		case token.LEQ:
			return C.FCmp(smt.OFLe, x, y)
		case token.GTR:
			return C.FCmp(smt.OFLt, y, x)
		case token.GEQ:
			return C.FCmp(smt.OFLe, y, x)
		}
		panic(unsupported("float operator " + op.String()))
	}
	switch op {
	case token.LSS:
		return C.RLt(x, y)
	case token.LEQ:
		return C.RLe(x, y)
	case token.GTR:
		return C.RLt(y, x)
	case token.GEQ:
		return C.RLe(y, x)
	}
	if fx, ok1 := x.FloatVal(); ok1 {
		if fy, ok2 := y.FloatVal(); ok2 {
			switch op {
			case token.ADD:
				return C.RealF(fx + fy)
			case token.SUB:
				return C.RealF(fx - fy)
			case token.MUL:
				return C.RealF(fx * fy)
			case token.QUO:
				return C.RealF(fx / fy)
			}
		}
	}
	if special(x) || special(y) {
		sx, sy := 1.0, 1.0
		if f, ok := x.FloatVal(); ok {
			sx = f
		} else {
			sx = float64(r.sign(st, x))
		}
		if f, ok := y.FloatVal(); ok {
			sy = f
		} else {
			sy = float64(r.sign(st, y))
		}
		var f float64
		switch op {
		case token.ADD:
			f = sx + sy
		case token.SUB:
			f = sx - sy
		case token.MUL:
			f = sx * sy
		case token.QUO:
			f = sx / sy
		}
		return C.RealF(f) // NaN, Inf or 0: the finite operand only lends its sign
	}
	var ex *smt.Term
	switch op {
	case token.ADD:
		ex = C.RAdd(x, y)
	case token.SUB:
		ex = C.RSub(x, y)
	case token.MUL:
		ex = C.RMul(x, y)
		if isPow2(x) || isPow2(y) {
			return ex
		}
	case token.QUO:
		if r.decide(st, C.REq(y, C.RealF(0))) {
			s := r.sign(st, x)
			switch s {
			case 0:
				return C.NaN
			case 1:
				return C.Inf
			}
			return C.NInf
		}
		ex = C.RDiv(x, y)
		if isPow2(y) {
			return ex
		}
	default:
		panic(unsupported("float operator " + op.String()))
	}
	if ex == x || ex == y {
		return ex
	}
	return r.round(ex)
}

func isPow2(t *smt.Term) bool {
	f, ok := t.FloatVal()
	if !ok || f == 0 || math.IsInf(f, 0) || math.IsNaN(f) {
		return false
	}
	m, _ := math.Frexp(math.Abs(f))
	return m == 0.5
}

// round models the rounding of an exact real result.
func (r *Run) round(t *smt.Term) *smt.Term {
	if t.IsConst() {
		f, _ := t.R.Float64()
		return r.C.RealF(f)
	}
	if r.Cfg.Float == "real" {
		return r.C.Round(t)
	}
	return t
}

func (r *Run) fneg(x *smt.Term) *smt.Term {
	if r.Cfg.Float == "fp" {
		return r.C.FUn(smt.OFNeg, x)
	}
	if f, ok := x.FloatVal(); ok {
		return r.C.RealF(-f)
	}
	return r.C.RNeg(x)
}

func (r *Run) eq(st *State, a, b Value) *smt.Term {
	C := r.C
	switch x := a.(type) {
	case *smt.Term:
		y, ok := b.(*smt.Term)
		if !ok {
			return C.F
		}
		switch x.Sort {
		case smt.Bool:
			return C.BEq(x, y)
		case smt.Int:
			return C.IEq(x, y)
		case smt.Real:
			return C.REq(x, y)
		case smt.FP:
			return C.FCmp(smt.OFEq, x, y)
		}
	case string:
		y, ok := b.(string)
		return C.Bool(ok && x == y)
	case Ptr:
		y, ok := b.(Ptr)
		return C.Bool(ok && x == y)
	case Slice:
		y, ok := b.(Slice)
		return C.Bool(ok && (x.Obj == 0) == (y.Obj == 0) && (x.Obj == 0 || x == y))
	case MapV:
		y, ok := b.(MapV)
		return C.Bool(ok && x == y)
	case ChanV:
		y, ok := b.(ChanV)
		return C.Bool(ok && x == y)
	case Func:
		y, ok := b.(Func)
		return C.Bool(ok && x.Fn == nil && y.Fn == nil || ok && x.Fn == y.Fn && len(x.Env) == 0 && len(y.Env) == 0)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return C.F
		}
		if x.T == nil || y.T == nil {
			return C.Bool(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return C.F
		}
		if !types.Comparable(x.T) {
			panic(unsupported("comparing uncomparable type " + x.T.String()))
		}
		return r.eq(st, x.V, y.V)
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return C.F
		}
		var cs []*smt.Term
		for i := range x {
			cs = append(cs, r.eq(st, x[i], y[i]))
		}
		return C.And(cs...)
	}
	panic(unsupported(fmt.Sprintf("comparison of %T", a)))
}

func (r *Run) unop(st *State, th *Thread, f *Frame, x *ssa.UnOp) {
	C := r.C
	switch x.Op {
	case token.MUL:
		p, ok := r.get(st, f, x.X).(Ptr)
		if !ok {
			panic(unsupported("dereference"))
		}
		if p.Obj == 0 {
			r.nilDeref(st, th)
			return
		}
		f.set(x, r.load(st, p, x.Type()))
		f.pc++
	case token.NOT:
		f.set(x, C.Not(r.get(st, f, x.X).(*smt.Term)))
		f.pc++
	case token.SUB:
		t := r.get(st, f, x.X).(*smt.Term)
		if isFloat(x.X.Type()) {
			f.set(x, r.fneg(t))
		} else {
			bits, signed := intBits(x.X.Type())
			f.set(x, C.Wrap(C.INeg(t), bits, signed))
		}
		f.pc++
	case token.XOR:
		t := r.get(st, f, x.X).(*smt.Term)
		bits, signed := intBits(x.X.Type())
		f.set(x, C.Wrap(C.ISub(C.Int(-1), t), bits, signed))
		f.pc++
	case token.ARROW:
		r.recvInstr(st, th, f, x)
	default:
		panic(unsupported("unary " + x.Op.String()))
	}
}

func (r *Run) convert(st *State, v Value, from, to types.Type) Value {
	C := r.C
	fu, tu := from.Underlying(), to.Underlying()
	if t, ok := v.(*smt.Term); ok {
		switch {
		case isInteger(from) && isInteger(to):
			bits, signed := intBits(to)
			return C.Wrap(t, bits, signed)
		case isInteger(from) && isFloat(to):
			if isFloat32(to) {
				if !t.IsConst() {
					panic(unsupported("float32"))
				}
				f, _ := new(big.Float).SetInt(t.BigVal()).Float32()
				return r.float(float64(f))
			}
			if r.Cfg.Float == "fp" {
				return C.I2F(t)
			}
			if t.IsConst() {
				f, _ := new(big.Float).SetInt(t.BigVal()).Float64()
				return C.RealF(f)
			}
			x := C.I2R(t)
			return r.round(x)
		case isFloat(from) && isInteger(to):
			bits, signed := intBits(to)
			if fv, ok := t.FloatVal(); ok {
				if math.IsNaN(fv) || math.IsInf(fv, 0) || math.Abs(fv) >= 1<<63 {
					if math.IsNaN(fv) || math.IsInf(fv, 0) || math.Abs(fv) > 1e19 || signed {
						return C.Int(math.MinInt64)
					}
				}
				bi, _ := big.NewFloat(math.Trunc(fv)).Int(nil)
				return C.Wrap(C.BigInt(bi), bits, signed)
			}
			if t.Op == smt.OI2F || t.Op == smt.OI2R {
				return C.Wrap(t.A[0], bits, signed)
			}
			if t.Sort == smt.FP {
				panic(unsupported("float to int in fp mode"))
			}
			if t.RLo >= 0 {
				return C.Wrap(C.Floor(t), bits, signed)
			}
			if r.decide(st, C.RLe(C.RealF(0), t)) {
				return C.Wrap(C.Floor(t), bits, signed)
			}
			return C.Wrap(C.INeg(C.Floor(C.RNeg(t))), bits, signed)
		case isFloat(from) && isFloat(to):
			if isFloat32(to) {
				return r.float32(t)
			}
			return t
		case isInteger(from) && isString(to):
			return string(rune(r.concretize(st, t)))
		case isBool(from):
			return t
		}
	}
	switch x := v.(type) {
	case string:
		if s, ok := tu.(*types.Slice); ok {
			var cells []Value
			if b := s.Elem().Underlying().(*types.Basic); b.Kind() == types.Uint8 {
				for i := 0; i < len(x); i++ {
					cells = append(cells, C.Int(int64(x[i])))
				}
			} else {
				for _, c := range x {
					cells = append(cells, C.Int(int64(c)))
				}
			}
			p := st.allocCells(cells, "bytes")
			return Slice{p.Obj, 0, len(cells), len(cells)}
		}
		return x
	case Slice:
		if isString(to) {
			o := st.obj(x.Obj)
			if x.Obj == 0 {
				return ""
			}
			el := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
			if el.Kind() == types.Uint8 {
				var b []byte
				for i := 0; i < x.Len; i++ {
					b = append(b, byte(r.concretize(st, o.cells[x.Off+i].(*smt.Term))))
				}
				return string(b)
			}
			var b []rune
			for i := 0; i < x.Len; i++ {
				b = append(b, rune(r.concretize(st, o.cells[x.Off+i].(*smt.Term))))
			}
			return string(b)
		}
		return x
	case Ptr:
		return x
	}
	panic(unsupported(fmt.Sprintf("conversion %s to %s", from, to)))
}

// ---------------------------------------------------------------- containers

func (r *Run) boundsCheck(st *State, th *Thread, idx Value, n int) (int, bool) {
	t := idx.(*smt.Term)
	if !t.IsConst() {
		in := r.C.And(r.C.ILe(r.C.Int(0), t), r.C.ILt(t, r.C.Int(int64(n))))
		if !r.decide(st, in) {
			r.throwRT(st, th, fmt.Sprintf("index out of range with length %d", n))
			return 0, false
		}
		if n == 0 {
			panic(killPath{"infeasible"})
		}
		for k := 0; k < n-1; k++ {
			if r.decide(st, r.C.IEq(t, r.C.Int(int64(k)))) {
				return k, true
			}
		}
		return n - 1, true
	}
	if t.R != nil || t.K < 0 || t.K >= int64(n) {
		r.throwRT(st, th, fmt.Sprintf("index out of range [%s] with length %d", t.BigVal(), n))
		return 0, false
	}
	return int(t.K), true
}

func (r *Run) index(st *State, th *Thread, f *Frame, x *ssa.Index) {
	switch v := r.get(st, f, x.X).(type) {
	case Agg:
		at := x.X.Type().Underlying().(*types.Array)
		i, ok := r.boundsCheck(st, th, r.get(st, f, x.Index), int(at.Len()))
		if !ok {
			return
		}
		f = st.top(th)
		f.set(x, slice(v, i*r.L.sizeOf(at.Elem()), at.Elem(), r))
		f.pc++
	case string:
		i, ok := r.boundsCheck(st, th, r.get(st, f, x.Index), len(v))
		if !ok {
			return
		}
		f = st.top(th)
		f.set(x, r.C.Int(int64(v[i])))
		f.pc++
	default:
		panic(unsupported("index"))
	}
}

func (r *Run) indexAddr(st *State, th *Thread, f *Frame, x *ssa.IndexAddr) {
	switch v := r.get(st, f, x.X).(type) {
	case Slice:
		i, ok := r.boundsCheck(st, th, r.get(st, f, x.Index), v.Len)
		if !ok {
			return
		}
		n := r.L.sizeOf(x.Type().Underlying().(*types.Pointer).Elem())
		f = st.top(th)
		f.set(x, Ptr{v.Obj, v.Off + i*n})
		f.pc++
	case Ptr:
		if v.Obj == 0 {
			r.nilDeref(st, th)
			return
		}
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		i, ok := r.boundsCheck(st, th, r.get(st, f, x.Index), int(at.Len()))
		if !ok {
			return
		}
		f = st.top(th)
		f.set(x, Ptr{v.Obj, v.Off + i*r.L.sizeOf(at.Elem())})
		f.pc++
	default:
		panic(unsupported("index address"))
	}
}

func (r *Run) sliceInstr(st *State, th *Thread, f *Frame, x *ssa.Slice) {
	bound := func(v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		return int(r.concretize(st, r.get(st, f, v).(*smt.Term)))
	}
	switch v := r.get(st, f, x.X).(type) {
	case string:
		lo, hi := bound(x.Low, 0), bound(x.High, len(v))
		if lo < 0 || hi < lo || hi > len(v) {
			r.throwRT(st, th, "slice bounds out of range")
			return
		}
		f = st.top(th)
		f.set(x, v[lo:hi])
	case Slice:
		lo := bound(x.Low, 0)
		hi := bound(x.High, v.Len)
		mx := bound(x.Max, v.Cap)
		if lo < 0 || hi < lo || mx < hi || mx > v.Cap {
			r.throwRT(st, th, fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, v.Cap))
			return
		}
		n := r.L.sizeOf(x.X.Type().Underlying().(*types.Slice).Elem())
		f = st.top(th)
		if v.Obj == 0 {
			f.set(x, Slice{})
		} else {
			f.set(x, Slice{v.Obj, v.Off + lo*n, hi - lo, mx - lo})
		}
	case Ptr:
		if v.Obj == 0 {
			r.nilDeref(st, th)
			return
		}
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := r.L.sizeOf(at.Elem())
		lo, hi := bound(x.Low, 0), bound(x.High, int(at.Len()))
		mx := bound(x.Max, int(at.Len()))
		if lo < 0 || hi < lo || mx < hi || mx > int(at.Len()) {
			r.throwRT(st, th, "slice bounds out of range")
			return
		}
		f = st.top(th)
		f.set(x, Slice{v.Obj, v.Off + lo*n, hi - lo, mx - lo})
	default:
		panic(unsupported("slice expression"))
	}
	f.pc++
}

// mapFind looks a key up; symbolic comparisons fork.
func (r *Run) mapFind(st *State, o *Obj, k Value) int {
	for i, q := range o.keys {
		if r.decide(st, r.eq(st, q, k)) {
			return i
		}
	}
	return -1
}

func (r *Run) mapSet(st *State, m MapV, k, v Value) {
	i := r.mapFind(st, st.obj(m.Obj), k)
	r.noteAccess(st, Ptr{m.Obj, 0}, 1, true)
	o := st.wobj(m.Obj)
	if i >= 0 {
		o.cells[i] = v
		return
	}
	o.keys = append(o.keys, k)
	o.cells = append(o.cells, v)
}

func (r *Run) mapDelete(st *State, m MapV, k Value) {
	if m.Obj == 0 {
		return
	}
	i := r.mapFind(st, st.obj(m.Obj), k)
	r.noteAccess(st, Ptr{m.Obj, 0}, 1, true)
	if i < 0 {
		return
	}
	o := st.wobj(m.Obj)
	o.keys = append(o.keys[:i:i], o.keys[i+1:]...)
	o.cells = append(o.cells[:i:i], o.cells[i+1:]...)
}

func (r *Run) lookup(st *State, th *Thread, f *Frame, x *ssa.Lookup) {
	switch m := r.get(st, f, x.X).(type) {
	case string:
		i, ok := r.boundsCheck(st, th, r.get(st, f, x.Index), len(m))
		if !ok {
			return
		}
		f = st.top(th)
		f.set(x, r.C.Int(int64(m[i])))
	case MapV:
		et := x.X.Type().Underlying().(*types.Map).Elem()
		var v Value
		found := false
		if m.Obj != 0 {
			i := r.mapFind(st, st.obj(m.Obj), r.get(st, f, x.Index))
			r.noteAccess(st, Ptr{m.Obj, 0}, 1, false)
			if i >= 0 {
				v, found = st.obj(m.Obj).cells[i], true
			}
		}
		if !found {
			v = r.zero(et)
		}
		f = st.top(th)
		if x.CommaOk {
			f.set(x, Tuple{v, r.C.Bool(found)})
		} else {
			f.set(x, v)
		}
	default:
		panic(unsupported("lookup"))
	}
	f.pc++
}

func (r *Run) rang(st *State, f *Frame, x *ssa.Range) {
	switch v := r.get(st, f, x.X).(type) {
	case string:
		f.set(x, &iter{str: v, isS: true})
	case MapV:
		it := &iter{}
		if v.Obj != 0 {
			r.noteAccess(st, Ptr{v.Obj, 0}, 1, false)
			o := st.obj(v.Obj)
			it.keys = append(it.keys, o.keys...)
			if st.flip {
				for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
					it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
				}
			}
			it.vals = []Value{v}
		}
		f.set(x, it)
	default:
		panic(unsupported("range"))
	}
	f.pc++
}

func (r *Run) next(st *State, f *Frame, x *ssa.Next) {
	it := r.get(st, f, x.Iter).(*iter)
	n := *it
	if it.isS {
		if it.pos >= len(it.str) {
			f.set(x, Tuple{r.C.F, r.C.Int(0), r.C.Int(0)})
			f.pc++
			return
		}
		for i, c := range it.str[it.pos:] {
			if i == 0 {
				f.set(x, Tuple{r.C.T, r.C.Int(int64(it.pos)), r.C.Int(int64(c))})
				n.pos = it.pos + len(string(c))
				break
			}
		}
		f.set(x.Iter, &n)
		f.pc++
		return
	}
	tt := x.Type().(*types.Tuple)
	for n.pos < len(n.keys) {
		k := n.keys[n.pos]
		n.pos++
		m := n.vals[0].(MapV)
		o := st.obj(m.Obj)
		r.noteAccess(st, Ptr{m.Obj, 0}, 1, false)
		for i, q := range o.keys {
			if r.eq(st, q, k).IsTrue() {
				f.set(x.Iter, &n)
				f.set(x, Tuple{r.C.T, k, o.cells[i]})
				f.pc++
				return
			}
		}
	}
	f.set(x.Iter, &n)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	zero := func(t types.Type) Value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return r.zero(t)
	}
	f.set(x, Tuple{r.C.F, zero(kt), zero(vt)})
	f.pc++
}

func (r *Run) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (r *Run) typeAssert(st *State, th *Thread, f *Frame, x *ssa.TypeAssert) {
	v := r.get(st, f, x.X).(Iface)
	ok := false
	var res Value
	if v.T != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok = r.implements(v.T, it)
			res = v
		} else {
			ok = types.Identical(v.T, x.AssertedType)
			res = v.V
		}
	}
	if !ok {
		if !x.CommaOk {
			have := "nil"
			if v.T != nil {
				have = v.T.String()
			}
			r.throwRT(st, th, fmt.Sprintf("interface conversion: interface is %s, not %s", have, x.AssertedType))
			return
		}
		res = r.zero(x.AssertedType)
	}
	if x.CommaOk {
		f.set(x, Tuple{res, r.C.Bool(ok)})
	} else {
		f.set(x, res)
	}
	f.pc++
}
