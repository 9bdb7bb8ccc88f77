package sym

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verifengine/smt"
)

// Concurrent mode: bounded symbolic exploration of all schedules.
//
// A thread runs from one visible operation (lock, channel operation, select,
// sleep, wait, atomic, start, resumption) to the next; which thread goes on
// at level L is the value of the schedule variable sched!L. Symbolic states
// that differ only by how they were reached are merged: their path conditions
// are joined by disjunction, and a state that was already explored under a
// weaker path condition (decided by the solver) is not explored again.

// cnode is a merged symbolic state in the reachability graph.
type cnode struct {
	id     int
	parent *cnode
	step   SchedStep
	pc     *smt.PC
	inputs []*input
	level  int
	alts   []alt // other ways to get there, joined into the path condition
}

type alt struct {
	parent *cnode
	step   SchedStep
	pc     *smt.PC
}

type visited struct {
	node    *cnode
	covered []*smt.Term // path conditions under which it was expanded
	pending *State      // in the next frontier, not expanded yet
}

type edge struct{ from, to int32 }

type explorer struct {
	r       *Run
	seen    map[[32]byte]*visited
	nodes   []*cnode
	edges   []edge
	final   map[int]bool
	next    []*State
	work    []*State
	dropped bool
	fnIDs   map[*ssa.Function]int
	tyIDs   map[string]int
	tyPtr   map[types.Type]int64
	lvCache map[*fnInfo]*liveness
}

func (r *Run) exploreConc(fn *ssa.Function) {
	x := &explorer{r: r, seen: map[[32]byte]*visited{}, final: map[int]bool{}, fnIDs: map[*ssa.Function]int{}, tyIDs: map[string]int{}, tyPtr: map[types.Type]int64{}, lvCache: map[*fnInfo]*liveness{}}
	r.pushHook = func(st *State) { x.work = append(x.work, st) }
	if r.Cfg.Levels == 0 {
		r.Cfg.Levels = 100000
	}
	if r.Cfg.MaxWide == 0 {
		r.Cfg.MaxWide = 400000
	}
	st := r.newState(fn)
	root := &cnode{id: 0, pc: st.pc}
	x.nodes = []*cnode{root}
	st.cn = root
	x.segments(root, st)
	for level := 1; len(x.next) > 0; level++ {
		if level > r.Cfg.Levels {
			r.reduced("bound: schedule length")
			x.dropped = true
			break
		}
		front := x.next
		x.next = nil
		if r.Cfg.Trace && level%10 == 0 {
			fmt.Fprintf(os.Stderr, "level %d width %d nodes %d edges %d\n", level, len(front), len(x.nodes), len(x.edges))
		}
		for i, st := range front {
			if len(r.Violations) >= r.Cfg.MaxViol {
				x.dropped = true
				break
			}
			if i&15 == 0 && time.Now().After(r.deadline) {
				r.reduced("bound: time")
				x.dropped = true
				break
			}
			if len(x.nodes) > r.Cfg.MaxWide {
				r.reduced("bound: states")
				x.dropped = true
				break
			}
			front[i] = nil
			x.expand(st, level)
		}
		if x.dropped {
			break
		}
	}
	r.NStates = len(x.nodes)
	if !x.dropped && len(r.Violations) == 0 {
		x.livelocks()
	}
}

// key marks st as expanded and tells the threads that can move.
func (x *explorer) expand(st *State, level int) {
	r := x.r
	if v := st.vis; v != nil {
		v.pending = nil
		v.covered = append(v.covered, st.cone)
	}
	cands := x.enabledThreads(st)
	if len(cands) == 0 {
		var who []string
		for _, t := range st.threads {
			if t.status != done {
				who = append(who, fmt.Sprintf("%s waits for %s at %s", t.name, opNames[t.wait.kind], t.wait.loc))
			}
		}
		st.outcome = &Outcome{Kind: "deadlock", Msg: "nothing can go on: " + strings.Join(who, "; ")}
		r.finish(st)
		x.final[st.cn.id] = true
		return
	}
	single := true
	type segInfo struct {
		th   *Thread
		outs []*State
	}
	var segs []segInfo
	parent := st.cn
	if k := x.local(st, cands); k >= 0 && !r.Cfg.Race {
		// starting, and the end of a sleep of any length, commute with
		// whatever the other threads do
		cands[0], cands[k] = cands[k], cands[0]
	} else {
		single = false
	}
	for i := range cands {
		ti := cands[i].ti
		if i == 1 && single {
			break
		}
		c := st.fork()
		th := c.threads[ti]
		c.level = level
		c.cur = ti
		step := SchedStep{Tid: th.id, Op: opNames[th.wait.kind], Loc: th.wait.loc, Name: th.name}
		c.cn = &cnode{id: -1, parent: parent, step: step, level: level}
		c.acc, c.rel = nil, nil
		if g := cands[i].guard; g != nil {
			c.assume(g)
			c.model = cands[i].model
			c.unsure = c.unsure || cands[i].unsure
		}
		if cands[i].clock != nil {
			c.clock = cands[i].clock
		}
		switch th.wait.kind {
		case opStart, opSleep:
		case opYield:
			th.granted = th.wait.own
		default:
			th.granted = true
		}
		th.status = runnable
		w := th.wait
		outs := x.segments(parent, c)
		for _, o := range outs {
			if t := o.byID(step.Tid); t != nil && t.status == atOp && t.wait.kind == opSleep {
				single = false
			}
		}
		if r.Cfg.Race {
			_ = w
			segs = append(segs, segInfo{st.threads[ti], outs})
		}
	}
	if r.Cfg.Race {
		for i := range segs {
			for j := i + 1; j < len(segs); j++ {
				for _, a := range segs[i].outs {
					for _, b := range segs[j].outs {
						x.conflict(st, segs[i].th, segs[j].th, a, b)
					}
				}
			}
		}
	}
}

// local looks for a thread whose next operation commutes with everything the
// others can do: its start, or (time standing still) its awakening.
func (x *explorer) local(st *State, l []cand) int {
	for i, c := range l {
		switch st.threads[c.ti].wait.kind {
		case opStart:
			return i
		case opSleep:
			if x.r.Cfg.Clock == "frozen" && x.r.Cfg.Sleep == "free" {
				return i
			}
		}
	}
	return -1
}

// segments runs the current thread of c to its next visible operation, on all
// paths, and registers the resulting states.
func (x *explorer) segments(parent *cnode, c *State) []*State {
	r := x.r
	x.work = append(x.work[:0:0], c)
	var outs []*State
	for len(x.work) > 0 {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		th := s.threads[s.cur]
		r.guarded(s, func() {
			for s.outcome == nil {
				if th.status != runnable || len(th.frames) == 0 {
					break
				}
				r.step(s, th)
				th = s.threads[s.cur]
				if th.id == 1 && th.status == done {
					s.outcome = &Outcome{Kind: "done"}
				}
				if th.mustYield {
					th.mustYield = false
					if th.status == runnable && s.outcome == nil {
						th.status = atOp
						th.wait = waitInfo{kind: opYield}
						if len(th.frames) > 0 {
							th.wait.loc = r.locOf(th.frames[len(th.frames)-1])
						}
					}
				}
			}
		})
		for _, t := range s.threads {
			if t.status == runnable && t.id != th.id {
				k := opYield
				loc := ""
				if len(t.frames) > 0 {
					loc = r.locOf(t.frames[len(t.frames)-1])
				}
				if t.resume == nil {
					k = opStart
				}
				t.status = atOp
				t.wait = waitInfo{kind: k, loc: loc}
			}
		}
		outs = append(outs, s)
		if s.outcome != nil {
			if s.outcome.Kind == "done" {
				id := x.newNode(s)
				x.edges = append(x.edges, edge{int32(parent.id), int32(id)})
				x.final[id] = true
			} else {
				// however it ended, nothing is said about what follows
				x.final[parent.id] = true
				if s.outcome.Kind == "unsupported" || (s.outcome.Kind == "killed" && s.outcome.Msg != "infeasible" && s.outcome.Msg != "assumption") {
					_ = s
				}
			}
			r.finish(s)
			continue
		}
		x.register(parent, s)
	}
	return outs
}

func (x *explorer) newNode(s *State) int {
	n := &cnode{id: len(x.nodes), pc: s.pc, inputs: s.inputs, level: s.level}
	if s.cn != nil {
		n.parent, n.step = s.cn.parent, s.cn.step
		if s.cn.id >= 0 { // the root
			n.parent = nil
		}
	}
	x.nodes = append(x.nodes, n)
	s.cn = n
	return n.id
}

// register adds a state that stopped at a scheduling point.
func (x *explorer) register(parent *cnode, s *State) {
	r := x.r
	k, terms := x.key(s)
	s.cone = cone(r.C, s.pc, terms)
	v := x.seen[k]
	if v == nil {
		id := x.newNode(s)
		v = &visited{node: x.nodes[id], pending: s}
		x.seen[k] = v
		s.vis = v
		x.edges = append(x.edges, edge{int32(parent.id), int32(id)})
		x.next = append(x.next, s)
		return
	}
	x.edges = append(x.edges, edge{int32(parent.id), int32(v.node.id)})
	p := s.cone
	if v.pending != nil && v.pending.level == s.level {
		// merge with the state that waits to be expanded
		q := v.pending.cone
		if p == q || q.IsTrue() {
			return
		}
		m := v.pending
		if s.cn != nil {
			m.cn.alts = append(m.cn.alts, alt{s.cn.parent, s.cn.step, s.pc})
		}
		m.cone = r.C.Or(p, q)
		m.unsure = m.unsure || s.unsure
		m.pc = mergePC(r.C, m.pc, s.pc)
		m.known = map[int]bool{}
		for _, t := range m.pc.List() {
			m.setKnown(t, true)
		}
		return
	}
	for _, c := range v.covered {
		if c == p || c.IsTrue() {
			return
		}
	}
	if v.pending != nil {
		q := v.pending.cone
		if p == q || q.IsTrue() {
			return
		}
	}
	cov := r.C.Or(v.covered...)
	res, _ := r.checkSlice(s, r.C.Not(cov))
	if res == smt.Unsat {
		return
	}
	// only what is new has to be explored
	s.assume(r.C.Not(cov))
	s.cone = r.C.And(p, r.C.Not(cov))
	s.model = nil
	id := x.newNode(s)
	x.edges = append(x.edges, edge{int32(parent.id), int32(id)})
	s.vis = v
	if v.pending == nil {
		v.pending = s
	}
	x.next = append(x.next, s)
}

// cone is the part of a path condition that constrains the given terms. The
// rest shares no variable with them, and is satisfiable: it does not matter
// to what can happen from here on.
func cone(c *smt.Ctx, pc *smt.PC, terms []*smt.Term) *smt.Term {
	rel := map[*smt.Term]bool{}
	for _, v := range smt.Vars(terms) {
		rel[v] = true
	}
	if len(rel) == 0 {
		return c.Bool(true)
	}
	l := pc.List()
	in := make([]bool, len(l))
	vars := make([][]*smt.Term, len(l))
	for i, t := range l {
		vars[i] = smt.Vars([]*smt.Term{t})
	}
	for changed := true; changed; {
		changed = false
		for i := range l {
			if in[i] {
				continue
			}
			for _, v := range vars[i] {
				if rel[v] {
					in[i] = true
				}
			}
			if in[i] {
				changed = true
				for _, v := range vars[i] {
					rel[v] = true
				}
			}
		}
	}
	var out []*smt.Term
	for i, t := range l {
		if in[i] {
			out = append(out, t)
		}
	}
	return c.And(out...)
}

// mergePC joins two path conditions, keeping the common prefix.
func mergePC(c *smt.Ctx, a, b *smt.PC) *smt.PC {
	la, lb := a.List(), b.List()
	n := 0
	for n < len(la) && n < len(lb) && la[n] == lb[n] {
		n++
	}
	var pc *smt.PC
	for _, t := range la[:n] {
		pc = pc.Push(t)
	}
	or := c.Or(c.And(la[n:]...), c.And(lb[n:]...))
	if !or.IsTrue() {
		pc = pc.Push(or)
	}
	return pc
}

// cand is a thread that can go on, under a condition (nil: always).
type cand struct {
	ti     int
	guard  *smt.Term
	model  smt.Model
	unsure bool
	clock  *smt.Term // the time then, if it moves on
}

// enabledThreads tells who can go on. A thread that sleeps may appear twice:
// when its time has come already, and when it comes next.
func (x *explorer) enabledThreads(st *State) []cand {
	r := x.r
	var out []cand
	var sleepers []int
	for i, t := range st.threads {
		if t.status != atOp {
			continue
		}
		if t.wait.kind == opSleep {
			sleepers = append(sleepers, i)
			if r.Cfg.Sleep == "maxprogress" {
				continue
			}
			// a sleep may last as long as it likes
			out = append(out, cand{ti: i, clock: r.C.Ite(r.C.ILt(st.clock, t.wait.wake), t.wait.wake, st.clock)})
			continue
		}
		if r.enabled(st, t, t.wait) {
			out = append(out, cand{ti: i})
		}
	}
	if r.Cfg.Sleep != "maxprogress" {
		return out
	}
	// time passes only when nothing else can happen
	busy := len(out) > 0
	try := func(c cand) {
		if c.guard.IsFalse() {
			return
		}
		if c.guard.IsTrue() {
			c.guard = nil
			out = append(out, c)
			return
		}
		if st.model != nil {
			if v := r.C.Eval(c.guard, st.model, map[int]*smt.Term{}); v != nil && v.IsTrue() {
				c.model = st.model
				out = append(out, c)
				return
			}
		}
		res, m := r.checkSlice(st, c.guard)
		if res == smt.Unsat {
			return
		}
		c.model, c.unsure = m, res == smt.Unknown
		out = append(out, c)
	}
	for _, i := range sleepers {
		try(cand{ti: i, guard: r.C.ILe(st.threads[i].wait.wake, st.clock)})
	}
	if !busy {
		for _, i := range sleepers {
			w := st.threads[i].wait.wake
			gs := []*smt.Term{r.C.ILt(st.clock, w)}
			for _, j := range sleepers {
				if j != i {
					gs = append(gs, r.C.ILe(w, st.threads[j].wait.wake))
				}
			}
			try(cand{ti: i, guard: r.C.And(gs...), clock: w})
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].ti < out[j].ti })
	return out
}

// conflict looks for two unordered accesses of segments enabled in st.
func (x *explorer) conflict(st *State, ta, tb *Thread, a, b *State) {
	r := x.r
	if len(r.Violations) >= r.Cfg.MaxViol {
		return
	}
	ordered := func(first, second *Thread, after *State) bool {
		// second must still be able to move, and not acquire what first released
		t2 := after.byID(second.id)
		if t2 == nil || t2.status != atOp || t2.wait.kind != second.wait.kind || !r.enabled(after, t2, t2.wait) {
			return true
		}
		for _, rl := range after.rel {
			switch rl.kind {
			case opStart, opNone:
				if rl.tid == second.id {
					return true
				}
			default:
				if rl.p == second.wait.ptr || (second.wait.ch != 0 && rl.p.Obj == second.wait.ch) || rl.tid == second.id {
					return true
				}
			}
		}
		return false
	}
	for _, p := range a.acc {
		if p.p.Obj >= len(st.objs) {
			continue
		}
		for _, q := range b.acc {
			if !(p.write || q.write) || p.p.Obj != q.p.Obj || p.p.Off+p.n <= q.p.Off || q.p.Off+q.n <= p.p.Off {
				continue
			}
			if strings.Contains(p.loc, "verifharness/") && strings.Contains(q.loc, "verifharness/") {
				continue // the harness synchronizes its own state by scheduling
			}
			first, second := ta, tb
			if ordered(ta, tb, a) {
				if ordered(tb, ta, b) {
					continue
				}
				first, second = tb, ta
			}
			kind := map[bool]string{true: "write", false: "read"}
			l1, l2 := kind[p.write]+" at "+p.loc, kind[q.write]+" at "+q.loc
			if l2 < l1 {
				l1, l2 = l2, l1
			}
			key := l1 + " / " + l2
			if r.raceSeen == nil {
				r.raceSeen = map[string]bool{}
			}
			if r.raceSeen[key] {
				continue
			}
			r.raceSeen[key] = true
			f := st.fork()
			f.outcome = &Outcome{Kind: "race", Msg: "unordered accesses: " + key, Loc: q.loc}
			for _, t := range []*Thread{first, second} {
				f.outcome.Extra = append(f.outcome.Extra, SchedStep{Tid: t.id, Op: opNames[t.wait.kind], Loc: t.wait.loc, Name: t.name})
			}
			r.finish(f)
		}
	}
}

// livelocks looks for states from which the harness can no longer end.
func (x *explorer) livelocks() {
	back := make([][]int32, len(x.nodes))
	for _, e := range x.edges {
		back[e.to] = append(back[e.to], e.from)
	}
	ok := make([]bool, len(x.nodes))
	var q []int32
	for id := range x.final {
		ok[id] = true
		q = append(q, int32(id))
	}
	for len(q) > 0 {
		n := q[len(q)-1]
		q = q[:len(q)-1]
		for _, p := range back[n] {
			if !ok[p] {
				ok[p] = true
				q = append(q, p)
			}
		}
	}
	for id, o := range ok {
		if !o {
			n := x.nodes[id]
			st := &State{run: x.r, pc: n.pc, inputs: n.inputs, cn: n}
			st.outcome = &Outcome{Kind: "livelock", Msg: "from here on the calls can never return, however the threads are scheduled", Loc: n.step.Loc}
			x.r.finish(st)
			return
		}
	}
}

// resolve finds a schedule and a model for a state: where paths were joined,
// the one that goes with the model.
func (r *Run) resolve(st *State) ([]SchedStep, *State, bool) {
	budget := 400
	var walk func(n *cnode, cond *smt.Term) ([]SchedStep, *smt.Term, bool)
	walk = func(n *cnode, cond *smt.Term) ([]SchedStep, *smt.Term, bool) {
		if n == nil || n.step.Tid == 0 {
			return nil, cond, true
		}
		ways := append([]alt{{n.parent, n.step, n.pc}}, n.alts...)
		for _, w := range ways {
			c := cond
			if w.pc != nil {
				c = r.C.And(cond, r.C.And(w.pc.List()...))
			}
			if c != cond && len(n.alts) > 0 {
				budget--
				if budget < 0 {
					return nil, nil, false
				}
				if res, _ := r.check(&State{run: r}, c); res != smt.Sat {
					continue
				}
			}
			if s, c2, ok := walk(w.parent, c); ok {
				return append(s, w.step), c2, true
			}
		}
		return nil, nil, false
	}
	if st.cn == nil {
		return st.sched, st, true
	}
	steps, cond, ok := walk(st.cn, r.C.And(st.pc.List()...))
	if !ok {
		return stepsOf(st.cn), st, false
	}
	var pc *smt.PC
	f := &State{run: r, inputs: st.inputs, cn: st.cn, obs: st.obs, outcome: st.outcome}
	if cond != nil && !cond.IsTrue() {
		f.pc = pc.Push(cond)
	}
	return steps, f, true
}

// stepsOf is the schedule that leads to n.
func stepsOf(n *cnode) []SchedStep {
	var out []SchedStep
	for ; n != nil && n.step.Tid != 0; n = n.parent {
		out = append(out, n.step)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---------------------------------------------------------------- canonical form

type encoder struct {
	x     *explorer
	st    *State
	b     bytes.Buffer
	canon map[int]int
	queue []int
	names map[int]int // thread id -> rank
	terms []*smt.Term // symbolic values of the state
}

func (e *encoder) n(v int64) {
	var t [binary.MaxVarintLen64]byte
	k := binary.PutVarint(t[:], v)
	e.b.Write(t[:k])
}
func (e *encoder) s(v string) { e.n(int64(len(v))); e.b.WriteString(v) }

func (e *encoder) objRef(id int) {
	if id <= 0 { // nil or a global
		e.n(int64(id))
		if id < 0 {
			if _, ok := e.canon[id]; !ok {
				e.canon[id] = id
				e.queue = append(e.queue, id)
			}
		}
		return
	}
	c, ok := e.canon[id]
	if !ok {
		c = len(e.canon) + 1
		e.canon[id] = c
		e.queue = append(e.queue, id)
	}
	e.n(int64(c))
}

func (x *explorer) fnID(f *ssa.Function) int64 {
	if f == nil {
		return 0
	}
	id, ok := x.fnIDs[f]
	if !ok {
		id = len(x.fnIDs) + 1
		x.fnIDs[f] = id
	}
	return int64(id)
}

func (x *explorer) tyID(t types.Type) int64 {
	if t == nil {
		return 0
	}
	if id, ok := x.tyPtr[t]; ok {
		return id
	}
	k := t.String()
	id, ok := x.tyIDs[k]
	if !ok {
		id = len(x.tyIDs) + 1
		x.tyIDs[k] = id
	}
	x.tyPtr[t] = int64(id)
	return int64(id)
}

func (e *encoder) thr(id int) {
	if r, ok := e.names[id]; ok {
		e.n(int64(r))
		return
	}
	e.n(-1)
}

func (e *encoder) val(v Value) {
	switch y := v.(type) {
	case nil:
		e.b.WriteByte(0)
	case *smt.Term:
		e.b.WriteByte(1)
		e.n(int64(y.ID))
		if !y.IsConst() {
			e.terms = append(e.terms, y)
		}
	case string:
		e.b.WriteByte(2)
		e.s(y)
	case Ptr:
		e.b.WriteByte(3)
		e.objRef(y.Obj)
		e.n(int64(y.Off))
	case Slice:
		e.b.WriteByte(4)
		e.objRef(y.Obj)
		e.n(int64(y.Off))
		e.n(int64(y.Len))
		e.n(int64(y.Cap))
	case MapV:
		e.b.WriteByte(5)
		e.objRef(y.Obj)
	case ChanV:
		e.b.WriteByte(6)
		e.objRef(y.Obj)
	case Iface:
		e.b.WriteByte(7)
		e.n(e.x.tyID(y.T))
		e.val(y.V)
	case Func:
		e.b.WriteByte(8)
		e.n(e.x.fnID(y.Fn))
		for _, w := range y.Env {
			e.val(w)
		}
	case Agg:
		e.b.WriteByte(9)
		e.n(int64(len(y)))
		for _, w := range y {
			e.val(w)
		}
	case Tuple:
		e.b.WriteByte(10)
		e.n(int64(len(y)))
		for _, w := range y {
			e.val(w)
		}
	case lockState:
		e.b.WriteByte(11)
		if y.locked {
			e.n(1)
		} else {
			e.n(0)
		}
		e.thrSet(y.readers)
		e.thrSet(y.pending)
	case *iter:
		e.b.WriteByte(12)
		e.n(int64(y.pos))
		for _, k := range y.keys {
			e.val(k)
		}
		for _, k := range y.vals {
			e.val(k)
		}
	default:
		e.b.WriteByte(13)
		e.s(fmt.Sprintf("%T %v", v, v))
	}
}

func (e *encoder) thrSet(ids []int) {
	var rs []int
	for _, i := range ids {
		if r, ok := e.names[i]; ok {
			rs = append(rs, r)
		} else {
			rs = append(rs, -1)
		}
	}
	sort.Ints(rs)
	e.n(int64(len(rs)))
	for _, r := range rs {
		e.n(int64(r))
	}
}

func (e *encoder) wait(q []waiter) {
	e.n(int64(len(q)))
	for _, w := range q {
		e.thr(w.tid)
		e.val(w.val)
		e.n(int64(w.kase))
	}
}

func bi(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// key is the canonical form of everything that determines the future.
func (x *explorer) key(st *State) ([32]byte, []*smt.Term) {
	e := &encoder{x: x, st: st, canon: map[int]int{}, names: map[int]int{}}
	var ths []*Thread
	for _, t := range st.threads {
		if t.status != done {
			ths = append(ths, t)
		}
	}
	sort.Slice(ths, func(i, j int) bool { return ths[i].name < ths[j].name })
	for i, t := range ths {
		e.names[t.id] = i
	}
	for _, t := range ths {
		e.s(t.name)
		e.n(int64(t.status))
		e.n(int64(t.wait.kind))
		e.objRef(t.wait.ptr.Obj)
		e.n(int64(t.wait.ptr.Off))
		if t.wait.ch > 0 {
			e.objRef(t.wait.ch)
		}
		if t.wait.kind == opSleep {
			e.val(x.r.C.ISub(t.wait.wake, st.clock))
		}
		e.n(int64(t.spawned))
		e.n(bi(t.slept) | bi(t.granted)<<1)
		if t.resume != nil {
			e.n(bi(t.resume.ok) + 1)
			e.n(int64(t.resume.kase))
			e.val(t.resume.val)
		} else {
			e.n(0)
		}
		e.n(int64(len(t.frames)))
		for _, f := range t.frames {
			e.n(x.fnID(f.fn.fn))
			e.n(int64(f.block))
			e.n(int64(f.pc))
			if f.pc == 0 {
				e.n(int64(f.prev))
			}
			e.n(bi(f.isDefer) | bi(f.isInit)<<1 | bi(f.native != nil)<<2)
			if f.panicking != nil {
				e.n(1 + bi(f.panicking.recovered))
				e.val(f.panicking.val)
			} else {
				e.n(0)
			}
			var lv []bool
			if f.block >= 0 && f.panicking == nil {
				lv = x.live(f.fn, f.block, f.pc)
			}
			for i, v := range f.regs {
				if v == nil || (lv != nil && !lv[i]) {
					continue
				}
				e.n(int64(i))
				e.val(v)
			}
			e.n(-1)
			e.n(int64(len(f.defers)))
			for _, d := range f.defers {
				e.n(x.fnID(d.fn.Fn))
				for _, v := range d.fn.Env {
					e.val(v)
				}
				for _, v := range d.args {
					e.val(v)
				}
			}
		}
	}
	if x.r.Cfg.Clock == "virtual" {
		e.val(st.clock)
	}
	e.n(int64(st.draws))
	var ns []string
	for k, v := range st.names {
		ns = append(ns, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ns)
	for _, s := range ns {
		e.s(s)
	}
	for i := 0; i < len(e.queue); i++ {
		id := e.queue[i]
		o := st.obj(id)
		if o == nil {
			continue
		}
		e.n(int64(o.kind))
		switch o.kind {
		case kMap:
			x.encodeMap(e, o)
		case kChan:
			e.n(int64(o.cap))
			e.n(bi(o.closed))
			e.n(int64(len(o.cells)))
			for _, v := range o.cells {
				e.val(v)
			}
			e.wait(o.sendq)
			e.wait(o.recvq)
		default:
			e.n(int64(len(o.cells)))
			for _, v := range o.cells {
				e.val(v)
			}
		}
	}
	return sha256.Sum256(e.b.Bytes()), e.terms
}

func (x *explorer) encodeMap(e *encoder, o *Obj) {
	idx := make([]int, len(o.keys))
	ks := make([]string, len(o.keys))
	concrete := true
	for i, k := range o.keys {
		idx[i] = i
		switch y := k.(type) {
		case string:
			ks[i] = "s" + y
		case *smt.Term:
			if !y.IsConst() {
				concrete = false
			}
			ks[i] = fmt.Sprintf("t%09d", y.ID)
		default:
			concrete = false
		}
	}
	if concrete {
		sort.Slice(idx, func(i, j int) bool { return ks[idx[i]] < ks[idx[j]] })
	}
	e.n(int64(len(idx)))
	for _, i := range idx {
		e.val(o.keys[i])
		e.val(o.cells[i])
	}
}

// ---------------------------------------------------------------- liveness

type liveness struct {
	in    [][]bool // per block
	cache map[int][]bool
}

func (x *explorer) live(fi *fnInfo, block, pc int) []bool {
	l := x.lvCache[fi]
	if l == nil {
		l = computeLive(fi)
		x.lvCache[fi] = l
	}
	k := block<<16 | pc
	if v, ok := l.cache[k]; ok {
		return v
	}
	b := fi.fn.Blocks[block]
	cur := make([]bool, fi.n)
	for _, s := range succs(fi.fn, b) {
		addLive(fi, cur, l, b, s)
	}
	for i := len(b.Instrs) - 1; i >= pc; i-- {
		transfer(fi, cur, b.Instrs[i])
	}
	l.cache[k] = cur
	return cur
}

func succs(fn *ssa.Function, b *ssa.BasicBlock) []*ssa.BasicBlock {
	s := b.Succs
	if fn.Recover != nil && b != fn.Recover {
		s = append(append([]*ssa.BasicBlock(nil), s...), fn.Recover)
	}
	return s
}

func addLive(fi *fnInfo, cur []bool, l *liveness, from, to *ssa.BasicBlock) {
	for i, v := range l.in[to.Index] {
		if v {
			cur[i] = true
		}
	}
	for _, in := range to.Instrs { // phi operands of this edge
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for k, pr := range to.Preds {
			if pr == from {
				if i, ok := fi.idx[p.Edges[k]]; ok {
					cur[i] = true
				}
			}
		}
	}
}

func transfer(fi *fnInfo, cur []bool, in ssa.Instruction) {
	if v, ok := in.(ssa.Value); ok {
		if i, ok := fi.idx[v]; ok {
			cur[i] = false
		}
	}
	if _, ok := in.(*ssa.Phi); ok {
		return
	}
	var ops [8]*ssa.Value
	for _, o := range in.Operands(ops[:0]) {
		if *o == nil {
			continue
		}
		if i, ok := fi.idx[*o]; ok {
			cur[i] = true
		}
	}
}

func computeLive(fi *fnInfo) *liveness {
	l := &liveness{in: make([][]bool, len(fi.fn.Blocks)), cache: map[int][]bool{}}
	for i := range l.in {
		l.in[i] = make([]bool, fi.n)
	}
	for changed := true; changed; {
		changed = false
		for i := len(fi.fn.Blocks) - 1; i >= 0; i-- {
			b := fi.fn.Blocks[i]
			cur := make([]bool, fi.n)
			for _, s := range succs(fi.fn, b) {
				addLive(fi, cur, l, b, s)
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				transfer(fi, cur, b.Instrs[k])
			}
			for k, v := range cur {
				if v && !l.in[i][k] {
					l.in[i][k] = true
					changed = true
				}
			}
		}
	}
	return l
}
