package sym

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verifengine/smt"
)

// Config of one symbolic run.
type Config struct {
	Mode       string // seq or conc
	Float      string // fp, real (with rounding), realx (exact reals)
	MaxDepth   int
	MaxSteps   int
	MaxThreads int
	MaxPaths   int
	Race       bool
	Reverse    bool // seq: prefer the youngest thread
	Timeout    time.Duration
	QueryMs    int
	Params     map[string]int
	Samples    int // passing paths to replay natively
	MaxViol    int
	// conc
	Levels  int
	Clock   string // frozen, virtual
	Sleep   string // free, maxprogress
	Merge   int
	MaxWide int
	Trace   bool
}

// Run is one symbolic execution of one harness.
type Run struct {
	noted map[*ssa.Function]bool
	C     *smt.Ctx
	P     *Program
	L     layouts
	Cfg   Config
	S     *smt.Solver
	Stat  smt.Stats

	consts map[*ssa.Const]Value
	gids   map[*ssa.Global]int
	intr   map[*ssa.Function]handler
	rtErr  types.Type

	stack     []*State
	branches  int
	instrs    int
	maxThread int
	deadline  time.Time
	pushHook  func(*State)

	Fns         map[string]bool
	Reduced     map[string]int
	Covers      map[string]bool
	Paths       int
	Violations  []*Outcome
	Samples     []*Sample
	Obligations int
	Reused      int // branch decisions answered by an earlier equal query
	answers     map[int]answer
	NStates     int
	raceSeen    map[string]bool
	violSeen    map[string]bool
	hang        *Outcome
	hangs       int
	logs        []string
}

// Sample is a passing path with concrete inputs and predicted observations.
type Sample struct {
	Inputs []InputVal
	Obs    []string
	Sched  []SchedStep
}

// InputVal is one concrete input of a replay.
type InputVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"`
}

// Load builds the SSA program of the harness module.
func Load(dir string, patterns ...string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: os.Environ(), BuildFlags: []string{"-tags=noasm"}}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if len(errs) < 10 {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{SSA: prog, Pkgs: map[string]*ssa.Package{}, infos: map[*ssa.Function]*fnInfo{}, built: map[*ssa.Package]bool{}}
	packages.Visit(pkgs, nil, func(q *packages.Package) { p.Sources = append(p.Sources, q) })
	for _, sp := range prog.AllPackages() {
		p.Pkgs[sp.Pkg.Path()] = sp
	}
	return p, nil
}

func (p *Program) buildPkg(pk *ssa.Package) {
	if pk == nil {
		return
	}
	p.mu.Lock()
	b := p.built[pk]
	p.mu.Unlock()
	if b {
		return
	}
	pk.Build()
	p.mu.Lock()
	p.built[pk] = true
	p.mu.Unlock()
}

func (p *Program) build(fn *ssa.Function) {
	pk := fn.Pkg
	if pk == nil && fn.Parent() != nil {
		for q := fn; q != nil; q = q.Parent() {
			if q.Pkg != nil {
				pk = q.Pkg
			}
		}
	}
	if pk == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		pk = p.SSA.Package(fn.Object().Pkg())
	}
	p.buildPkg(pk)
}

// NewRun prepares a run of harness function fn.
func NewRun(p *Program, cfg Config) *Run {
	if cfg.MaxDepth == 0 {
		cfg.MaxDepth = 200
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 2000000
	}
	if cfg.MaxThreads == 0 {
		cfg.MaxThreads = 24
		if cfg.Mode != "conc" {
			cfg.MaxThreads = 400
		}
	}
	if cfg.MaxPaths == 0 {
		cfg.MaxPaths = 200000
	}
	if cfg.Timeout == 0 {
		cfg.Timeout = 600 * time.Second
	}
	if cfg.QueryMs == 0 {
		cfg.QueryMs = 20000
	}
	if cfg.MaxViol == 0 {
		cfg.MaxViol = 3
	}
	if cfg.Mode == "" {
		cfg.Mode = "seq"
	}
	if cfg.Float == "" {
		cfg.Float = "real"
	}
	r := &Run{C: smt.NewCtx(), P: p, Cfg: cfg,
		consts: map[*ssa.Const]Value{}, gids: map[*ssa.Global]int{}, intr: map[*ssa.Function]handler{},
		Fns: map[string]bool{}, answers: map[int]answer{}, Reduced: map[string]int{}, Covers: map[string]bool{}}
	r.L = layouts{size: map[types.Type]int{}, off: map[*types.Struct][]int{}}
	r.S = smt.NewSolver(r.C, []string{"z3", "-in", "-smt2"}, cfg.QueryMs, &r.Stat)
	if f := os.Getenv("SMT_LOG"); f != "" {
		w, _ := os.Create(f)
		r.S.Log = w
	}
	tn := types.NewTypeName(0, nil, "runtimeError", nil)
	r.rtErr = types.NewNamed(tn, types.Typ[types.String], nil)
	return r
}

func (r *Run) noteFn(fn *ssa.Function) {
	if r.noted[fn] {
		return
	}
	if r.noted == nil {
		r.noted = map[*ssa.Function]bool{}
	}
	r.noted[fn] = true
	name := fn.String()
	if strings.Contains(name, "wearelumenai/distclus") {
		r.Fns[name] = true
	}
}

func (r *Run) reduced(msg string) { r.Reduced[msg]++ }

func (r *Run) logf(f string, a ...interface{}) { r.logs = append(r.logs, fmt.Sprintf(f, a...)) }

func (r *Run) check(st *State, cond *smt.Term) (smt.Result, smt.Model) {
	ts := st.pc.List()
	if cond != nil {
		ts = append(ts, cond)
	}
	return r.checkVars(st, cond, smt.Vars(ts))
}

// checkSlice decides cond on a feasible path: only the part of the path
// condition that shares variables with it matters, and equal questions of
// different paths are asked once.
func (r *Run) checkSlice(st *State, cond *smt.Term) (smt.Result, smt.Model) {
	if r.pushHook == nil || st.unsure {
		return r.check(st, cond)
	}
	q := r.C.And(cone(r.C, st.pc, []*smt.Term{cond}), cond)
	if q.IsFalse() {
		return smt.Unsat, nil
	}
	a, ok := r.answers[q.ID]
	if !ok {
		var vars []*smt.Term
		if !q.IsTrue() {
			vars = smt.Vars([]*smt.Term{q})
		}
		a.res, a.model = r.checkVars(&State{run: r}, q, vars)
		r.answers[q.ID] = a
	} else {
		r.Reused++
	}
	if a.res != smt.Sat || st.model == nil {
		return a.res, nil
	}
	m := make(smt.Model, len(st.model)+len(a.model))
	for k, v := range st.model {
		m[k] = v
	}
	for k, v := range a.model {
		m[k] = v
	}
	return a.res, m
}

type answer struct {
	res   smt.Result
	model smt.Model
}

func (r *Run) checkVars(st *State, cond *smt.Term, vars []*smt.Term) (smt.Result, smt.Model) {
	res, m := r.S.Check(st.pc, cond, vars)
	if e, ok := smt.LastError.Load().(string); ok && e != "" {
		r.reduced("solver error: " + e)
		smt.LastError.Store("")
	}
	return res, m
}

// checkHard also asks other solvers when z3 gives up.
func (r *Run) checkHard(st *State, cond *smt.Term) (smt.Result, smt.Model) {
	res, m := r.check(st, cond)
	if res != smt.Unknown {
		return res, m
	}
	ts := st.pc.List()
	if cond != nil {
		// maybe it is impossible on any path
		if res, _ := r.checkVars(&State{run: r}, cond, nil); res == smt.Unsat {
			return res, nil
		}
		ts = append(ts, cond)
	}
	vars := smt.Vars(ts)
	for _, bin := range [][]string{{"z3-new", "-in", "-smt2"}, {"cvc5", "--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", r.Cfg.QueryMs)}} {
		s := smt.NewSolver(r.C, bin, r.Cfg.QueryMs, &r.Stat)
		r.Stat.Fallback++
		res, m = s.Check(st.pc, cond, vars)
		s.Close()
		smt.LastError.Store("")
		if res != smt.Unknown {
			return res, m
		}
	}
	return smt.Unknown, nil
}

func (r *Run) push(st *State) {
	if r.pushHook != nil {
		r.pushHook(st)
		return
	}
	r.stack = append(r.stack, st)
}

func (r *Run) newState(fn *ssa.Function) *State {
	st := &State{run: r, epoch: newEpoch(), known: map[int]bool{}, names: map[string]int{}, clock: r.C.Int(0), covers: map[string]bool{},
		inits: map[*ssa.Package]bool{}, objs: []*Obj{nil}, globs: []*Obj{nil}, model: smt.Model{}}
	th := &Thread{id: 1, name: "main", client: true, vc: vclock{0, 1}}
	st.threads = []*Thread{th}
	if r.Cfg.Race && r.Cfg.Mode == "seq" {
		st.race = newRace()
	}
	r.pushFrame(st, th, fn, nil, nil)
	r.lazyInit(st, th, fn.Pkg)
	return st
}

// Explore runs the harness over all paths.
func (r *Run) Explore(fn *ssa.Function) {
	r.deadline = time.Now().Add(r.Cfg.Timeout)
	defer r.S.Close()
	defer func() {
		if r.hang != nil && len(r.Violations) == 0 {
			r.Violations = append(r.Violations, r.hang)
		}
	}()
	if r.Cfg.Mode == "conc" {
		r.exploreConc(fn)
		return
	}
	r.stack = []*State{r.newState(fn)}
	for len(r.stack) > 0 {
		if time.Now().After(r.deadline) {
			r.reduced("bound: time")
			break
		}
		if r.Paths >= r.Cfg.MaxPaths {
			r.reduced("bound: paths")
			break
		}
		if len(r.Violations) >= r.Cfg.MaxViol {
			break
		}
		st := r.stack[len(r.stack)-1]
		r.stack = r.stack[:len(r.stack)-1]
		r.runPath(st)
	}
}

func (r *Run) runPath(st *State) {
	r.guarded(st, func() {
		for st.outcome == nil {
			if st.steps&0xfff == 0 && time.Now().After(r.deadline) {
				panic(killPath{"bound: time"})
			}
			th := st.threads[st.cur]
			if th.status == runnable && len(th.frames) > 0 {
				r.step(st, th)
				if th.id == 1 && th.status == done {
					st.outcome = &Outcome{Kind: "done"}
				}
				continue
			}
			if !r.schedule(st) {
				return
			}
		}
	})
	r.finish(st)
}

// guarded converts the engine's panics into path outcomes.
func (r *Run) guarded(st *State, f func()) {
	defer func() {
		if x := recover(); x != nil {
			loc := ""
			if th := r.curThread(st); th != nil && len(th.frames) > 0 {
				func() {
					defer func() { recover() }()
					loc = r.locOf(th.frames[len(th.frames)-1])
				}()
			}
			switch e := x.(type) {
			case unsupported:
				st.outcome = &Outcome{Kind: "unsupported", Msg: string(e), Loc: loc}
			case killPath:
				st.outcome = &Outcome{Kind: "killed", Msg: e.why, Loc: loc}
			default:
				if os.Getenv("ENGINE_PANIC") != "" {
					fmt.Fprintln(os.Stderr, "engine panic at", loc)
					panic(x)
				}
				st.outcome = &Outcome{Kind: "unsupported", Msg: fmt.Sprintf("engine: %v", x), Loc: loc}
			}
		}
	}()
	f()
}

// schedule picks the next runnable thread in seq mode.
func (r *Run) schedule(st *State) bool {
	n := len(st.threads)
	for k := 0; k < n; k++ {
		i := (st.cur + 1 + k) % n
		if r.Cfg.Reverse != st.flip {
			i = ((st.cur-1-k)%n + n) % n
		}
		t := st.threads[i]
		if t.status == done || t.status == parked {
			continue
		}
		if t.status == atOp {
			if t.wait.kind == opSleep || !r.enabled(st, t, t.wait) {
				continue
			}
			t.status = runnable
		}
		st.cur = i
		return true
	}
	// only sleepers can go on
	best := -1
	for i, t := range st.threads {
		if t.status == atOp && t.wait.kind == opSleep && (best < 0 || t.wait.wake.K < st.threads[best].wait.wake.K) {
			best = i
		}
	}
	if best >= 0 {
		t := st.threads[best]
		if t.wait.wake.K > st.clock.K {
			st.clock = t.wait.wake
		}
		t.status = runnable
		st.cur = best
		return true
	}
	var who []string
	for _, t := range st.threads {
		if t.status != done {
			who = append(who, fmt.Sprintf("%s at %s %s", t.name, opNames[t.wait.kind], t.wait.loc))
		}
	}
	st.outcome = &Outcome{Kind: "deadlock", Msg: "all goroutines are asleep: " + strings.Join(who, "; ")}
	return true
}

// finish classifies the end of a path.
func (r *Run) finish(st *State) {
	o := st.outcome
	if o == nil {
		return
	}
	o.St = st
	switch o.Kind {
	case "done":
		r.Paths++
		for k := range st.covers {
			r.Covers[k] = true
		}
		if len(r.Samples) < r.Cfg.Samples && (r.Paths <= 2 || r.Paths%7 == 0) {
			r.sample(st)
		}
	case "killed":
		if o.Msg != "infeasible" && o.Msg != "assumption" {
			r.reduced(o.Msg)
			if o.Msg == "bound: steps" || o.Msg == "bound: call depth" {
				r.endless(st)
			}
			if r.Cfg.Trace {
				r.logf("killed: %s at %s", o.Msg, o.Loc)
			}
		}
	case "unsupported":
		r.reduced("not encoded: " + o.Msg + " at " + o.Loc)
	case "violation-continued":
	default: // assert, panic, deadlock, race
		r.Paths++
		key := o.Kind + " " + o.Msg + " " + o.Loc
		if o.Kind == "deadlock" || o.Kind == "livelock" {
			key = o.Kind + " " + o.Msg
		}
		if r.violSeen[key] && r.Cfg.Mode == "conc" {
			return
		}
		if r.violSeen == nil {
			r.violSeen = map[string]bool{}
		}
		if r.Cfg.Mode == "conc" {
			o.Steps, st, _ = r.resolve(st)
			o.Steps = append(o.Steps, o.Extra...)
			o.St = st
		}
		if o.Model == nil {
			res, m := r.niceModel(st, nil)
			if res != smt.Sat {
				if res == smt.Unknown {
					r.reduced("solver unknown for a candidate violation")
				}
				return
			}
			o.Model = m
		}
		r.violSeen[key] = true
		r.Violations = append(r.Violations, o)
	}
}

// endless keeps a path that was cut because it did not come to an end: the
// replay tells whether it ever does.
func (r *Run) endless(st *State) {
	if r.hang != nil || r.hangs > 3 {
		return
	}
	r.hangs++
	o := st.outcome
	h := &Outcome{Kind: "hang", Msg: "a call goes on without end", Loc: o.Loc, St: st}
	if r.Cfg.Mode == "conc" {
		h.Steps, h.St, _ = r.resolve(st)
	}
	res, m := r.niceModel(h.St, nil)
	if res != smt.Sat {
		return
	}
	h.Model = m
	r.hang = h
}

// niceModel prefers models with simple numbers, which survive the replay in
// real floating point arithmetic.
func (r *Run) niceModel(st *State, cond *smt.Term) (smt.Result, smt.Model) {
	res, m := r.niceModel1(st, cond)
	if res == smt.Sat && len(st.apps) > 0 {
		return r.refine(st, cond, m)
	}
	return res, m
}

var trueFns = map[string]func(float64) float64{"exp": math.Exp, "log": math.Log}

// refine looks for a model in which the transcendental functions take their
// true values; facts about the functions at the points of wrong models are
// added until there is one or none at all.
func (r *Run) refine(st *State, cond *smt.Term, m smt.Model) (smt.Result, smt.Model) {
	C := r.C
	ts := st.pc.List()
	if cond != nil {
		ts = append(ts, cond)
	}
	in := map[*smt.Term]bool{}
	for _, v := range smt.Vars(ts) {
		in[v] = true
	}
	type app struct {
		f    func(float64) float64
		x, y *smt.Term
		name string
	}
	var apps []app
	for _, a := range st.apps {
		if f := trueFns[a.fn]; f != nil && in[a.y] {
			apps = append(apps, app{f, a.x, a.y, a.fn})
		}
	}
	if len(apps) == 0 || len(apps) > 12 {
		return smt.Sat, m
	}
	first := m
	// points of moderate size and draws of few bits are preferred
	var prefer []*smt.Term
	for _, i := range st.inputs {
		if i.kind == "drawf" && in[i.term] && i.term.Op == smt.OVar {
			k := C.IntVar("grid!"+i.term.Name, 0, 4096)
			prefer = append(prefer, C.REq(i.term, C.RMul(C.I2R(k), C.RealF(1.0/4096))))
		}
	}
	facts := func(a app, c *smt.Term, y0 float64) {
		d := math.Abs(y0) * 1e-9
		st.assume(C.And(C.Implies(C.RLe(a.x, c), C.RLe(a.y, C.RealF(y0+d))), C.Implies(C.RLe(c, a.x), C.RLe(C.RealF(y0-d), a.y))))
	}
	for _, a := range apps {
		lo, hi := -4., 4.
		if a.name == "log" {
			lo, hi = 0.125, 8
		}
		prefer = append(prefer, C.RLe(C.RealF(lo), a.x), C.RLe(a.x, C.RealF(hi)))
		for x := lo; x <= hi; x += 0.5 {
			facts(a, C.RealF(x), a.f(x))
		}
	}
	with := func(ts ...*smt.Term) *smt.Term {
		ts = append([]*smt.Term(nil), ts...)
		if cond != nil {
			ts = append(ts, cond)
		}
		return C.And(ts...)
	}
	if res, m2 := r.check(st, with(prefer...)); res == smt.Sat {
		m = m2
	} else if res, m2 := r.check(st, with()); res == smt.Sat {
		m, prefer = m2, nil
	} else {
		return res, m2
	}
	for round := 0; round < 16; round++ {
		var pins []*smt.Term
		for _, a := range apps {
			xv := C.Eval(a.x, m, map[int]*smt.Term{})
			if xv == nil {
				return smt.Sat, first
			}
			x0, _ := xv.FloatVal()
			y0 := a.f(x0)
			if math.IsNaN(y0) || math.IsInf(y0, 0) {
				return smt.Sat, first
			}
			d := math.Abs(y0) * 1e-9
			pins = append(pins, C.REq(a.x, xv), C.RLe(C.RealF(y0-d), a.y), C.RLe(a.y, C.RealF(y0+d)))
			facts(a, xv, y0)
		}
		if res, m2 := r.check(st, with(append(pins, prefer...)...)); res == smt.Sat {
			return res, m2
		}
		res, m2 := r.check(st, with(prefer...))
		if res != smt.Sat {
			if prefer == nil {
				return res, m2
			}
			prefer = nil
			if res, m2 = r.check(st, with()); res != smt.Sat {
				return res, m2
			}
		}
		m = m2
	}
	r.reduced("bound: refinement of exp and log")
	return smt.Sat, first
}

func (r *Run) niceModel1(st *State, cond *smt.Term) (smt.Result, smt.Model) {
	res, m := r.checkHard(st, cond)
	if res != smt.Sat {
		return res, m
	}
	var reals []*smt.Term
	ts := st.pc.List()
	if cond != nil {
		ts = append(ts, cond)
	}
	inVars := map[*smt.Term]bool{}
	for _, v := range smt.Vars(ts) {
		inVars[v] = true
	}
	for _, in := range st.inputs {
		if in.term.Sort == smt.Real && inVars[in.term] && in.term.Op == smt.OVar {
			reals = append(reals, in.term)
		}
	}
	if len(reals) == 0 || len(reals) > 24 {
		return res, m
	}
	for _, den := range []int64{1, 4, 64} {
		var cs []*smt.Term
		for _, v := range reals {
			k := r.C.IntVar(fmt.Sprintf("nice%d!%s", den, v.Name), -64*den, 64*den)
			cs = append(cs, r.C.REq(v, r.C.RMul(r.C.I2R(k), r.C.RealF(1/float64(den)))))
		}
		if cond != nil {
			cs = append(cs, cond)
		}
		save := r.S.Timeout
		r2, m2 := r.check(st, r.C.And(cs...))
		r.S.Timeout = save
		if r2 == smt.Sat {
			return r2, m2
		}
	}
	return res, m
}

// InputsOf evaluates the inputs of a path under a model.
func (r *Run) InputsOf(st *State, m smt.Model) []InputVal {
	var out []InputVal
	for _, in := range st.inputs {
		v := r.C.Eval(in.term, m, map[int]*smt.Term{})
		s := "0"
		if in.kind == "drawf" {
			// the raw word of a draw from [0,1)
			raw := new(big.Int)
			if v != nil && v.R != nil {
				q := new(big.Rat).Mul(v.R, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 53)))
				raw.Div(q.Num(), q.Denom())
			} else if v != nil {
				if f, ok := v.FloatVal(); ok {
					raw.SetInt64(int64(f * (1 << 53)))
				}
			}
			out = append(out, InputVal{in.name, "draw", raw.String()})
			continue
		}
		if v == nil {
			s = in.meta
		} else {
			switch v.Sort {
			case smt.Bool:
				s = fmt.Sprint(v.K)
			case smt.Int:
				s = v.BigVal().String()
			case smt.BV:
				s = v.BigVal().String()
			default:
				f, ok := v.FloatVal()
				if !ok && v.R != nil {
					f, _ = v.R.Float64()
				}
				s = fmt.Sprintf("%x", f)
			}
		}
		if s == "" {
			s = "0"
		}
		out = append(out, InputVal{in.name, in.kind, s})
	}
	return out
}

func (r *Run) sample(st *State) {
	steps := st.Steps()
	if r.Cfg.Mode == "conc" {
		var ok bool
		if steps, st, ok = r.resolve(st); !ok {
			return
		}
	}
	res, m := r.niceModel(st, nil)
	if res != smt.Sat {
		return
	}
	s := &Sample{Inputs: r.InputsOf(st, m), Sched: steps}
	memo := map[int]*smt.Term{}
	for _, o := range st.obs {
		s.Obs = append(s.Obs, o.tag+"="+r.evalObs(o.val, m, memo))
	}
	r.Samples = append(r.Samples, s)
}

func (r *Run) evalObs(v Value, m smt.Model, memo map[int]*smt.Term) string {
	switch x := v.(type) {
	case *smt.Term:
		e := r.C.Eval(x, m, memo)
		if e == nil {
			return "?"
		}
		switch e.Sort {
		case smt.Bool:
			return fmt.Sprint(e.K == 1)
		case smt.Int:
			return e.BigVal().String()
		}
		if e.Special == 0 && e.R != nil {
			f, _ := e.R.Float64()
			return fmt.Sprintf("%.9g", f)
		}
		f, _ := e.FloatVal()
		return fmt.Sprintf("%.9g", f)
	case string:
		return x
	}
	return "?"
}

// FnList lists the functions of the repository that were encoded.
func (r *Run) FnList() []string {
	var out []string
	for f := range r.Fns {
		out = append(out, f)
	}
	sort.Strings(out)
	return out
}

// Counters of a run.
func (r *Run) Instrs() int    { return r.instrs }
func (r *Run) Branches() int  { return r.branches }
func (r *Run) Logs() []string { return r.logs }

var _ sync.Mutex

// HarnessFunc finds a function of a loaded package.
func (p *Program) HarnessFunc(pkg, name string) *ssa.Function {
	pk := p.Pkgs[pkg]
	if pk == nil {
		return nil
	}
	p.buildPkg(pk)
	return pk.Func(name)
}

// Schedule describes the schedule of a path.
func (st *State) Schedule() []string {
	var out []string
	for _, s := range st.Steps() {
		out = append(out, fmt.Sprintf("T%d %s %s", s.Tid, s.Op, s.Loc))
	}
	return out
}

// Steps is the raw schedule of a path.
func (st *State) Steps() []SchedStep {
	if st.cn != nil {
		return stepsOf(st.cn)
	}
	return st.sched
}
