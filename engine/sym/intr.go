package sym

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"runtime"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verifengine/smt"
)

// VK is the import path of the harness support package.
const VK = "verifharness/vk"

func (r *Run) intrinsic(fn *ssa.Function) handler {
	if h, ok := r.intr[fn]; ok {
		return h
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	h := handlers[name]
	if h == nil {
		switch {
		case strings.HasPrefix(name, "(*sync/atomic.") && fn.Signature.Recv() != nil:
			h = atomicMethod
		case strings.HasPrefix(name, "sync/atomic."):
			h = atomicFunc
		case strings.HasPrefix(name, "math.") && mathFold[fn.Name()] != nil && fn.Pkg != nil && fn.Pkg.Pkg.Path() == "math":
			h = mathFunc
		case strings.HasPrefix(name, "(time.Time)."):
			h = timeMethod
		case strings.HasPrefix(name, "strings.") && stringFns[fn.Name()] != nil && fn.Signature.Recv() == nil:
			h = stringFunc
		}
	}
	r.intr[fn] = h
	return h
}

var mathFold = map[string]interface{}{
	"Sqrt": math.Sqrt, "Exp": math.Exp, "Log": math.Log, "Abs": math.Abs, "Floor": math.Floor, "Ceil": math.Ceil,
	"Trunc": math.Trunc, "Gamma": math.Gamma, "Log2": math.Log2, "Log10": math.Log10, "Log1p": math.Log1p, "Sin": math.Sin,
	"Cos": math.Cos, "Tan": math.Tan, "Acos": math.Acos, "Asin": math.Asin, "Atan": math.Atan, "Round": math.Round, "Cbrt": math.Cbrt,
	"Exp2": math.Exp2, "Expm1": math.Expm1,
	"Pow": math.Pow, "Max": math.Max, "Min": math.Min, "Mod": math.Mod, "Hypot": math.Hypot, "Atan2": math.Atan2, "Dim": math.Dim,
	"Inf": 0, "NaN": 0, "IsNaN": 0, "IsInf": 0, "Signbit": 0, "Float64bits": 0, "Float64frombits": 0, "Lgamma": 0, "FMA": 0, "Copysign": 0,
	"Modf": 0, "Frexp": 0, "Ldexp": 0, "Nextafter": math.Nextafter,
}

var stringFns = map[string]interface{}{
	"ToLower": strings.ToLower, "ToUpper": strings.ToUpper, "TrimSpace": strings.TrimSpace, "Contains": strings.Contains,
	"HasPrefix": strings.HasPrefix, "HasSuffix": strings.HasSuffix, "EqualFold": strings.EqualFold, "Title": strings.ToTitle,
	"Index": strings.Index,
}

func stringFunc(r *Run, c *call) Value {
	var ss []string
	for _, a := range c.args {
		s, ok := a.(string)
		if !ok {
			panic(unsupported("strings." + c.fn.Name()))
		}
		ss = append(ss, s)
	}
	switch f := stringFns[c.fn.Name()].(type) {
	case func(string) string:
		return f(ss[0])
	case func(string, string) bool:
		return r.C.Bool(f(ss[0], ss[1]))
	case func(string, string) int:
		return r.C.Int(int64(f(ss[0], ss[1])))
	}
	panic(unsupported("strings." + c.fn.Name()))
}

// ---------------------------------------------------------------- math

func (r *Run) fval(v Value) (float64, bool) {
	t, ok := v.(*smt.Term)
	if !ok {
		return 0, false
	}
	return t.FloatVal()
}

func mathFunc(r *Run, c *call) Value {
	st := c.st
	C := r.C
	name := c.fn.Name()
	switch name {
	case "Inf":
		t := c.term(0)
		neg := r.decide(st, C.ILt(t, C.Int(0)))
		if neg {
			return r.float(math.Inf(-1))
		}
		return r.float(math.Inf(1))
	case "NaN":
		return r.float(math.NaN())
	case "IsNaN":
		t := c.term(0)
		if t.Sort == smt.FP {
			return C.FPred(smt.OFNaN, t)
		}
		return C.Bool(t == C.NaN)
	case "IsInf":
		t := c.term(0)
		s := r.concretize(st, c.term(1))
		if t.Sort == smt.FP {
			inf := C.FPred(smt.OFInf, t)
			pos := C.FCmp(smt.OFLt, C.FPF(0), t)
			switch {
			case s > 0:
				return C.And(inf, pos)
			case s < 0:
				return C.And(inf, C.Not(pos))
			}
			return inf
		}
		return C.Bool(t == C.Inf && s >= 0 || t == C.NInf && s <= 0)
	case "Signbit":
		t := c.term(0)
		if f, ok := t.FloatVal(); ok {
			return C.Bool(math.Signbit(f))
		}
		if t.Sort == smt.Real {
			return C.RLt(t, C.RealF(0))
		}
		panic(unsupported("math.Signbit"))
	case "Float64bits":
		if f, ok := r.fval(c.args[0]); ok {
			return C.BigInt(new(big.Int).SetUint64(math.Float64bits(f)))
		}
		panic(unsupported("math.Float64bits"))
	case "Float64frombits":
		t := c.term(0)
		if t.IsConst() {
			return r.float(math.Float64frombits(t.BigVal().Uint64()))
		}
		panic(unsupported("math.Float64frombits"))
	case "Lgamma":
		if f, ok := r.fval(c.args[0]); ok {
			l, s := math.Lgamma(f)
			return Tuple{r.float(l), C.Int(int64(s))}
		}
		panic(unsupported("math.Lgamma"))
	case "Copysign":
		x, okx := r.fval(c.args[0])
		y, oky := r.fval(c.args[1])
		if okx && oky {
			return r.float(math.Copysign(x, y))
		}
		panic(unsupported("math.Copysign"))
	case "Modf", "Frexp", "Ldexp":
		panic(unsupported("math." + name))
	}
	// constant folding with the real function
	vals := make([]float64, len(c.args))
	all := true
	for i, a := range c.args {
		f, ok := r.fval(a)
		vals[i] = f
		all = all && ok
	}
	if all {
		switch f := mathFold[name].(type) {
		case func(float64) float64:
			return r.float(f(vals[0]))
		case func(float64, float64) float64:
			return r.float(f(vals[0], vals[1]))
		}
	}
	x := c.term(0)
	if special(x) {
		if f, ok := mathFold[name].(func(float64) float64); ok {
			return r.float(f(vals[0]))
		}
	}
	fp := r.Cfg.Float == "fp"
	zero := r.float(0)
	switch name {
	case "Sqrt":
		if fp {
			return C.FUn(smt.OFSqrt, x)
		}
		if r.decide(st, C.RLt(x, zero)) {
			return C.NaN
		}
		return r.round(C.SqrtExact(x))
	case "Abs":
		if fp {
			return C.FUn(smt.OFAbs, x)
		}
		return C.RAbs(x)
	case "Floor", "Ceil", "Trunc", "Round":
		if fp {
			panic(unsupported("math." + name + " in fp mode"))
		}
		switch name {
		case "Floor":
			return C.I2R(C.Floor(x))
		case "Ceil":
			return C.RNeg(C.I2R(C.Floor(C.RNeg(x))))
		case "Trunc":
			if r.decide(st, C.RLe(zero, x)) {
				return C.I2R(C.Floor(x))
			}
			return C.RNeg(C.I2R(C.Floor(C.RNeg(x))))
		}
		half := C.RealF(0.5)
		if r.decide(st, C.RLe(zero, x)) {
			return C.I2R(C.Floor(C.RAdd(x, half)))
		}
		return C.RNeg(C.I2R(C.Floor(C.RAdd(C.RNeg(x), half))))
	case "Max", "Min":
		y := c.term(1)
		v := r.flt(x, y)
		less := r.decide(st, v)
		if less == (name == "Min") {
			return x
		}
		return y
	case "Dim":
		y := c.term(1)
		if r.decide(st, r.flt(y, x)) {
			return r.fbin(st, 13 /* token.SUB */, x, y)
		}
		return zero
	case "Pow":
		return r.pow(st, x, c.term(1))
	case "Exp":
		if !fp {
			return r.expTerm(st, x)
		}
	case "Log":
		if !fp {
			if r.decide(st, C.RLe(x, zero)) {
				if r.decide(st, C.REq(x, zero)) {
					return C.NInf
				}
				return C.NaN
			}
			return r.logTerm(st, x)
		}
	}
	panic(unsupported("math." + name + " on a symbolic value"))
}

func (r *Run) flt(x, y *smt.Term) *smt.Term {
	if r.Cfg.Float == "fp" {
		return r.C.FCmp(smt.OFLt, x, y)
	}
	return r.C.RLt(x, y)
}

func (r *Run) pow(st *State, x, y *smt.Term) *smt.Term {
	C := r.C
	if f, ok := x.FloatVal(); ok && f == 1 {
		return r.float(1)
	}
	e, ok := y.FloatVal()
	if !ok {
		panic(unsupported("math.Pow with symbolic exponent"))
	}
	switch e {
	case 0:
		return r.float(1)
	case 1:
		return x
	case 2:
		if r.Cfg.Float == "fp" {
			return C.FBin(smt.OFMul, x, x)
		}
		return r.round(C.RMul(x, x))
	case 3:
		if r.Cfg.Float != "fp" {
			return r.round(C.RMul(C.RMul(x, x), x))
		}
	case 0.5:
		if r.Cfg.Float == "fp" {
			return C.FUn(smt.OFSqrt, x)
		}
		if r.decide(st, C.RLt(x, C.RealF(0))) {
			return C.NaN
		}
		return r.round(C.SqrtExact(x))
	}
	if r.Cfg.Float != "fp" && e > 0 && e <= 16 && e*2 == math.Floor(e*2) {
		p := r.pow(st, x, r.float(e-math.Floor(e)))
		for i := 0; i < int(e); i++ {
			p = r.round(C.RMul(p, x))
		}
		return p
	}
	panic(unsupported(fmt.Sprintf("math.Pow with exponent %v", e)))
}

type fnApp struct {
	fn   string
	x, y *smt.Term
}

// monotone registers y = fn(x) for a non-decreasing function.
func (r *Run) monotone(st *State, fn string, x *smt.Term, extra func(y *smt.Term) []*smt.Term) *smt.Term {
	C := r.C
	y, isNew := C.Fn(fn, x)
	if isNew {
		y.Defs = append(y.Defs, extra(y)...)
	}
	n := 0
	for i := len(st.apps) - 1; i >= 0 && n < 16; i-- {
		p := st.apps[i]
		if p.y == y {
			return y
		}
		if p.fn == fn {
			n++
			st.assume(C.And(C.Implies(C.RLe(p.x, x), C.RLe(p.y, y)), C.Implies(C.RLe(x, p.x), C.RLe(y, p.y))))
		}
	}
	st.apps = append(st.apps[:len(st.apps):len(st.apps)], fnApp{fn, x, y})
	return y
}

func (r *Run) expTerm(st *State, x *smt.Term) *smt.Term {
	C := r.C
	zero, one := C.RealF(0), C.RealF(1)
	return r.monotone(st, "exp", x, func(y *smt.Term) []*smt.Term {
		y.RLo = 0
		return []*smt.Term{C.RLe(zero, y),
			C.Implies(C.RLe(x, zero), C.RLe(y, one)), C.Implies(C.RLe(zero, x), C.RLe(one, y)),
			C.Implies(C.RLe(C.RealF(-700), x), C.RLt(zero, y)),
			C.Implies(C.RLe(x, C.RealF(-800)), C.REq(y, zero)),
			C.Implies(C.REq(x, zero), C.REq(y, one))}
	})
}

func (r *Run) logTerm(st *State, x *smt.Term) *smt.Term {
	C := r.C
	zero, one := C.RealF(0), C.RealF(1)
	return r.monotone(st, "log", x, func(y *smt.Term) []*smt.Term {
		return []*smt.Term{
			C.Implies(C.RLe(x, one), C.RLe(y, zero)), C.Implies(C.RLe(one, x), C.RLe(zero, y))}
	})
}

// ---------------------------------------------------------------- atomics

func atomicCell(r *Run, fn *ssa.Function, p Ptr) (Ptr, types.Type) {
	rt := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
	u := rt.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == "v" {
			return Ptr{p.Obj, p.Off + r.L.fieldOff(u, i)}, u.Field(i).Type()
		}
	}
	panic(unsupported("atomic type " + rt.String()))
}

func atomicMethod(r *Run, c *call) Value {
	p := c.args[0].(Ptr)
	if p.Obj == 0 {
		c.threw = true
		r.nilDeref(c.st, c.th)
		return nil
	}
	cell, ct := atomicCell(r, c.fn, p)
	isB := strings.HasPrefix(c.fn.String(), "(*sync/atomic.Bool)")
	isV := strings.HasPrefix(c.fn.String(), "(*sync/atomic.Value)")
	return atomicOp(r, c, c.fn.Name(), cell, ct, c.args[1:], isB, isV)
}

func atomicFunc(r *Run, c *call) Value {
	name := c.fn.Name()
	for _, s := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		name = strings.TrimSuffix(name, s)
	}
	p := c.args[0].(Ptr)
	if p.Obj == 0 {
		c.threw = true
		r.nilDeref(c.st, c.th)
		return nil
	}
	ct := c.fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
	return atomicOp(r, c, name, p, ct, c.args[1:], false, false)
}

func atomicOp(r *Run, c *call, op string, cell Ptr, ct types.Type, args []Value, isB, isV bool) Value {
	st, th := c.st, c.th
	if !r.visible(st, th, waitInfo{kind: opAtomic, ptr: cell}) {
		c.blocked = true
		return nil
	}
	out := func(v Value) Value {
		if isB {
			return r.C.Not(r.C.IEq(v.(*smt.Term), r.C.Int(0)))
		}
		return v
	}
	in := func(v Value) Value {
		if isB {
			return r.C.Ite(v.(*smt.Term), r.C.Int(1), r.C.Int(0))
		}
		return v
	}
	old := st.obj(cell.Obj).cells[cell.Off]
	set := func(v Value) {
		st.wobj(cell.Obj).cells[cell.Off] = v
		r.release(st, th, cell, opAtomic)
	}
	wrap := func(t *smt.Term) *smt.Term {
		b, s := intBits(ct)
		return r.C.Wrap(t, b, s)
	}
	switch op {
	case "Load":
		r.acquire(st, th, cell)
		return out(old)
	case "Store":
		r.acquire(st, th, cell)
		set(in(args[0]))
		return Tuple{}
	case "Swap":
		r.acquire(st, th, cell)
		set(in(args[0]))
		return out(old)
	case "Add":
		r.acquire(st, th, cell)
		v := wrap(r.C.IAdd(old.(*smt.Term), args[0].(*smt.Term)))
		set(v)
		return v
	case "CompareAndSwap":
		eq := r.eq(st, old, in(args[0]))
		if r.Cfg.Mode == "conc" && !eq.IsConst() {
			th.granted = true
		}
		b := r.decide(st, eq)
		th.granted = false
		r.acquire(st, th, cell)
		if b {
			set(in(args[1]))
		}
		return r.C.Bool(b)
	}
	panic(unsupported("atomic " + op))
}

// ---------------------------------------------------------------- formatting

func (r *Run) mkError(st *State, msg string) Iface {
	t := r.P.Pkgs["errors"].Pkg.Scope().Lookup("errorString").Type()
	p := st.allocCells([]Value{msg}, "error")
	return Iface{types.NewPointer(t), p}
}

func (r *Run) ifaceString(st *State, v Iface) string {
	if v.T == nil {
		return "<nil>"
	}
	if v.T == r.rtErr {
		return "runtime error: " + v.V.(string)
	}
	switch v.T.String() {
	case "*errors.errorString":
		p := v.V.(Ptr)
		if s, ok := st.obj(p.Obj).cells[p.Off].(string); ok {
			return s
		}
	case "*fmt.wrapError":
		p := v.V.(Ptr)
		if s, ok := st.obj(p.Obj).cells[p.Off].(string); ok {
			return s
		}
	}
	switch x := v.V.(type) {
	case string:
		return x
	case *smt.Term:
		if x.IsConst() {
			if x.Sort == smt.Bool {
				return fmt.Sprint(x.K == 1)
			}
			if x.Sort == smt.Int {
				return x.BigVal().String()
			}
			f, _ := x.FloatVal()
			return fmt.Sprint(f)
		}
		return fmt.Sprintf("<sym %d>", x.ID)
	}
	return "<" + v.T.String() + ">"
}

func (r *Run) sprintf(st *State, format string, args Slice) (string, Iface) {
	var b strings.Builder
	var wrapped Iface
	k := 0
	var o *Obj
	if args.Obj != 0 {
		o = st.obj(args.Obj)
	}
	arg := func() (Iface, bool) {
		if k >= args.Len {
			return Iface{}, false
		}
		v := o.cells[args.Off+k].(Iface)
		k++
		return v, true
	}
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			b.WriteByte(format[i])
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			break
		}
		switch format[i] {
		case '%':
			b.WriteByte('%')
		default:
			v, ok := arg()
			if !ok {
				b.WriteString("%!v(MISSING)")
				continue
			}
			if format[i] == 'w' {
				wrapped = v
			}
			if format[i] == 'q' {
				b.WriteString(strconv.Quote(r.ifaceString(st, v)))
				continue
			}
			if format[i] == 'T' {
				b.WriteString(fmt.Sprint(v.T))
				continue
			}
			b.WriteString(r.ifaceString(st, v))
		}
	}
	return b.String(), wrapped
}

func hErrorf(r *Run, c *call) Value {
	s, w := r.sprintf(c.st, c.args[0].(string), c.args[1].(Slice))
	if w.T != nil {
		if pk := r.P.Pkgs["fmt"]; pk != nil {
			if o := pk.Pkg.Scope().Lookup("wrapError"); o != nil {
				p := c.st.allocCells([]Value{s, w}, "error")
				return Iface{types.NewPointer(o.Type()), p}
			}
		}
	}
	return r.mkError(c.st, s)
}

func hSprint(r *Run, c *call) Value {
	var b strings.Builder
	a := c.args[0].(Slice)
	for i := 0; i < a.Len; i++ {
		b.WriteString(r.ifaceString(c.st, c.st.obj(a.Obj).cells[a.Off+i].(Iface)))
	}
	return b.String()
}

func hErrorsIs(r *Run, c *call) Value {
	e, t := c.args[0].(Iface), c.args[1].(Iface)
	for n := 0; n < 10; n++ {
		if e.T == nil || t.T == nil {
			return r.C.Bool(e.T == nil && t.T == nil)
		}
		if types.Identical(e.T, t.T) && types.Comparable(e.T) {
			if q := r.eq(c.st, e.V, t.V); q.IsTrue() {
				return r.C.T
			}
		}
		if e.T.String() == "*fmt.wrapError" {
			p := e.V.(Ptr)
			e = c.st.obj(p.Obj).cells[p.Off+1].(Iface)
			continue
		}
		return r.C.F
	}
	return r.C.F
}

// ---------------------------------------------------------------- time

// the virtual clock starts on 2020-01-01T00:00:00Z
const clockBase = 63713433600

// virtualWall marks a time of the virtual clock: its other word is the number
// of nanoseconds since clockBase, which may be symbolic.
const virtualWall = 1 << 40

func (r *Run) timeVal(ns *smt.Term) Value {
	if r.Cfg.Clock == "frozen" || r.Cfg.Clock == "" {
		return stdTime(r, ns.K)
	}
	return Agg{r.C.Int(virtualWall), ns, Ptr{}}
}

func stdTime(r *Run, ns int64) Value {
	sec, rest := ns/1e9, ns%1e9
	if rest < 0 {
		sec, rest = sec-1, rest+1e9
	}
	return Agg{r.C.Int(rest), r.C.Int(clockBase + sec), Ptr{}}
}

func isVirtual(v Value) bool {
	a, ok := v.(Agg)
	if !ok || len(a) != 3 {
		return false
	}
	t, ok := a[0].(*smt.Term)
	return ok && t.IsConst() && t.R == nil && t.K == virtualWall
}

// nanos is the number of nanoseconds since the start of the virtual clock.
func (r *Run) nanos(v Value) *smt.Term {
	a := v.(Agg)
	if isVirtual(v) {
		return a[1].(*smt.Term)
	}
	w := a[0].(*smt.Term)
	if !w.IsConst() || w.K < 0 || w.K >= 1<<30 {
		panic(unsupported("time with a monotonic reading"))
	}
	return r.C.IAdd(r.C.IMul(r.C.ISub(a[1].(*smt.Term), r.C.Int(clockBase)), r.C.Int(1e9)), w)
}

// clampDur saturates as time.Time.Sub does.
func (r *Run) clampDur(t *smt.Term) *smt.Term {
	lo, hi := r.C.Int(math.MinInt64+1), r.C.Int(math.MaxInt64)
	return r.C.Ite(r.C.ILt(hi, t), hi, r.C.Ite(r.C.ILt(t, lo), r.C.ISub(lo, r.C.Int(1)), t))
}

// timeMethod performs the methods of time.Time on times of the virtual clock.
func timeMethod(r *Run, c *call) Value {
	virtual := false
	for _, a := range c.args {
		virtual = virtual || isVirtual(a)
	}
	if !virtual {
		c.pass = true
		return nil
	}
	C := r.C
	t := r.nanos(c.args[0])
	switch c.fn.Name() {
	case "Add":
		return Agg{C.Int(virtualWall), C.IAdd(t, c.term(1)), Ptr{}}
	case "Sub":
		return r.clampDur(C.ISub(t, r.nanos(c.args[1])))
	case "After":
		return C.ILt(r.nanos(c.args[1]), t)
	case "Before":
		return C.ILt(t, r.nanos(c.args[1]))
	case "Equal":
		return C.IEq(t, r.nanos(c.args[1]))
	case "Compare":
		u := r.nanos(c.args[1])
		return C.Ite(C.ILt(t, u), C.Int(-1), C.Ite(C.ILt(u, t), C.Int(1), C.Int(0)))
	case "IsZero":
		return C.F
	case "UTC", "Local", "In", "Round", "Truncate":
		if c.fn.Name() == "Round" || c.fn.Name() == "Truncate" {
			if d := c.term(1); !d.IsConst() || d.K > 1 {
				break
			}
		}
		return c.args[0]
	case "UnixNano":
		return C.IAdd(t, C.Int((clockBase-62135596800)*1e9))
	case "Unix", "UnixMilli", "UnixMicro", "Nanosecond":
		if t.Lo < 0 {
			break
		}
		q := map[string]int64{"Unix": 1e9, "UnixMilli": 1e6, "UnixMicro": 1e3, "Nanosecond": 1e9}[c.fn.Name()]
		if c.fn.Name() == "Nanosecond" {
			return C.IRem(t, C.Int(q))
		}
		return C.IAdd(C.IDiv(t, C.Int(q)), C.Int((clockBase-62135596800)*(1e9/q)))
	}
	if !t.IsConst() {
		panic(unsupported(c.fn.String() + " of a symbolic time"))
	}
	for i, a := range c.args {
		if isVirtual(a) {
			n := r.nanos(a)
			if !n.IsConst() {
				panic(unsupported(c.fn.String() + " of a symbolic time"))
			}
			c.args[i] = stdTime(r, n.K)
		}
	}
	c.pass = true
	return nil
}

func hSleep(r *Run, c *call) Value {
	st, th := c.st, c.th
	d := c.term(0)
	if th.slept {
		th.slept = false
		if r.Cfg.Mode == "conc" {
			th.granted = false
		}
		return Tuple{}
	}
	wake := st.clock
	if r.Cfg.Mode != "conc" {
		d = r.C.Int(r.concretize(st, d))
		if d.K <= 0 {
			return Tuple{}
		}
	}
	if r.Cfg.Clock == "virtual" && r.decide(st, r.C.ILt(r.C.Int(0), d)) {
		wake = r.C.IAdd(wake, d)
	}
	th.slept = true
	th.status = atOp
	th.wait = waitInfo{kind: opSleep, wake: wake, loc: r.locOf(th.frames[len(th.frames)-1])}
	c.blocked = true
	return nil
}

// ---------------------------------------------------------------- random draws

// vkSource follows r.src down to a symbolic source; nil if there is none.
func (r *Run) vkSource(st *State, p Ptr) *Iface {
	for i := 0; i < 8; i++ {
		if p.Obj == 0 {
			return nil
		}
		v, ok := st.obj(p.Obj).cells[p.Off].(Iface)
		if !ok || v.T == nil {
			return nil
		}
		switch v.T.String() {
		case "*" + VK + ".Source":
			return &v
		case "*golang.org/x/exp/rand.Rand":
			p = v.V.(Ptr)
			continue
		}
		return nil
	}
	return nil
}

func (r *Run) drawName(st *State, s *Iface) string {
	p := s.V.(Ptr)
	name, _ := st.obj(p.Obj).cells[p.Off].(string)
	if t, ok := st.obj(p.Obj).cells[p.Off+4].(*smt.Term); ok && t.IsTrue() {
		o := st.wobj(p.Obj)
		n := o.cells[p.Off+1].(*smt.Term)
		o.cells[p.Off+1] = r.C.IAdd(n, r.C.Int(1))
		return fmt.Sprintf("draw.%s#%s", name, n.BigVal())
	}
	st.draws++
	if m := r.Cfg.Params["maxdraws"]; m > 0 && st.draws > m {
		panic(killPath{fmt.Sprintf("bound: %d draws", m)})
	}
	o := st.wobj(p.Obj)
	if n, ok := o.cells[p.Off+1].(*smt.Term); ok {
		o.cells[p.Off+1] = r.C.IAdd(n, r.C.Int(1))
	}
	// the source object counts its draws so that concurrent draws stay apart
	return st.uniq("draw." + name)
}

func (r *Run) addInput(st *State, name, kind string, raw *smt.Term) {
	if strings.HasPrefix(name, "draw.") {
		for _, i := range st.inputs {
			if i.name == name {
				return // repeated by a twin
			}
		}
	}
	st.inputs = append(st.inputs, &input{name: name, kind: kind, term: raw})
}

func hIntn(r *Run, c *call) Value {
	src := r.vkSource(c.st, c.args[0].(Ptr))
	if src == nil {
		c.pass = true
		return nil
	}
	n := r.concretize(c.st, c.term(1))
	if n <= 0 {
		c.threw = true
		r.throw(c.st, c.th, Iface{types.Typ[types.String], "invalid argument to " + c.fn.Name()}, "panic: invalid argument to "+c.fn.Name())
		return nil
	}
	name := fmt.Sprintf("%s<%d>", r.drawName(c.st, src), n)
	x := r.C.IntVar(name, 0, n-1)
	if n == 1 {
		x = r.C.Int(0)
	}
	r.addInput(c.st, name, "draw", x)
	return x
}

func hFloat64(r *Run, c *call) Value {
	src := r.vkSource(c.st, c.args[0].(Ptr))
	if src == nil {
		c.pass = true
		return nil
	}
	name := r.drawName(c.st, src) + ".f"
	if r.Cfg.Float == "fp" {
		f, raw := r.C.FPDraw(name)
		r.addInput(c.st, name, "draw", raw)
		return f
	}
	x := r.C.RealVar(name, 0, 1-1.0/(1<<53), -1)
	r.addInput(c.st, name, "drawf", x)
	p := src.V.(Ptr)
	c.st.wobj(p.Obj).cells[p.Off+2] = x
	return x
}

// hNormFloat64 draws from one strip of the generator (values in +-3.22).
func hNormFloat64(r *Run, c *call) Value {
	src := r.vkSource(c.st, c.args[0].(Ptr))
	if src == nil {
		c.pass = true
		return nil
	}
	if r.Cfg.Float == "fp" {
		panic(unsupported("normal draw in fp mode"))
	}
	name := r.drawName(c.st, src) + ".n"
	m := r.C.IntVar(name, -15707000, 15707000)
	j := r.C.IAdd(r.C.IMul(m, r.C.Int(128)), r.C.Int(127))
	// raw word: uint32(j) << 32
	raw := r.C.IMul(r.C.Wrap(j, 32, false), r.C.BigInt(new(big.Int).Lsh(big.NewInt(1), 32)))
	r.addInput(c.st, name, "draw", raw)
	x := r.round(r.C.RMul(r.C.I2R(j), r.C.RealF(float64(float32(1.6030948e-09)))))
	p := src.V.(Ptr)
	c.st.wobj(p.Obj).cells[p.Off+3] = x
	return x
}

// hExpFloat64 draws from the base strip of the generator (values in [0,7.69]).
func hExpFloat64(r *Run, c *call) Value {
	src := r.vkSource(c.st, c.args[0].(Ptr))
	if src == nil {
		c.pass = true
		return nil
	}
	if r.Cfg.Float == "fp" {
		panic(unsupported("exponential draw in fp mode"))
	}
	name := r.drawName(c.st, src) + ".e"
	j := r.C.IMul(r.C.IntVar(name, 0, 14848161), r.C.Int(256))
	raw := r.C.IMul(j, r.C.BigInt(new(big.Int).Lsh(big.NewInt(1), 32)))
	r.addInput(c.st, name, "draw", raw)
	return r.round(r.C.RMul(r.C.I2R(j), r.C.RealF(float64(float32(2.0249555e-09)))))
}

func hUint64(r *Run, c *call) Value {
	src := r.vkSource(c.st, c.args[0].(Ptr))
	if src == nil {
		c.pass = true
		return nil
	}
	name := r.drawName(c.st, src) + ".u"
	x := r.C.IntVar(name, 0, math.MaxInt64)
	r.addInput(c.st, name, "draw", x)
	return x
}

// ---------------------------------------------------------------- harness support

func hVkInt(r *Run, c *call) Value {
	lo, hi := r.concretize(c.st, c.term(1)), r.concretize(c.st, c.term(2))
	if lo > hi {
		panic(killPath{"assumption"})
	}
	name := c.st.uniq(c.args[0].(string))
	x := r.C.IntVar(fmt.Sprintf("%s[%d,%d]", name, lo, hi), lo, hi)
	if lo == hi {
		x = r.C.Int(lo)
	}
	c.st.inputs = append(c.st.inputs, &input{name: name, kind: "int", term: x, meta: fmt.Sprint(lo)})
	return x
}

func hVkBool(r *Run, c *call) Value {
	name := c.st.uniq(c.args[0].(string))
	x := r.C.Var(name, smt.Bool)
	c.st.inputs = append(c.st.inputs, &input{name: name, kind: "bool", term: x})
	return x
}

func hVkFloat(r *Run, c *call) Value {
	lo, ok1 := r.fval(c.args[1])
	hi, ok2 := r.fval(c.args[2])
	if !ok1 || !ok2 {
		panic(unsupported("vk.Float bounds"))
	}
	grid := -1
	if len(c.args) > 3 {
		grid = int(r.concretize(c.st, c.term(3)))
	}
	name := c.st.uniq(c.args[0].(string))
	var x *smt.Term
	if r.Cfg.Float == "fp" {
		x = r.C.FPVar(fmt.Sprintf("%s[%g,%g]", name, lo, hi), lo, hi)
	} else {
		x = r.C.RealVar(fmt.Sprintf("%s[%g,%g]", name, lo, hi), lo, hi, grid)
		if grid >= 0 {
			// x = k / 2^grid
			p := math.Pow(2, float64(grid))
			k := r.C.IntVar(fmt.Sprintf("%s[%g,%g]k", name, lo, hi), int64(math.Ceil(lo*p)), int64(math.Floor(hi*p)))
			x = r.C.RMul(r.C.I2R(k), r.C.RealF(1/p))
		}
	}
	c.st.inputs = append(c.st.inputs, &input{name: name, kind: "float", term: x, meta: fmt.Sprintf("%x", lo)})
	return x
}

func hVkAssume(r *Run, c *call) Value {
	t := c.term(0)
	if t.IsTrue() {
		return Tuple{}
	}
	if t.IsFalse() {
		panic(killPath{"assumption"})
	}
	if v, ok := c.st.lookupKnown(t); ok {
		if !v {
			panic(killPath{"assumption"})
		}
		return Tuple{}
	}
	if c.st.model != nil {
		if v := r.C.Eval(t, c.st.model, map[int]*smt.Term{}); v != nil && v.IsTrue() {
			c.st.assume(t)
			return Tuple{}
		}
	}
	res, m := r.check(c.st, t)
	if res == smt.Unsat {
		panic(killPath{"assumption"})
	}
	c.st.unsure = c.st.unsure || res == smt.Unknown
	c.st.assume(t)
	c.st.model = m
	return Tuple{}
}

func hVkAssert(r *Run, c *call) Value {
	t := c.term(0)
	msg, _ := c.args[1].(string)
	r.Obligations++
	if t.IsTrue() {
		return Tuple{}
	}
	st := c.st
	if v, ok := st.lookupKnown(t); ok && v {
		return Tuple{}
	}
	neg := r.C.Not(t)
	if r.pushHook != nil {
		if res, _ := r.checkSlice(st, neg); res == smt.Unsat {
			st.setKnown(t, true)
			return Tuple{}
		}
	}
	res, m := r.checkHard(st, neg)
	switch res {
	case smt.Unsat:
		st.setKnown(t, true)
		return Tuple{}
	case smt.Unknown:
		st.unsure = true
		r.reduced("solver unknown for: " + msg)
		st.assume(t)
		st.model = nil
		return Tuple{}
	}
	res, m2 := r.niceModel(st, neg)
	if res == smt.Unsat {
		// only possible with wrong values of exp or log
		st.setKnown(t, true)
		return Tuple{}
	}
	if m2 != nil {
		m = m2
	}
	st.assume(neg)
	st.outcome = &Outcome{Kind: "assert", Msg: msg, Loc: r.locOf(c.th.frames[len(c.th.frames)-1]), Model: m}
	return Tuple{}
}

func hVkLogic(r *Run, c *call) Value {
	a := c.args[0].(Slice)
	var ts []*smt.Term
	for i := 0; i < a.Len; i++ {
		ts = append(ts, c.st.obj(a.Obj).cells[a.Off+i].(*smt.Term))
	}
	if c.fn.Name() == "All" {
		return r.C.And(ts...)
	}
	return r.C.Or(ts...)
}

var handlers map[string]handler

func init() {
	nop := func(r *Run, c *call) Value { return Tuple{} }
	lock := func(rw bool) handler { return func(r *Run, c *call) Value { r.mutexLock(c, rw); return Tuple{} } }
	unlock := func(r *Run, c *call) Value { r.mutexUnlock(c); return Tuple{} }
	wgDelta := func(get func(c *call, r *Run) *smt.Term) handler {
		return func(r *Run, c *call) Value {
			p := c.args[0].(Ptr)
			if p.Obj == 0 {
				c.threw = true
				r.nilDeref(c.st, c.th)
				return nil
			}
			n := r.C.IAdd(r.wgAt(c.st, p), get(c, r))
			if r.decide(c.st, r.C.ILt(n, r.C.Int(0))) {
				c.threw = true
				r.throw(c.st, c.th, Iface{types.Typ[types.String], "sync: negative WaitGroup counter"}, "panic: sync: negative WaitGroup counter")
				return nil
			}
			n = r.C.Int(r.concretize(c.st, n))
			c.st.wobj(p.Obj).cells[p.Off] = n
			r.release(c.st, c.th, p, opWgWait)
			return Tuple{}
		}
	}
	handlers = map[string]handler{
		"(*sync.Mutex).Lock":      lock(false),
		"(*sync.Mutex).Unlock":    unlock,
		"(*sync.RWMutex).Lock":    lock(true),
		"(*sync.RWMutex).Unlock":  unlock,
		"(*sync.RWMutex).RLock":   func(r *Run, c *call) Value { r.rlock(c); return Tuple{} },
		"(*sync.RWMutex).RUnlock": func(r *Run, c *call) Value { r.runlock(c); return Tuple{} },
		"(*sync.WaitGroup).Add":   wgDelta(func(c *call, r *Run) *smt.Term { return c.term(1) }),
		"(*sync.WaitGroup).Done":  wgDelta(func(c *call, r *Run) *smt.Term { return r.C.Int(-1) }),
		"(*sync.WaitGroup).Wait": func(r *Run, c *call) Value {
			p := c.args[0].(Ptr)
			if !r.visible(c.st, c.th, waitInfo{kind: opWgWait, ptr: p}) {
				c.blocked = true
				return nil
			}
			r.acquire(c.st, c.th, p)
			return Tuple{}
		},

		"runtime.NumCPU": func(r *Run, c *call) Value {
			n := r.Cfg.Params["numcpu"]
			if n == 0 {
				n = runtime.NumCPU() // as in the replays
			}
			return r.C.Int(int64(n))
		},
		"runtime.GOMAXPROCS": func(r *Run, c *call) Value { return r.C.Int(2) },
		"runtime.Gosched":    nop,
		"runtime.KeepAlive":  nop,

		"time.Now": func(r *Run, c *call) Value { return r.timeVal(c.st.clock) },
		"time.Since": func(r *Run, c *call) Value {
			return r.clampDur(r.C.ISub(c.st.clock, r.nanos(c.args[0])))
		},
		"time.Until": func(r *Run, c *call) Value {
			return r.clampDur(r.C.ISub(r.nanos(c.args[0]), c.st.clock))
		},
		"time.Sleep": hSleep,

		"fmt.Errorf":                         hErrorf,
		"golang.org/x/exp/errors/fmt.Errorf": hErrorf,
		"fmt.Sprintf": func(r *Run, c *call) Value {
			s, _ := r.sprintf(c.st, c.args[0].(string), c.args[1].(Slice))
			return s
		},
		"fmt.Sprint":   hSprint,
		"fmt.Sprintln": hSprint,
		"fmt.Println":  func(r *Run, c *call) Value { return Tuple{r.C.Int(0), Iface{}} },
		"fmt.Printf":   func(r *Run, c *call) Value { return Tuple{r.C.Int(0), Iface{}} },
		"fmt.Print":    func(r *Run, c *call) Value { return Tuple{r.C.Int(0), Iface{}} },
		"log.Println":  nop,
		"log.Printf":   nop,
		"log.Print":    nop,
		"errors.Is":    hErrorsIs,

		"(*golang.org/x/exp/rand.Rand).Intn":        hIntn,
		"(*golang.org/x/exp/rand.Rand).Int63n":      hIntn,
		"(*golang.org/x/exp/rand.Rand).Int31n":      hIntn,
		"(*golang.org/x/exp/rand.Rand).Uint64n":     hIntn,
		"(*golang.org/x/exp/rand.Rand).Float64":     hFloat64,
		"(*golang.org/x/exp/rand.Rand).NormFloat64": hNormFloat64,
		"(*golang.org/x/exp/rand.Rand).ExpFloat64":  hExpFloat64,
		"(*golang.org/x/exp/rand.Rand).Uint64":      hUint64,

		"(*sync.Pool).Put": nop,
		"gonum.org/v1/gonum/mat.offset": func(r *Run, c *call) Value {
			a, b := c.args[0].(Slice), c.args[1].(Slice)
			if a.Obj == b.Obj {
				return r.C.Int(int64(b.Off - a.Off))
			}
			return r.C.Int(1 << 40) // different arrays are far apart
		},
		"encoding/binary.Size": func(r *Run, c *call) Value { return r.C.Int(8) },

		VK + ".Int":      hVkInt,
		VK + ".Bool":     hVkBool,
		VK + ".Float":    hVkFloat,
		VK + ".Grid":     hVkFloat,
		VK + ".Assume":   hVkAssume,
		VK + ".Assert":   hVkAssert,
		VK + ".All":      hVkLogic,
		VK + ".Any":      hVkLogic,
		VK + ".Symbolic": func(r *Run, c *call) Value { return r.C.T },
		VK + ".Ite": func(r *Run, c *call) Value {
			v := r.C.Ite(c.term(0), c.term(1), c.term(2))
			if v == nil {
				if r.decide(c.st, c.term(0)) {
					return c.args[1]
				}
				return c.args[2]
			}
			return v
		},
		VK + ".IteInt":   func(r *Run, c *call) Value { return r.C.Ite(c.term(0), c.term(1), c.term(2)) },
		VK + ".Concrete": func(r *Run, c *call) Value { return r.C.Int(r.concretize(c.st, c.term(0))) },
		VK + ".Cover": func(r *Run, c *call) Value {
			c.st.covers[c.args[0].(string)] = true
			if r.Cfg.Mode == "conc" {
				r.Covers[c.args[0].(string)] = true
			}
			return Tuple{}
		},
		VK + ".Yield": func(r *Run, c *call) Value {
			if r.Cfg.Mode == "conc" && !r.visible(c.st, c.th, waitInfo{kind: opYield, own: true}) {
				c.blocked = true
			}
			return Tuple{}
		},
		VK + ".Observe": func(r *Run, c *call) Value {
			v := c.args[1].(Iface)
			c.st.obs = append(c.st.obs, observation{c.args[0].(string), v.V})
			return Tuple{}
		},
		VK + ".Param": func(r *Run, c *call) Value {
			n, ok := r.Cfg.Params[c.args[0].(string)]
			if !ok {
				panic(unsupported("missing parameter " + c.args[0].(string)))
			}
			return r.C.Int(int64(n))
		},
		VK + ".Flip": func(r *Run, c *call) Value {
			c.st.flip = !c.st.flip
			return Tuple{}
		},
		VK + ".Log":     nop,
		VK + ".Reached": func(r *Run, c *call) Value { return Tuple{} },
	}
}
