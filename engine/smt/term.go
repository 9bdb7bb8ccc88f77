// Package smt holds the term language of the symbolic executor: hash-consed
// terms over Bool, Int, Real and Float64 with eager simplification and
// interval information, plus a driver for an SMT-LIB2 solver process.
package smt

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
)

type Sort uint8

const (
	Bool Sort = iota
	Int
	Real
	FP
	BV // 64 bit vector: only raw generator draws in fp mode
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq // structural equality on Bool/Int/Real
	OLt
	OLe
	OAdd
	OMul
	ODiv  // Real division, or Int: Go truncated division
	OMod  // Int: Go remainder
	OI2R  // Int -> Real
	OFlr  // Real -> Int floor
	OFAdd // FP operations, round to nearest even
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFRnd // floor/ceil/trunc/round: K selects the rounding mode
	OFLt
	OFLe
	OFEq
	OFNaN
	OFInf
	OI2F  // Int -> FP
	OBV2F // BV -> FP, times 2^-53
	OF2R  // FP -> Real
)

// Term is an immutable, hash-consed node.
type Term struct {
	ID   int
	Op   Op
	Sort Sort
	A    []*Term
	K    int64    // Int constants (fitting), Bool constants, FP constants (bits)
	R    *big.Rat // Real constants, Int constants that do not fit int64
	Name string   // variables
	// Int interval
	Lo, Hi int64 // MinInt64 / MaxInt64 stand for unbounded
	// Real interval and exactness
	RLo, RHi float64
	Grid     int // value is an integral multiple of 2^-Grid and representable (-1: no)
	Defs     []*Term
	Size     int
	Special  int // Real constants: +1 / -1 infinite, 2 NaN
}

const NoLo, NoHi = math.MinInt64, math.MaxInt64

// Ctx is a term pool.
type Ctx struct {
	tab   map[string]*Term
	small [2048]*Term
	n     int
	T, F  *Term
	vars  map[string]*Term
	fresh int
	Inf   *Term
	NInf  *Term
	NaN   *Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, vars: map[string]*Term{}}
	c.F = c.mk(&Term{Op: OConst, Sort: Bool, K: 0})
	c.T = c.mk(&Term{Op: OConst, Sort: Bool, K: 1})
	for i := range c.small {
		c.small[i] = c.mkInt(int64(i) - 16)
	}
	sp := func(k int, f float64) *Term {
		return c.mk(&Term{Op: OConst, Sort: Real, Special: k, R: new(big.Rat), RLo: f, RHi: f, Grid: -1})
	}
	c.Inf = sp(1, math.Inf(1))
	c.NInf = sp(-1, math.Inf(-1))
	c.NaN = sp(2, 0)
	return c
}

func (c *Ctx) NumTerms() int { return c.n }

func (c *Ctx) mk(t *Term) *Term {
	var b strings.Builder
	b.WriteByte(byte(t.Op) + 'A')
	b.WriteByte(byte(t.Sort) + 'a')
	if t.Op == OConst {
		if t.R != nil {
			fmt.Fprintf(&b, "%s/%d", t.R.String(), t.Special)
		} else {
			fmt.Fprintf(&b, "%d", t.K)
		}
	} else if t.Op == OVar {
		b.WriteString(t.Name)
	} else {
		if t.K != 0 {
			fmt.Fprintf(&b, "k%d", t.K)
		}
		for _, a := range t.A {
			fmt.Fprintf(&b, ",%x", a.ID)
		}
	}
	k := b.String()
	if u, ok := c.tab[k]; ok {
		return u
	}
	t.ID = c.n
	c.n++
	t.Size = 1
	for _, a := range t.A {
		t.Size += a.Size
		if t.Size > 1<<40 {
			t.Size = 1 << 40
		}
	}
	c.tab[k] = t
	return t
}

// ---------------------------------------------------------------- constants

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

func (c *Ctx) mkInt(k int64) *Term {
	return c.mk(&Term{Op: OConst, Sort: Int, K: k, Lo: k, Hi: k})
}

func (c *Ctx) Int(k int64) *Term {
	if k >= -16 && k < 2032 {
		return c.small[k+16]
	}
	return c.mkInt(k)
}

func (c *Ctx) BigInt(b *big.Int) *Term {
	if b.IsInt64() {
		return c.Int(b.Int64())
	}
	t := &Term{Op: OConst, Sort: Int, R: new(big.Rat).SetInt(b)}
	if b.Sign() > 0 {
		t.Lo, t.Hi = math.MaxInt64-1, NoHi
	} else {
		t.Lo, t.Hi = NoLo, math.MinInt64+1
	}
	return c.mk(t)
}

// BigVal returns the value of an Int constant.
func (t *Term) BigVal() *big.Int {
	if t.R != nil {
		return new(big.Int).Set(t.R.Num())
	}
	return big.NewInt(t.K)
}

// RealF makes the Real constant of a float64.
func (c *Ctx) RealF(f float64) *Term {
	switch {
	case math.IsNaN(f):
		return c.NaN
	case math.IsInf(f, 1):
		return c.Inf
	case math.IsInf(f, -1):
		return c.NInf
	}
	r := new(big.Rat)
	r.SetFloat64(f)
	return c.Rat(r)
}

func (c *Ctx) Rat(r *big.Rat) *Term {
	f, exact := r.Float64()
	t := &Term{Op: OConst, Sort: Real, R: r, RLo: f, RHi: f, Grid: -1}
	if exact {
		d := r.Denom()
		if d.BitLen() < 1000 {
			t.Grid = d.BitLen() - 1
		}
	} else {
		t.RLo = math.Nextafter(f, math.Inf(-1))
		t.RHi = math.Nextafter(f, math.Inf(1))
	}
	return c.mk(t)
}

func (c *Ctx) FPF(f float64) *Term {
	if math.IsNaN(f) {
		f = math.NaN()
	}
	return c.mk(&Term{Op: OConst, Sort: FP, K: int64(math.Float64bits(f))})
}

// FloatVal returns the float64 of a Real or FP constant.
func (t *Term) FloatVal() (float64, bool) {
	if t.Op != OConst {
		return 0, false
	}
	if t.Sort == FP {
		return math.Float64frombits(uint64(t.K)), true
	}
	if t.Sort == Real {
		switch t.Special {
		case 1:
			return math.Inf(1), true
		case -1:
			return math.Inf(-1), true
		case 2:
			return math.NaN(), true
		}
		f, exact := t.R.Float64()
		return f, exact
	}
	return 0, false
}

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) IsTrue() bool  { return t.Op == OConst && t.Sort == Bool && t.K == 1 }
func (t *Term) IsFalse() bool { return t.Op == OConst && t.Sort == Bool && t.K == 0 }
func (t *Term) isSpecial() bool {
	return t.Op == OConst && t.Special != 0
}

// ---------------------------------------------------------------- variables

// Var declares (or returns) a variable. defs are constraints asserted
// wherever the variable is used.
func (c *Ctx) Var(name string, s Sort) *Term {
	if v, ok := c.vars[name]; ok {
		if v.Sort != s {
			panic("variable " + name + " redeclared with another sort")
		}
		return v
	}
	v := c.mk(&Term{Op: OVar, Sort: s, Name: name, Lo: NoLo, Hi: NoHi,
		RLo: math.Inf(-1), RHi: math.Inf(1), Grid: -1})
	c.vars[name] = v
	return v
}

func (c *Ctx) HasVar(name string) bool { _, ok := c.vars[name]; return ok }

func (c *Ctx) IntVar(name string, lo, hi int64) *Term {
	if v, ok := c.vars[name]; ok {
		return v
	}
	v := c.Var(name, Int)
	if lo != NoLo {
		v.Defs = append(v.Defs, c.raw(OLe, Bool, c.Int(lo), v))
	}
	if hi != NoHi {
		v.Defs = append(v.Defs, c.raw(OLe, Bool, v, c.Int(hi)))
	}
	v.Lo, v.Hi = lo, hi
	return v
}

// RealVar declares a bounded real; grid >= 0 says that concrete inputs are
// multiples of 2^-grid (the solver may pick any real: over-approximation).
func (c *Ctx) RealVar(name string, lo, hi float64, grid int) *Term {
	if v, ok := c.vars[name]; ok {
		return v
	}
	v := c.Var(name, Real)
	v.Defs = append(v.Defs, c.raw(OLe, Bool, c.RealF(lo), v), c.raw(OLe, Bool, v, c.RealF(hi)))
	v.RLo, v.RHi, v.Grid = lo, hi, grid
	return v
}

func (c *Ctx) Fresh(prefix string, s Sort) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", prefix, c.fresh), s)
}

func (c *Ctx) raw(op Op, s Sort, a ...*Term) *Term {
	return c.mk(&Term{Op: op, Sort: s, A: a, Lo: NoLo, Hi: NoHi, RLo: math.Inf(-1), RHi: math.Inf(1), Grid: -1})
}

// ---------------------------------------------------------------- booleans

func (c *Ctx) Not(a *Term) *Term {
	switch a.Op {
	case OConst:
		return c.Bool(a.K == 0)
	case ONot:
		return a.A[0]
	case OLt:
		return c.raw(OLe, Bool, a.A[1], a.A[0])
	case OLe:
		return c.raw(OLt, Bool, a.A[1], a.A[0])
	}
	return c.raw(ONot, Bool, a)
}

func (c *Ctx) nary(op Op, xs []*Term) *Term {
	unit, zero := c.T, c.F
	if op == OOr {
		unit, zero = c.F, c.T
	}
	var out []*Term
	seen := map[int]bool{}
	for _, x := range xs {
		if x == unit || seen[x.ID] {
			continue
		}
		if x == zero {
			return zero
		}
		if x.Op == op {
			for _, y := range x.A {
				if !seen[y.ID] {
					seen[y.ID] = true
					out = append(out, y)
				}
			}
			seen[x.ID] = true
			continue
		}
		seen[x.ID] = true
		out = append(out, x)
	}
	for _, x := range out {
		if x.Op == ONot && seen[x.A[0].ID] {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	// absorption: in a disjunction drop conjunctions containing another member
	if op == OOr && len(out) <= 24 {
		var keep []*Term
		for _, x := range out {
			drop := false
			if x.Op == OAnd {
				for _, y := range x.A {
					if seen[y.ID] {
						drop = true
						break
					}
				}
			}
			if !drop {
				keep = append(keep, x)
			}
		}
		out = keep
	}
	if op == OAnd && len(out) <= 24 {
		var keep []*Term
		for _, x := range out {
			drop := false
			if x.Op == OOr {
				for _, y := range x.A {
					if seen[y.ID] {
						drop = true
						break
					}
				}
			}
			if !drop {
				keep = append(keep, x)
			}
		}
		out = keep
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return c.raw(op, Bool, out...)
}

func (c *Ctx) And(xs ...*Term) *Term    { return c.nary(OAnd, xs) }
func (c *Ctx) Or(xs ...*Term) *Term     { return c.nary(OOr, xs) }
func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(g, a, b *Term) *Term {
	switch {
	case g.IsTrue():
		return a
	case g.IsFalse():
		return b
	case a == b:
		return a
	}
	if g.Op == ONot {
		return c.Ite(g.A[0], b, a)
	}
	if a.Sort == Bool {
		if a.IsTrue() {
			return c.Or(g, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(g), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.IsFalse() {
			return c.And(g, a)
		}
	}
	if b.Op == OIte && b.A[1] == a {
		return c.Ite(c.Or(g, b.A[0]), a, b.A[2])
	}
	if a.isSpecial() || b.isSpecial() {
		return nil // caller must fork
	}
	t := &Term{Op: OIte, Sort: a.Sort, A: []*Term{g, a, b}, Grid: -1}
	switch a.Sort {
	case Int:
		t.Lo, t.Hi = min(a.Lo, b.Lo), max(a.Hi, b.Hi)
	case Real:
		t.RLo, t.RHi = math.Min(a.RLo, b.RLo), math.Max(a.RHi, b.RHi)
		if a.Grid >= 0 && b.Grid >= 0 {
			t.Grid = max(a.Grid, b.Grid)
		}
	}
	return c.mk(t)
}

// ---------------------------------------------------------------- integers

func satAdd(a, b int64, lo bool) int64 {
	if a == NoLo || b == NoLo && lo {
		return NoLo
	}
	if a == NoHi || b == NoHi && !lo {
		return NoHi
	}
	s := a + b
	if a > 0 && b > 0 && s < 0 {
		if lo {
			return NoLo
		}
		return NoHi
	}
	if a < 0 && b < 0 && s >= 0 {
		if lo {
			return NoLo
		}
		return NoHi
	}
	return s
}

func bounded(t *Term) bool { return t.Lo > NoLo && t.Hi < NoHi }

// IAdd adds mathematically.
func (c *Ctx) IAdd(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.BigInt(new(big.Int).Add(a.BigVal(), b.BigVal()))
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() && b.R == nil && b.K == 0 {
		return a
	}
	// (x + k1) + k2
	if b.IsConst() && a.Op == OAdd && a.A[1].IsConst() {
		return c.IAdd(a.A[0], c.IAdd(a.A[1], b))
	}
	// push constants into ite with constant branches
	if b.IsConst() && a.Op == OIte && (a.A[1].IsConst() || a.A[2].IsConst()) {
		return c.Ite(a.A[0], c.IAdd(a.A[1], b), c.IAdd(a.A[2], b))
	}
	if !b.IsConst() && a.ID > b.ID {
		a, b = b, a
	}
	t := &Term{Op: OAdd, Sort: Int, A: []*Term{a, b}}
	t.Lo = satAdd(a.Lo, b.Lo, true)
	t.Hi = satAdd(a.Hi, b.Hi, false)
	return c.mk(t)
}

func (c *Ctx) INeg(a *Term) *Term { return c.IMul(a, c.Int(-1)) }
func (c *Ctx) ISub(a, b *Term) *Term {
	if a == b {
		return c.Int(0)
	}
	return c.IAdd(a, c.INeg(b))
}

func mulSat(a, b int64) *big.Int { return new(big.Int).Mul(big.NewInt(a), big.NewInt(b)) }

func (c *Ctx) IMul(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.BigInt(new(big.Int).Mul(a.BigVal(), b.BigVal()))
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() && b.R == nil {
		switch b.K {
		case 0:
			return b
		case 1:
			return a
		}
		if a.Op == OMul && a.A[1].IsConst() {
			return c.IMul(a.A[0], c.IMul(a.A[1], b))
		}
		if a.Op == OIte && (a.A[1].IsConst() || a.A[2].IsConst()) {
			return c.Ite(a.A[0], c.IMul(a.A[1], b), c.IMul(a.A[2], b))
		}
	} else if a.ID > b.ID {
		a, b = b, a
	}
	t := &Term{Op: OMul, Sort: Int, A: []*Term{a, b}, Lo: NoLo, Hi: NoHi}
	if bounded(a) && bounded(b) {
		var lo, hi *big.Int
		for _, p := range []*big.Int{mulSat(a.Lo, b.Lo), mulSat(a.Lo, b.Hi), mulSat(a.Hi, b.Lo), mulSat(a.Hi, b.Hi)} {
			if lo == nil || p.Cmp(lo) < 0 {
				lo = p
			}
			if hi == nil || p.Cmp(hi) > 0 {
				hi = p
			}
		}
		if lo.IsInt64() {
			t.Lo = lo.Int64()
		}
		if hi.IsInt64() {
			t.Hi = hi.Int64()
		}
	}
	return c.mk(t)
}

// IDiv is Go's truncated division; the divisor must be known non-zero.
func (c *Ctx) IDiv(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.BigInt(new(big.Int).Quo(a.BigVal(), b.BigVal()))
	}
	if b.IsConst() && b.R == nil && b.K == 1 {
		return a
	}
	t := &Term{Op: ODiv, Sort: Int, A: []*Term{a, b}, Lo: NoLo, Hi: NoHi}
	if bounded(a) {
		m := max(a.Hi, -a.Lo)
		t.Lo, t.Hi = -m, m
		if a.Lo >= 0 && b.Lo >= 0 {
			t.Lo = 0
		}
		if b.IsConst() && b.R == nil && b.K > 0 {
			t.Lo, t.Hi = a.Lo/b.K, a.Hi/b.K
		}
	}
	return c.mk(t)
}

// IRem is Go's remainder; the divisor must be known non-zero.
func (c *Ctx) IRem(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.BigInt(new(big.Int).Rem(a.BigVal(), b.BigVal()))
	}
	if b.IsConst() && b.R == nil && b.K > 0 && a.Lo >= 0 && a.Hi < b.K {
		return a
	}
	t := &Term{Op: OMod, Sort: Int, A: []*Term{a, b}, Lo: NoLo, Hi: NoHi}
	if bounded(b) {
		m := max(b.Hi, -b.Lo) - 1
		t.Lo, t.Hi = -m, m
		if a.Lo >= 0 {
			t.Lo = 0
		}
		if a.Hi <= 0 {
			t.Hi = 0
		}
	}
	return c.mk(t)
}

// Wrap reduces a mathematical integer to the machine type [lo,hi].
func (c *Ctx) Wrap(t *Term, bits int, signed bool) *Term {
	var lo, hi *big.Int
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits-1)), one)
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, uint(bits-1)))
	} else {
		lo = new(big.Int)
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
	}
	if t.IsConst() {
		v := t.BigVal()
		if v.Cmp(lo) >= 0 && v.Cmp(hi) <= 0 {
			return t
		}
		m := new(big.Int).Lsh(one, uint(bits))
		v.Sub(v, lo)
		v.Mod(v, m)
		v.Add(v, lo)
		return c.BigInt(v)
	}
	inLo := t.Lo > NoLo && big.NewInt(t.Lo).Cmp(lo) >= 0
	inHi := t.Hi < NoHi && big.NewInt(t.Hi).Cmp(hi) <= 0
	if inLo && inHi {
		return t
	}
	// ((t - lo) mod 2^bits) + lo, with a non-negative mod: K=1 marks euclidean
	m := new(big.Int).Lsh(one, uint(bits))
	d := c.IAdd(t, c.BigInt(new(big.Int).Neg(lo)))
	e := c.mk(&Term{Op: OMod, Sort: Int, K: 1, A: []*Term{d, c.BigInt(m)}, Lo: 0, Hi: NoHi})
	r := c.IAdd(e, c.BigInt(lo))
	if r.Op == OAdd && bits <= 64 && signed {
		r.Lo, r.Hi = NoLo, NoHi
		if bits < 64 {
			r.Lo, r.Hi = lo.Int64(), hi.Int64()
		}
	}
	return r
}

// pushCmp rewrites cmp(ite(g,a,b), k) to boolean structure when a leaf is constant.
func (c *Ctx) pushIte(a *Term, f func(*Term) *Term) *Term {
	if a.Op == OIte && (a.A[1].IsConst() || a.A[2].IsConst() || a.A[1].Op == OIte || a.A[2].Op == OIte) && iteLeaves(a, 12) {
		return c.Ite(a.A[0], c.pushLeaf(a.A[1], f), c.pushLeaf(a.A[2], f))
	}
	return nil
}

func (c *Ctx) pushLeaf(a *Term, f func(*Term) *Term) *Term {
	if a.Op == OIte {
		return c.Ite(a.A[0], c.pushLeaf(a.A[1], f), c.pushLeaf(a.A[2], f))
	}
	return f(a)
}

func iteLeaves(a *Term, budget int) bool {
	n := 0
	var w func(*Term) bool
	w = func(t *Term) bool {
		if t.Op == OIte {
			return w(t.A[1]) && w(t.A[2])
		}
		n++
		return n <= budget
	}
	return w(a)
}

func (c *Ctx) ILt(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.BigVal().Cmp(b.BigVal()) < 0)
	}
	if a == b {
		return c.F
	}
	if a.Hi < NoHi && b.Lo > NoLo && a.Hi < b.Lo {
		return c.T
	}
	if a.Lo > NoLo && b.Hi < NoHi && a.Lo >= b.Hi {
		return c.F
	}
	if b.IsConst() {
		if r := c.pushIte(a, func(x *Term) *Term { return c.ILt(x, b) }); r != nil {
			return r
		}
	}
	if a.IsConst() {
		if r := c.pushIte(b, func(x *Term) *Term { return c.ILt(a, x) }); r != nil {
			return r
		}
	}
	if b.IsConst() && a.Op == OAdd && a.A[1].IsConst() {
		return c.ILt(a.A[0], c.ISub(b, a.A[1]))
	}
	if a.IsConst() && b.Op == OAdd && b.A[1].IsConst() {
		return c.ILt(c.ISub(a, b.A[1]), b.A[0])
	}
	return c.raw(OLt, Bool, a, b)
}
func (c *Ctx) ILe(a, b *Term) *Term { return c.Not(c.ILt(b, a)) }

func (c *Ctx) IEq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.BigVal().Cmp(b.BigVal()) == 0)
	}
	if a.Hi < NoHi && b.Lo > NoLo && a.Hi < b.Lo || b.Hi < NoHi && a.Lo > NoLo && b.Hi < a.Lo {
		return c.F
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if r := c.pushIte(a, func(x *Term) *Term { return c.IEq(x, b) }); r != nil {
			return r
		}
		if a.Op == OAdd && a.A[1].IsConst() {
			return c.IEq(a.A[0], c.ISub(b, a.A[1]))
		}
	} else if a.ID > b.ID {
		a, b = b, a
	}
	return c.raw(OEq, Bool, a, b)
}

// BEq is boolean equality.
func (c *Ctx) BEq(a, b *Term) *Term {
	switch {
	case a == b:
		return c.T
	case a.IsTrue():
		return b
	case b.IsTrue():
		return a
	case a.IsFalse():
		return c.Not(b)
	case b.IsFalse():
		return c.Not(a)
	}
	return c.Ite(a, b, c.Not(b))
}
