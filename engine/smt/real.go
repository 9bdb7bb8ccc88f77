package smt

import (
	"fmt"
	"math"
	"math/big"
	"sort"
)

// ---------------------------------------------------------------- exact reals

func dn(f float64) float64 { return math.Nextafter(f, math.Inf(-1)) }
func up(f float64) float64 { return math.Nextafter(f, math.Inf(1)) }
func nz(f float64, d float64) float64 {
	if math.IsNaN(f) {
		return d
	}
	return f
}

func (c *Ctx) isZero(t *Term) bool {
	return t.Op == OConst && t.Sort == Real && t.Special == 0 && t.R.Sign() == 0
}
func isRat(t *Term, n, d int64) bool {
	return t.Op == OConst && t.Sort == Real && t.Special == 0 && t.R.Cmp(big.NewRat(n, d)) == 0
}

// RAdd, RMul, ... are exact operations over mathematical reals (no specials).
func (c *Ctx) RAdd(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Rat(new(big.Rat).Add(a.R, b.R))
	}
	if c.isZero(a) {
		return b
	}
	if c.isZero(b) {
		return a
	}
	if c.RNeg(a) == b {
		return c.RealF(0)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	t := &Term{Op: OAdd, Sort: Real, A: []*Term{a, b}, Lo: NoLo, Hi: NoHi, Grid: -1}
	t.RLo, t.RHi = addB(a.RLo, b.RLo, true), addB(a.RHi, b.RHi, false)
	if a.Grid >= 0 && b.Grid >= 0 {
		t.Grid = fits(max(a.Grid, b.Grid), t.RLo, t.RHi)
	}
	return c.mk(t)
}

func addB(x, y float64, lo bool) float64 {
	s := x + y
	if lo {
		s = nz(s, math.Inf(-1))
	} else {
		s = nz(s, math.Inf(1))
	}
	if s-x == y && s-y == x {
		return s
	}
	if lo {
		return dn(s)
	}
	return up(s)
}

func fits(g int, lo, hi float64) int {
	m := math.Max(math.Abs(lo), math.Abs(hi))
	if g < 0 || g > 900 || math.IsInf(m, 0) || math.IsNaN(m) {
		return -1
	}
	if math.Ldexp(m, g) <= 1<<53 {
		return g
	}
	return -1
}

func (c *Ctx) RNeg(a *Term) *Term {
	if a.IsConst() {
		return c.Rat(new(big.Rat).Neg(a.R))
	}
	if a.Op == OMul && a.Sort == Real && isRat(a.A[0], -1, 1) {
		return a.A[1]
	}
	t := &Term{Op: OMul, Sort: Real, A: []*Term{c.RealF(-1), a}, Lo: NoLo, Hi: NoHi, Grid: a.Grid}
	t.RLo, t.RHi = -a.RHi, -a.RLo
	return c.mk(t)
}

func isNeg(a *Term) bool { return a.Op == OMul && a.Sort == Real && isRat(a.A[0], -1, 1) }

func (c *Ctx) RSub(a, b *Term) *Term {
	if a == b {
		return c.RealF(0)
	}
	if a.IsConst() && b.IsConst() {
		return c.Rat(new(big.Rat).Sub(a.R, b.R))
	}
	if c.isZero(b) {
		return a
	}
	if a.ID > b.ID && !b.IsConst() {
		return c.RNeg(c.RAdd(b, c.RNeg(a)))
	}
	return c.RAdd(a, c.RNeg(b))
}

func (c *Ctx) RMul(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Rat(new(big.Rat).Mul(a.R, b.R))
	}
	if c.isZero(a) || c.isZero(b) {
		return c.RealF(0)
	}
	if isRat(a, 1, 1) {
		return b
	}
	if isRat(b, 1, 1) {
		return a
	}
	if isRat(a, -1, 1) {
		return c.RNeg(b)
	}
	if isRat(b, -1, 1) {
		return c.RNeg(a)
	}
	if isNeg(a) && isNeg(b) {
		return c.RMul(a.A[1], b.A[1])
	}
	if isNeg(a) {
		return c.RNeg(c.RMul(a.A[1], b))
	}
	if isNeg(b) {
		return c.RNeg(c.RMul(a, b.A[1]))
	}
	if b.IsConst() || (!a.IsConst() && a.ID > b.ID) {
		a, b = b, a
	}
	// products of products: left-nested, factors sorted, constants first
	if (a.Op == OMul || b.Op == OMul) && a.Sort == Real {
		fs := factors(b, factors(a, nil))
		k := big.NewRat(1, 1)
		rest := fs[:0]
		for _, f := range fs {
			if f.IsConst() {
				k.Mul(k, f.R)
			} else {
				rest = append(rest, f)
			}
		}
		sort.Slice(rest, func(i, j int) bool { return rest[i].ID < rest[j].ID })
		p := rest[0]
		for _, f := range rest[1:] {
			p = c.rmul2(p, f)
		}
		if k.Cmp(big.NewRat(1, 1)) == 0 {
			return p
		}
		if k.Cmp(big.NewRat(-1, 1)) == 0 {
			return c.RNeg(p)
		}
		if k.Sign() == 0 {
			return c.RealF(0)
		}
		return c.rmul2(c.Rat(k), p)
	}
	return c.rmul2(a, b)
}

func factors(t *Term, out []*Term) []*Term {
	if t.Op == OMul && t.Sort == Real {
		return factors(t.A[1], factors(t.A[0], out))
	}
	return append(out, t)
}

// rmul2 builds the product node itself.
func (c *Ctx) rmul2(a, b *Term) *Term {
	t := &Term{Op: OMul, Sort: Real, A: []*Term{a, b}, Lo: NoLo, Hi: NoHi, Grid: -1}
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, x := range []float64{a.RLo, a.RHi} {
		for _, y := range []float64{b.RLo, b.RHi} {
			p := x * y
			if math.IsNaN(p) {
				p = 0
			}
			lo, hi = math.Min(lo, p), math.Max(hi, p)
		}
	}
	if lo != 0 {
		lo = dn(lo)
	}
	if hi != 0 {
		hi = up(hi)
	}
	if a.RLo >= 0 && b.RLo >= 0 && lo < 0 {
		lo = 0
	}
	if a == b {
		lo = math.Max(lo, 0)
	}
	t.RLo, t.RHi = lo, hi
	if a.Grid >= 0 && b.Grid >= 0 {
		t.Grid = fits(a.Grid+b.Grid, lo, hi)
	}
	return c.mk(t)
}

// RDiv divides exactly; the divisor must be known non-zero.
func (c *Ctx) RDiv(a, b *Term) *Term {
	if b.IsConst() {
		inv := new(big.Rat).Inv(b.R)
		if a.IsConst() {
			return c.Rat(inv.Mul(a.R, inv))
		}
		return c.RMul(c.Rat(inv), a)
	}
	if c.isZero(a) {
		return a
	}
	if a == b {
		return c.RealF(1)
	}
	if isNeg(a) && isNeg(b) {
		return c.RDiv(a.A[1], b.A[1])
	}
	if isNeg(a) {
		return c.RNeg(c.RDiv(a.A[1], b))
	}
	if isNeg(b) {
		return c.RNeg(c.RDiv(a, b.A[1]))
	}
	if a.Op == ODiv && a.Sort == Real { // (x / y) / b, both divisors non-zero
		return c.RDiv(a.A[0], c.RMul(a.A[1], b))
	}
	t := &Term{Op: ODiv, Sort: Real, A: []*Term{a, b}, Lo: NoLo, Hi: NoHi, Grid: -1, RLo: math.Inf(-1), RHi: math.Inf(1)}
	if b.RLo >= 0 {
		if a.RLo >= 0 {
			t.RLo = 0
		}
		if a.RHi <= 0 {
			t.RHi = 0
		}
		if b.RLo > 0 {
			t.RHi = math.Min(t.RHi, math.Max(up(a.RHi/b.RLo), 0))
			t.RLo = math.Max(t.RLo, math.Min(dn(a.RLo/b.RLo), 0))
		}
	}
	// x / sqrt-like quotient terms stay symbolic: q * b = a
	return c.mk(t)
}

func (c *Ctx) RLt(a, b *Term) *Term {
	if a == c.NaN || b == c.NaN {
		return c.F
	}
	if a.isSpecial() || b.isSpecial() {
		fa, fb := a.RLo, b.RLo
		if !a.isSpecial() {
			fa = 0
		}
		if !b.isSpecial() {
			fb = 0
		}
		return c.Bool(fa < fb)
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.R.Cmp(b.R) < 0)
	}
	if a == b {
		return c.F
	}
	if a.RHi < b.RLo {
		return c.T
	}
	if a.RLo >= b.RHi {
		return c.F
	}
	if a.Op == OI2R && b.Op == OI2R {
		return c.ILt(a.A[0], b.A[0])
	}
	if a.Op == OI2R && b.IsConst() { // i < r  <=>  i < ceil(r)
		return c.ILt(a.A[0], c.BigInt(ceilRat(b.R)))
	}
	if b.Op == OI2R && a.IsConst() {
		return c.ILt(c.BigInt(floorRat(a.R)), b.A[0])
	}
	if b.IsConst() {
		if r := c.pushIte(a, func(x *Term) *Term { return c.RLt(x, b) }); r != nil {
			return r
		}
	}
	if a.IsConst() {
		if r := c.pushIte(b, func(x *Term) *Term { return c.RLt(a, x) }); r != nil {
			return r
		}
	}
	return c.raw(OLt, Bool, a, b)
}

func floorRat(r *big.Rat) *big.Int {
	q, m := new(big.Int).QuoRem(r.Num(), r.Denom(), new(big.Int))
	if m.Sign() < 0 {
		q.Sub(q, big.NewInt(1))
	}
	return q
}
func ceilRat(r *big.Rat) *big.Int {
	q := floorRat(r)
	if r.IsInt() {
		return q
	}
	return q.Add(q, big.NewInt(1))
}

// RLe is not Not(RLt(b,a)) only when a NaN is involved.
func (c *Ctx) RLe(a, b *Term) *Term {
	if a == c.NaN || b == c.NaN {
		return c.F
	}
	return c.Not(c.RLt(b, a))
}

func (c *Ctx) REq(a, b *Term) *Term {
	if a == c.NaN || b == c.NaN {
		return c.F
	}
	if a == b {
		return c.T
	}
	if a.isSpecial() || b.isSpecial() {
		return c.F
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.R.Cmp(b.R) == 0)
	}
	if a.RHi < b.RLo || b.RHi < a.RLo {
		return c.F
	}
	if a.Op == OI2R && b.Op == OI2R {
		return c.IEq(a.A[0], b.A[0])
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() && a.Op == OI2R {
		if !b.R.IsInt() {
			return c.F
		}
		return c.IEq(a.A[0], c.BigInt(new(big.Int).Set(b.R.Num())))
	}
	if b.IsConst() {
		if r := c.pushIte(a, func(x *Term) *Term { return c.REq(x, b) }); r != nil {
			return r
		}
	} else if a.ID > b.ID {
		a, b = b, a
	}
	return c.raw(OEq, Bool, a, b)
}

func (c *Ctx) I2R(a *Term) *Term {
	if a.IsConst() {
		return c.Rat(new(big.Rat).SetInt(a.BigVal()))
	}
	if a.Op == OIte && iteLeaves(a, 12) {
		return c.Ite(a.A[0], c.I2R(a.A[1]), c.I2R(a.A[2]))
	}
	t := &Term{Op: OI2R, Sort: Real, A: []*Term{a}, Lo: NoLo, Hi: NoHi, RLo: math.Inf(-1), RHi: math.Inf(1), Grid: -1}
	if bounded(a) {
		t.RLo, t.RHi = float64(a.Lo), float64(a.Hi)
		if a.Lo > -(1<<53) && a.Hi < 1<<53 {
			t.Grid = 0
		}
	}
	return c.mk(t)
}

// Floor of a real as an Int term.
func (c *Ctx) Floor(a *Term) *Term {
	if a.IsConst() {
		return c.BigInt(floorRat(a.R))
	}
	if a.Op == OI2R {
		return a.A[0]
	}
	if a.Op == OIte && iteLeaves(a, 12) {
		return c.Ite(a.A[0], c.Floor(a.A[1]), c.Floor(a.A[2]))
	}
	t := &Term{Op: OFlr, Sort: Int, A: []*Term{a}, Lo: NoLo, Hi: NoHi}
	if a.RLo > -1e15 {
		t.Lo = int64(math.Floor(a.RLo))
	}
	if a.RHi < 1e15 {
		t.Hi = int64(math.Floor(a.RHi))
	}
	return c.mk(t)
}

// ---------------------------------------------------------------- rounding

// Unit roundoff of float64.
var unit = big.NewRat(1, 1<<53)

func isPow2(t *Term) bool {
	if !t.IsConst() || t.Special != 0 || t.R == nil || t.R.Sign() == 0 {
		return false
	}
	f, ok := t.R.Float64()
	if !ok {
		return false
	}
	m, _ := math.Frexp(math.Abs(f))
	return m == 0.5
}

// Round turns an exact term into the float64 nearest to it: the term itself
// when it is known to be representable, else a fresh value within half an ulp
// (relative 2^-53), the same one for the same exact term.
func (c *Ctx) Round(x *Term) *Term {
	if x.IsConst() {
		f, _ := x.R.Float64()
		return c.RealF(f)
	}
	if x.Grid >= 0 {
		return x
	}
	if isNeg(x) {
		return c.RNeg(c.Round(x.A[1]))
	}
	name := fmt.Sprintf("rnd!%d", x.ID)
	if v, ok := c.vars[name]; ok {
		return v
	}
	y := c.Var(name, Real)
	lo := c.Rat(new(big.Rat).Sub(big.NewRat(1, 1), unit))
	hi := c.Rat(new(big.Rat).Add(big.NewRat(1, 1), unit))
	y.RLo, y.RHi = x.RLo, x.RHi
	if !math.IsInf(y.RLo, 0) {
		y.RLo = dn(y.RLo - math.Abs(y.RLo)*1.2e-16)
		if x.RLo >= 0 {
			y.RLo = math.Max(y.RLo, 0)
		}
	}
	if !math.IsInf(y.RHi, 0) {
		y.RHi = up(y.RHi + math.Abs(y.RHi)*1.2e-16)
		if x.RHi <= 0 {
			y.RHi = math.Min(y.RHi, 0)
		}
	}
	pos := c.And(c.raw(OLe, Bool, c.RMul(lo, x), y), c.raw(OLe, Bool, y, c.RMul(hi, x)))
	neg := c.And(c.raw(OLe, Bool, c.RMul(hi, x), y), c.raw(OLe, Bool, y, c.RMul(lo, x)))
	zero := c.RealF(0)
	switch {
	case x.RLo >= 0:
		y.Defs = append(y.Defs, pos)
	case x.RHi <= 0:
		y.Defs = append(y.Defs, neg)
	default:
		y.Defs = append(y.Defs, c.Ite(c.raw(OLe, Bool, zero, x), pos, neg))
	}
	return y
}

// SqrtExact is the non-negative root of a non-negative term.
func (c *Ctx) SqrtExact(x *Term) *Term {
	if x.Op == OMul && x.A[0] == x.A[1] { // sqrt(v*v) = |v|
		v := x.A[0]
		return c.RAbs(v)
	}
	name := fmt.Sprintf("sqrt!%d", x.ID)
	if v, ok := c.vars[name]; ok {
		return v
	}
	y := c.Var(name, Real)
	y.RLo = 0
	if !math.IsInf(x.RHi, 0) {
		y.RHi = up(up(math.Sqrt(math.Max(0, x.RHi))))
	}
	if x.RLo > 0 {
		y.RLo = dn(dn(math.Sqrt(x.RLo)))
	}
	y.Defs = append(y.Defs, c.raw(OLe, Bool, c.RealF(0), y), c.raw(OEq, Bool, c.RMul(y, y), x))
	return y
}

func (c *Ctx) RAbs(v *Term) *Term {
	if v.IsConst() {
		return c.Rat(new(big.Rat).Abs(v.R))
	}
	if v.RLo >= 0 {
		return v
	}
	if v.RHi <= 0 {
		return c.RNeg(v)
	}
	if isNeg(v) {
		v = v.A[1]
	}
	return c.Ite(c.raw(OLe, Bool, c.RealF(0), v), v, c.RNeg(v))
}

// Fn is an uninterpreted real function (exp, log, ...): one variable per
// distinct argument; the caller adds axioms through the returned flag.
func (c *Ctx) Fn(fn string, args ...*Term) (v *Term, isNew bool) {
	name := fn + "!"
	for _, a := range args {
		name += fmt.Sprintf("_%d", a.ID)
	}
	if v, ok := c.vars[name]; ok {
		return v, false
	}
	return c.Var(name, Real), true
}

// ---------------------------------------------------------------- floats

func fold2(a, b *Term) (x, y float64, ok bool) {
	x, ok1 := a.FloatVal()
	y, ok2 := b.FloatVal()
	return x, y, ok1 && ok2
}

// FBin makes an FP operation.
func (c *Ctx) FBin(op Op, a, b *Term) *Term {
	if x, y, ok := fold2(a, b); ok {
		switch op {
		case OFAdd:
			return c.FPF(x + y)
		case OFSub:
			return c.FPF(x - y)
		case OFMul:
			return c.FPF(x * y)
		case OFDiv:
			return c.FPF(x / y)
		}
	}
	if (op == OFAdd || op == OFMul) && a.ID > b.ID {
		a, b = b, a
	}
	if op == OFMul {
		if f, ok := a.FloatVal(); ok && f == 1 {
			return b
		}
		if f, ok := b.FloatVal(); ok && f == 1 {
			return a
		}
	}
	if op == OFAdd {
		// x + (+0) = x except for x = -0; keep exact: only fold on non-negative draws
	}
	return c.raw(op, FP, a, b)
}

func (c *Ctx) FUn(op Op, a *Term) *Term {
	if f, ok := a.FloatVal(); ok {
		switch op {
		case OFNeg:
			return c.FPF(-f)
		case OFAbs:
			return c.FPF(math.Abs(f))
		case OFSqrt:
			return c.FPF(math.Sqrt(f))
		}
	}
	return c.raw(op, FP, a)
}

func (c *Ctx) FCmp(op Op, a, b *Term) *Term {
	if x, y, ok := fold2(a, b); ok {
		switch op {
		case OFLt:
			return c.Bool(x < y)
		case OFLe:
			return c.Bool(x <= y)
		case OFEq:
			return c.Bool(x == y)
		}
	}
	if a.Op == OI2F && b.Op == OI2F {
		switch op {
		case OFLt:
			return c.ILt(a.A[0], b.A[0])
		case OFLe:
			return c.ILe(a.A[0], b.A[0])
		case OFEq:
			return c.IEq(a.A[0], b.A[0])
		}
	}
	if op == OFEq && a.ID > b.ID {
		a, b = b, a
	}
	if b.IsConst() {
		if r := c.pushIte(a, func(x *Term) *Term { return c.FCmp(op, x, b) }); r != nil {
			return r
		}
	}
	if a.IsConst() {
		if r := c.pushIte(b, func(x *Term) *Term { return c.FCmp(op, a, x) }); r != nil {
			return r
		}
	}
	return c.raw(op, Bool, a, b)
}

func (c *Ctx) FPred(op Op, a *Term) *Term {
	if f, ok := a.FloatVal(); ok {
		if op == OFNaN {
			return c.Bool(math.IsNaN(f))
		}
		return c.Bool(math.IsInf(f, 0))
	}
	return c.raw(op, Bool, a)
}

func (c *Ctx) I2F(a *Term) *Term {
	if a.IsConst() {
		f, _ := new(big.Float).SetInt(a.BigVal()).Float64()
		return c.FPF(f)
	}
	if a.Op == OIte && iteLeaves(a, 12) {
		return c.Ite(a.A[0], c.I2F(a.A[1]), c.I2F(a.A[2]))
	}
	return c.raw(OI2F, FP, a)
}

// FPVar declares a finite float variable in [lo,hi] (NaN excluded) or any
// float64 when lo is NaN.
func (c *Ctx) FPVar(name string, lo, hi float64) *Term {
	if v, ok := c.vars[name]; ok {
		return v
	}
	v := c.Var(name, FP)
	if !math.IsNaN(lo) {
		v.Defs = append(v.Defs, c.raw(OFLe, Bool, c.FPF(lo), v), c.raw(OFLe, Bool, v, c.FPF(hi)))
	}
	return v
}

// FPDraw is a generator draw u*2^-53 with u a 64 bit word below 2^53.
func (c *Ctx) FPDraw(name string) (f, raw *Term) {
	u := c.Var(name, BV)
	return c.raw(OBV2F, FP, u), u
}
