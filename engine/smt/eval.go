package smt

import (
	"math"
	"math/big"
)

// Eval evaluates t under m; nil when something in it has no known value.
func (c *Ctx) Eval(t *Term, m Model, memo map[int]*Term) *Term {
	switch t.Op {
	case OConst:
		return t
	case OVar:
		return m[t]
	}
	if r, ok := memo[t.ID]; ok {
		return r
	}
	r := c.eval(t, m, memo)
	if r != nil && !r.IsConst() {
		r = nil
	}
	memo[t.ID] = r
	return r
}

func (c *Ctx) eval(t *Term, m Model, memo map[int]*Term) *Term {
	switch t.Op {
	case OAnd, OOr:
		unknown := false
		for _, a := range t.A {
			v := c.Eval(a, m, memo)
			if v == nil {
				unknown = true
				continue
			}
			if t.Op == OAnd && v.IsFalse() {
				return c.F
			}
			if t.Op == OOr && v.IsTrue() {
				return c.T
			}
		}
		if unknown {
			return nil
		}
		return c.Bool(t.Op == OAnd)
	case OIte:
		g := c.Eval(t.A[0], m, memo)
		if g == nil {
			return nil
		}
		if g.IsTrue() {
			return c.Eval(t.A[1], m, memo)
		}
		return c.Eval(t.A[2], m, memo)
	}
	var x [2]*Term
	for i, a := range t.A {
		x[i] = c.Eval(a, m, memo)
		if x[i] == nil {
			return nil
		}
	}
	a, b := x[0], x[1]
	switch t.Op {
	case ONot:
		return c.Not(a)
	case OEq:
		if a.Sort == Bool {
			return c.Bool(a == b)
		}
		if a.Sort == Int {
			return c.IEq(a, b)
		}
		return c.REq(a, b)
	case OLt:
		if a.Sort == Int {
			return c.ILt(a, b)
		}
		return c.RLt(a, b)
	case OLe:
		if a.Sort == Int {
			return c.ILe(a, b)
		}
		return c.RLe(a, b)
	case OAdd:
		if a.Sort == Int {
			return c.IAdd(a, b)
		}
		return c.RAdd(a, b)
	case OMul:
		if a.Sort == Int {
			return c.IMul(a, b)
		}
		return c.RMul(a, b)
	case ODiv:
		if a.Sort == Int {
			if b.BigVal().Sign() == 0 {
				return nil
			}
			return c.IDiv(a, b)
		}
		if c.isZero(b) {
			return nil
		}
		return c.RDiv(a, b)
	case OMod:
		if b.BigVal().Sign() == 0 {
			return nil
		}
		if t.K == 1 {
			return c.BigInt(new(big.Int).Mod(a.BigVal(), b.BigVal()))
		}
		return c.IRem(a, b)
	case OI2R:
		return c.I2R(a)
	case OFlr:
		return c.Floor(a)
	case OFAdd, OFSub, OFMul, OFDiv:
		return c.FBin(t.Op, a, b)
	case OFNeg, OFAbs, OFSqrt:
		return c.FUn(t.Op, a)
	case OFLt, OFLe, OFEq:
		return c.FCmp(t.Op, a, b)
	case OFNaN, OFInf:
		return c.FPred(t.Op, a)
	case OI2F:
		return c.I2F(a)
	case OFRnd:
		f, _ := a.FloatVal()
		switch t.K {
		case 0:
			return c.FPF(math.RoundToEven(f))
		case 1:
			return c.FPF(math.Floor(f))
		case 2:
			return c.FPF(math.Ceil(f))
		case 3:
			return c.FPF(math.Trunc(f))
		default:
			return c.FPF(math.Round(f))
		}
	case OBV2F:
		f, _ := new(big.Float).SetInt(a.BigVal()).Float64()
		return c.FPF(math.Ldexp(f, -53))
	}
	return nil
}

// Vars collects the variables of t (through attached constraints too).
func Vars(ts []*Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	var w func(*Term)
	w = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if t.Op == OVar {
			out = append(out, t)
			for _, d := range t.Defs {
				w(d)
			}
			return
		}
		for _, a := range t.A {
			w(a)
		}
	}
	for _, t := range ts {
		w(t)
	}
	return out
}
