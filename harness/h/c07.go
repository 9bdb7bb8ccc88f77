package h

import (
	"math"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/euclid"

	"verifharness/vk"
)

const big = 1000

func vec(name string, dim int, m float64) []float64 {
	v := make([]float64, dim)
	for i := range v {
		v[i] = vk.Float(name, -m, m)
	}
	return v
}

func same(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vk.All(ok, a[i] == b[i])
	}
	return ok
}

func cp(a []float64) []float64 { return append([]float64(nil), a...) }

// C07Dist: distance between two arbitrary vectors (exact reals).
func C07Dist() {
	dim := vk.Param("dim")
	x, y := vec("x", dim, big), vec("y", dim, big)
	x0, y0 := cp(x), cp(y)
	sp := euclid.NewSpace()
	d := sp.Dist(x, y)
	e := sp.Dist(y, x)
	sum := 0.
	for i := range x {
		sum += (x[i] - y[i]) * (x[i] - y[i])
	}
	vk.Assert(d >= 0, "never negative")
	vk.Assert(vk.All(d*d-sum <= 1e-7*(1+sum), sum-d*d <= 1e-7*(1+sum)), "root of the summed squared differences")
	vk.Assert(near(d, e), "same in both directions")
	vk.Assert(sp.Dist(x, x) == 0, "zero against itself")
	vk.Assert(vk.All(same(x, x0), same(y, y0)), "vectors are not modified")
	if d == 0 {
		vk.Assert(same(x, y), "zero only between equal vectors")
		vk.Cover("equal")
	} else {
		vk.Cover("different")
	}
	vk.Assert(sp.PointDist(x, y) == d, "the point distance is the distance")
	vk.Observe("d", d)
}

// C07Exact: the same facts hold exactly in floating point.
func C07Exact() {
	dim := vk.Param("dim")
	x, y := vec("x", dim, big), vec("y", dim, big)
	sp := euclid.NewSpace()
	d := sp.Dist(x, y)
	vk.Assert(d >= 0, "never negative, never NaN")
	vk.Assert(sp.Dist(x, x) == 0, "zero against itself")
	if vk.Param("sym") == 1 {
		vk.Assert(sp.Dist(y, x) == d, "same in both directions")
	}
	vk.Cover("done")
}

// C07Combine: the weighted mean (exact reals).
func C07Combine() {
	dim := vk.Param("dim")
	x, y := vec("x", dim, big), vec("y", dim, big)
	x0, y0 := cp(x), cp(y)
	w1, w2 := vk.Int("w1", 1, 1000000), vk.Int("w2", 1, 1000000)
	if vk.Param("shift") > 0 {
		// as heavy as an int can tell
		w1, w2 = w1+1<<uint(vk.Param("shift")), w2+1<<uint(vk.Param("shift"))
	}
	var sp core.Space = euclid.NewSpace()
	if vk.Param("cosinus") == 1 {
		sp = cosinus.NewSpace()
	}
	c := sp.Combine(x, w1, y, w2).([]float64)
	e := sp.Combine(y, w2, x, w1).([]float64)
	vk.Assert(len(c) == dim && len(e) == dim, "dimension is kept")
	for i := range c {
		t := float64(w1)*x0[i] + float64(w2)*y0[i]
		s := float64(w1) + float64(w2)
		vk.Assert(nearRel(c[i]*s, t, s*big), "weighted mean")
		vk.Assert(nearRel(e[i]*s, t, s*big), "weighted mean whatever the order")
		vk.Assert(vk.All(c[i] >= fmin(x0[i], y0[i])-1e-7, c[i] <= fmax(x0[i], y0[i])+1e-7), "between the combined values")
		vk.Observe("c", c[i])
	}
	vk.Assert(vk.All(same(x, x0), same(y, y0)), "vectors are not modified")
	for i := range c {
		c[i] = 7
	}
	vk.Assert(vk.All(same(x, x0), same(y, y0)), "the combination is a fresh vector")
	vk.Cover("done")
}

// C07Copy: copies are equal and independent.
func C07Copy() {
	dim := vk.Param("dim")
	x := vec("x", dim, big)
	x0 := cp(x)
	var sp core.Space = euclid.NewSpace()
	if vk.Param("cosinus") == 1 {
		sp = cosinus.NewSpace()
	}
	c := sp.Copy(x).([]float64)
	vk.Assert(same(c, x0), "a copy is equal")
	for i := range c {
		c[i] = c[i] + 1
	}
	vk.Assert(same(x, x0), "writing to the copy leaves the original alone")
	c = sp.Copy(x).([]float64)
	for i := range x {
		x[i] = x[i] + 1
	}
	vk.Assert(same(c, x0), "writing to the original leaves the copy alone")
	vk.Assert(sp.Dim([]core.Elemt{x}) == dim && sp.Dim(nil) == 0, "dimension of the data")
	vk.Cover("done")
}

// nonZero assumes a vector of length at least 1/16.
func nonZero(v []float64) {
	s := 0.
	for i := range v {
		s += v[i] * v[i]
	}
	vk.Assume(s >= 1./256)
}

// C08Dist: cosine distance of arbitrary non-zero vectors.
func C08Dist() {
	dim := vk.Param("dim")
	x, y := vec("x", dim, big), vec("y", dim, big)
	nonZero(x)
	nonZero(y)
	x0, y0 := cp(x), cp(y)
	sp := cosinus.NewSpace()
	d := sp.Dist(x, y)
	vk.Observe("d", d)
	vk.Assert(d >= 0, "never negative")
	vk.Assert(d <= 2, "at most two")
	vk.Assert(vk.All(same(x, x0), same(y, y0)), "vectors are not modified")
	vk.Cover("done")
}

// C08Formula: one minus the cosine; symmetric.
func C08Formula() {
	dim := vk.Param("dim")
	x, y := vec("x", dim, big), vec("y", dim, big)
	nonZero(x)
	nonZero(y)
	sp := cosinus.NewSpace()
	d := sp.Dist(x, y)
	xx, yy, xy := 0., 0., 0.
	for i := range x {
		xx += x[i] * x[i]
		yy += y[i] * y[i]
		xy += x[i] * y[i]
	}
	want := fmax(0, fmin(2, 1-xy/(math.Sqrt(xx)*math.Sqrt(yy))))
	vk.Assert(near(d, want), "one minus the cosine")
	vk.Assert(near(sp.Dist(y, x), d), "same in both directions")
	vk.Observe("d", d)
	vk.Cover("done")
}

// C08Cases: against itself, opposite, orthogonal, rescaled.
func C08Cases() {
	dim := vk.Param("dim")
	x := vec("x", dim, big)
	nonZero(x)
	sp := cosinus.NewSpace()
	s := float64(vk.Param("num")) / 8
	if vk.Param("num") == 0 {
		s = vk.Float("s", 1./64, 64)
	}
	y := make([]float64, dim)
	switch vk.Param("case") {
	case 0:
		for i := range y {
			y[i] = s * x[i]
		}
		vk.Assert(near(sp.Dist(x, y), 0), "zero against a positive multiple of itself")
		vk.Assert(near(sp.Dist(x, x), 0), "zero against itself")
	case 1:
		for i := range y {
			y[i] = -s * x[i]
		}
		vk.Assert(near(sp.Dist(x, y), 2), "two against the opposite")
	case 2:
		y[0], y[1] = -s*x[1], s*x[0]
		for i := 2; i < dim; i++ {
			x[i] = 0
		}
		vk.Assume(x[0]*x[0]+x[1]*x[1] >= 1./256)
		vk.Assert(near(sp.Dist(x, y), 1), "one when orthogonal")
	case 3:
		z := vec("z", dim, big)
		nonZero(z)
		for i := range y {
			y[i] = s * x[i]
		}
		vk.Assert(near(sp.Dist(y, z), sp.Dist(x, z)), "unchanged when the first vector is rescaled")
		vk.Assert(near(sp.Dist(z, y), sp.Dist(z, x)), "unchanged when the second vector is rescaled")
	}
	vk.Cover("done")
}

// C08Grid: exact floating point on a grid of vectors.
func C08Grid() {
	m := vk.Param("m")
	v := func(n string) []float64 {
		a := vk.Concrete(vk.Int(n, -m, m))
		b := vk.Concrete(vk.Int(n, 0, m))
		vk.Assume(a != 0 || b != 0)
		return []float64{float64(a) / 10, float64(b) / 10}
	}
	x, y := v("x"), v("y")
	sp := cosinus.NewSpace()
	d := sp.Dist(x, y)
	vk.Assert(d >= 0, "never negative")
	vk.Assert(d <= 2, "at most two")
	vk.Assert(sp.Dist(x, x) >= 0 && sp.Dist(x, x) < 1e-9, "zero against itself")
	vk.Cover("done")
}
