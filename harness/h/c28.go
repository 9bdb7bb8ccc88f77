package h

import (
	"golang.org/x/exp/rand"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/mcmc"

	"verifharness/vk"
)

func vector(name string, dim int) []float64 {
	v := make([]float64, dim)
	for i := range v {
		v[i] = vk.Float(name, -1000, 1000)
	}
	return v
}

// C28Sample: samples around two centers with the same draws.
func C28Sample() {
	dim, nu, time := vk.Param("dim"), vk.Param("nu"), vk.Param("time")
	a := mcmc.NewMultivT(mcmc.MultivTConf{Dim: dim, Nu: float64(nu), RGen: rand.New(vk.NewSource("r"))})
	b := mcmc.NewMultivT(mcmc.MultivTConf{Dim: dim, Nu: float64(nu), RGen: rand.New(vk.Twin("r"))})
	x, y := vector("x", dim), vector("y", dim)
	keep := append([]float64(nil), x...)
	var first, copied []float64
	for k := 0; k < vk.Param("times"); k++ {
		s := a.Sample(x, time).([]float64)
		t := b.Sample(y, time).([]float64)
		vk.Assert(len(s) == dim && len(t) == dim, "a sample has the dimension of its center")
		for i := range s {
			vk.Assert(near(s[i]-x[i], t[i]-y[i]), "the displacement does not depend on the center")
		}
		for i := range x {
			vk.Assert(x[i] == keep[i], "the center is not modified")
		}
		if k == 0 {
			first, copied = s, append([]float64(nil), s...)
		} else {
			for i := range first {
				vk.Assert(first[i] == copied[i], "a sample is not modified by a later one")
			}
			continue
		}
		s[0]++
		copied[0]++
		vk.Assert(x[0] == keep[0], "a sample is a fresh vector")
	}
	vk.Cover("done")
}

// C28Pdf: symmetry, translation and monotony of the density.
func C28Pdf() {
	dim, nu, time := vk.Param("dim"), vk.Param("nu"), vk.Param("time")
	m := mcmc.NewMultivT(mcmc.MultivTConf{Dim: dim, Nu: float64(nu), RGen: rand.New(vk.NewSource("r"))})
	x, y, z := vector("x", dim), vector("y", dim), vector("z", dim)
	pxy := m.Pdf(x, y, time)
	vk.Assert(near(pxy, m.Pdf(y, x, time)), "the density is symmetric")
	a, b := make([]float64, dim), make([]float64, dim)
	for i := range a {
		a[i], b[i] = x[i]+z[i], y[i]+z[i]
	}
	vk.Assert(near(pxy, m.Pdf(a, b, time)), "the density depends on the difference only")
	dy, dz := 0., 0.
	for i := range x {
		dy += (x[i] - y[i]) * (x[i] - y[i])
		dz += (x[i] - z[i]) * (x[i] - z[i])
	}
	pxz := m.Pdf(x, z, time)
	vk.Assert(vk.Any(dy < dz, pxy <= pxz+1e-6), "the density does not increase with the distance")
	vk.Cover("done")
}

// C28Dirac: the alteration that alters nothing.
func C28Dirac() {
	var d mcmc.Distrib = mcmc.NewDirac()
	time := vk.Int("time", 0, 1000)
	var e core.Elemt = &Pt{3}
	vk.Assert(d.Sample(e, time) == e && e.(*Pt).ID == 3, "the center itself")
	vk.Assert(d.Pdf(e, e, time) == 1, "density one")
	vk.Cover("done")
}
