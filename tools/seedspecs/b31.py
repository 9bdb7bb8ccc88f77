ID="b31-chi-source"; PROPERTY="C31"
NEEDS="Two t distributions (or MCMC runs altered by them) whose generators give the same numbers, in one process."
BREAKS="The chi-squared part of the t distribution draws from the global generator instead of the configured one: seeded runs are not reproducible."
EDITS=[("mcmc/multivt.go","distuv.ChiSquared{K: m.Nu, Src: m.RGen}","distuv.ChiSquared{K: m.Nu}")]
PKG="mcmc"
DEMO='''package mcmc_test

import (
	"testing"

	"github.com/wearelumenai/distclus/mcmc"
	"golang.org/x/exp/rand"
)

func TestDemo(t *testing.T) {
	var draw = func() []float64 {
		var d = mcmc.NewMultivT(mcmc.MultivTConf{Dim: 2, Nu: 3, RGen: rand.New(rand.NewSource(7))})
		return d.Sample([]float64{0, 0}, 1).([]float64)
	}
	for i := 0; i < 5; i++ {
		var a, b = draw(), draw()
		if a[0] != b[0] || a[1] != b[1] {
			t.Fatal("same seed, different samples", a, b)
		}
	}
}
'''
