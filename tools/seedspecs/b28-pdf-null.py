ID="b28-pdf-null"; PROPERTY="C28"
NEEDS="Two points, the second of which has a null coordinate where the first has not."
BREAKS="The density skips the null coordinates of the second point, so it is no longer symmetric."
EDITS=[("mcmc/multivt.go","""	for i := range fmu {
		f := fmu[i] - fx[i]
""","""	for i := range fmu {
		if fx[i] == 0 {
			continue
		}
		f := fmu[i] - fx[i]
""")]
PKG="mcmc"
DEMO='''package mcmc_test

import (
	"math"
	"testing"

	"github.com/wearelumenai/distclus/mcmc"
	"golang.org/x/exp/rand"
)

func TestDemo(t *testing.T) {
	var m = mcmc.NewMultivT(mcmc.MultivTConf{Dim: 2, Nu: 3, RGen: rand.New(rand.NewSource(1))})
	var a, b = []float64{3, 0}, []float64{1, 5}
	if math.Abs(m.Pdf(a, b, 4)-m.Pdf(b, a, 4)) > 1e-9 {
		t.Fatal("asymmetric density")
	}
}
'''
