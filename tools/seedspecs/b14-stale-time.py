ID="b14-stale-time"; PROPERTY="C14"
NEEDS="Data arriving between two MCMC iterations, so that the amount of data differs from the previous iteration."
BREAKS="The acceptance rule scales the loss difference with the amount of data of the previous iteration, not with the current one."
EDITS=[("mcmc/impl.go","""	var lambda = conf.Amp * math.Sqrt(float64(impl.dim+3)/float64(time))
""","""	var lambda = conf.Amp * math.Sqrt(float64(impl.dim+3)/float64(impl.time))
""")]
PKG="mcmc"
DEMO='''package mcmc_test

import (
	"math"
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
)

func TestDemo(t *testing.T) {
	var conf = mcmc.Conf{InitK: 1, MaxK: 2, Amp: 1, B: 1}
	conf.Verify()
	var sp = euclid.Space{}
	var data = []core.Elemt{[]float64{0}, []float64{2}}
	var distrib = mcmc.NewMultivT(mcmc.MultivTConf{Dim: 1, Nu: 3, RGen: conf.RGen})
	var impl = mcmc.NewSeqImpl(conf, kmeans.GivenInitializer, data, distrib)
	var model = func(clust core.Clust) core.OCModel {
		return core.NewSimpleOCModel(&conf, sp, core.NewOCStatus(core.Running), core.RuntimeFigures{}, clust)
	}
	var clust, err = impl.Init(model(nil))
	if err != nil {
		t.Fatal(err)
	}
	var fig core.RuntimeFigures
	for n := 2; n < 6; n++ {
		_ = impl.Push([]float64{float64(n)}, model(clust))
		clust, fig, _ = impl.Iterate(model(clust))
		var lambda = math.Sqrt(4 / float64(n))
		if math.Abs(fig[mcmc.Lambda]-lambda) > 1e-9 {
			t.Fatal("lambda", fig[mcmc.Lambda], "expected", lambda, "for", n)
		}
	}
}
'''
