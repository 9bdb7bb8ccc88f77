ID="b22-alter-inplace"; PROPERTY="C22"
NEEDS="An MCMC iteration whose proposal keeps the number of centers, observed through centroids obtained before."
BREAKS="The alteration writes the proposal into the slice of the published centroids."
EDITS=[("mcmc/impl.go","""	var result = make(core.Clust, len(clust))

	for i, c := range clust {
		result[i] = impl.distrib.Sample(c, time)
	}

	return result
""","""	for i, c := range clust {
		clust[i] = impl.distrib.Sample(c, time)
	}

	return clust
""")]
PKG="mcmc"
DEMO='''package mcmc_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"golang.org/x/exp/rand"
)

func TestDemo(t *testing.T) {
	var conf = mcmc.Conf{InitK: 2, MaxK: 2, Amp: 1, B: 1, ProbaK: []float64{0, 1, 0}, RGen: rand.New(rand.NewSource(1)),
		CtrlConf: core.CtrlConf{Iter: 10}}
	var data = []core.Elemt{[]float64{0}, []float64{2}, []float64{10}, []float64{12}}
	var distrib = mcmc.NewMultivT(mcmc.MultivTConf{Dim: 1, Nu: 3, RGen: conf.RGen})
	var algo = mcmc.NewAlgo(conf, euclid.Space{}, data, kmeans.GivenInitializer, distrib)
	if err := algo.Init(); err != nil {
		t.Fatal(err)
	}
	var clust = algo.Centroids()
	if err := algo.Play(); err != nil {
		t.Fatal(err)
	}
	_ = algo.Wait(nil, 0)
	if clust[0].([]float64)[0] != 0 || clust[1].([]float64)[0] != 2 {
		t.Fatal("centroids modified", clust)
	}
}
'''
