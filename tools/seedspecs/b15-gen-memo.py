ID="b15-gen-memo"; PROPERTY="C15"
NEEDS="Centers requested for a number that is not stored, twice, the previous centers having changed in between (a rejected proposal)."
BREAKS="Generated centers are remembered although nobody stored them: a rejected proposal is proposed again, derived from outdated neighbours."
EDITS=[("mcmc/store.go","""		return store.genCenters(data, space, k, clust)
	}
""","""		var err error
		if centers, err = store.genCenters(data, space, k, clust); err != nil {
			return nil, err
		}
		store.centers[k] = centers
	}
""")]
PKG="mcmc"
DEMO='''package mcmc_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/mcmc"
	"golang.org/x/exp/rand"
)

func TestDemo(t *testing.T) {
	var store = mcmc.NewCenterStore(rand.New(rand.NewSource(1)))
	var data = []core.Elemt{[]float64{9}}
	var clust, err = store.GetCenters(data, euclid.Space{}, 2, core.Clust{[]float64{1}})
	if err != nil || len(clust) != 2 {
		t.Fatal(clust, err)
	}
	clust, err = store.GetCenters(data, euclid.Space{}, 2, core.Clust{[]float64{5}})
	if err != nil || len(clust) != 2 || clust[0].([]float64)[0] != 5 {
		t.Fatal("not derived from the previous centers", clust, err)
	}
}
'''
