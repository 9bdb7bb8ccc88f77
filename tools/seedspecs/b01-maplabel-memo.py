ID="b01-maplabel-memo"; PROPERTY="C01"
NEEDS="Two consecutive elements at distance zero from each other that are not equally far from the centroids (e.g. DTW series that differ by repeated points)."
BREAKS="MapLabel reuses the previous element's label and distance when the two elements are at distance zero."
EDITS=[("core/clustering.go","""	for i, elemt := range elemts {
		labels[i], dists[i] = c.nearest(elemt, space)
	}
""","""	for i, elemt := range elemts {
		if i > 0 && space.Dist(elemts[i-1], elemt) == 0 {
			labels[i], dists[i] = labels[i-1], dists[i-1]
			continue
		}
		labels[i], dists[i] = c.nearest(elemt, space)
	}
""")]
PKG="core"
DEMO='''package core_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
)

func TestDemo(t *testing.T) {
	var space = dtw.NewSpace(dtw.Conf{InnerSpace: euclid.NewSpace()})
	var c = core.Clust{[][]float64{{0}, {0}}, [][]float64{{5}, {5}, {5}}}
	var data = []core.Elemt{[][]float64{{1}}, [][]float64{{1}, {1}, {1}, {1}}}
	var _, dists = c.MapLabel(data, space)
	for i := range data {
		var _, _, d = c.Assign(data[i], space)
		if d != dists[i] {
			t.Fatal("distance differs", i, d, dists[i])
		}
	}
}
'''
