package h

import (
	"github.com/wearelumenai/distclus/core"

	"verifharness/vk"
)

func c01setup(k, n int) (*table, core.Clust, []core.Elemt) {
	sp := newTable(k + n)
	sp.fill(k, k+n, 0, k, -1000, 1000)
	clust := make(core.Clust, k)
	for i := range clust {
		clust[i] = &Pt{i}
	}
	elemts := make([]core.Elemt, n)
	for i := range elemts {
		elemts[i] = &Pt{k + i}
	}
	return sp, clust, elemts
}

func c01check(sp *table, k, row int, label int, dist float64) {
	vk.Assert(label >= 0 && label < k, "label in range")
	for i := 0; i < k; i++ {
		di := sp.at(row, i)
		vk.Assert(di >= dist, "no centroid is nearer")
		vk.Assert(vk.Any(i >= label, di > dist), "lowest index among the nearest")
	}
	vk.Assert(dist == sp.at(row, label), "the distance is the one of the chosen centroid")
}

// C01Nearest: Assign against an arbitrary distance table.
func C01Nearest() {
	k := vk.Param("k")
	sp, clust, xs := c01setup(k, 1)
	c, label, dist := clust.Assign(xs[0], sp)
	if k == 0 {
		vk.Assert(c == nil && label == -1, "no centroid: nil and -1")
		return
	}
	c01check(sp, k, k, label, dist)
	vk.Assert(c == clust[label], "the centroid is the labelled one")
	vk.Cover("assigned")
	if label == k-1 {
		vk.Cover("last")
	}
	vk.Observe("label", label)
	vk.Observe("dist", dist)
}

// C01MapLabel: MapLabel and ParMapLabel label each element like Assign.
func C01MapLabel() {
	k, n := vk.Param("k"), vk.Param("n")
	sp, clust, xs := c01setup(k, n)
	var labels []int
	var dists []float64
	if d := vk.Param("degree"); d > 0 {
		labels, dists = clust.ParMapLabel(xs, sp, d)
	} else {
		labels, dists = clust.MapLabel(xs, sp)
	}
	vk.Assert(len(labels) == n && len(dists) == n, "one label and one distance per element")
	for i := range xs {
		c01check(sp, k, k+i, labels[i], dists[i])
		vk.Observe("label", labels[i])
		vk.Assert(xs[i].(*Pt).ID == k+i, "elements are left alone")
	}
	for i := range clust {
		vk.Assert(clust[i].(*Pt).ID == i, "centroids are left alone")
	}
	vk.Cover("mapped")
}

// C01Predict: Predict answers with the published centroids.
func C01Predict() {
	k := vk.Param("k")
	sp, clust, xs := c01setup(k, 1)
	algo := core.NewAlgo(&conf{}, &fixed{clust}, sp)
	if _, label, _ := algo.Predict(xs[0]); true {
		vk.Assert(label == -1, "nothing is published before initialization")
	}
	err := algo.Init()
	vk.Assert(err == nil, "init")
	c, label, dist := algo.Predict(xs[0])
	c01check(sp, k, k, label, dist)
	vk.Assert(c == clust[label], "the centroid is the labelled one")
	vk.Cover("predicted")
	vk.Observe("label", label)
}
