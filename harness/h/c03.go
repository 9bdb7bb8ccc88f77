package h

import (
	"github.com/wearelumenai/distclus/core"

	"verifharness/vk"
)

// memSetup gives k centroids and n elements with arbitrary distances.
func memSetup(k, n int) (*memSpace, core.Clust, []core.Elemt) {
	sp := newMemSpace(k + n)
	sp.fill(k, k+n, 0, k, 0, 1000)
	clust := make(core.Clust, k)
	for i := range clust {
		clust[i] = unit(i)
	}
	elemts := make([]core.Elemt, n)
	for i := range elemts {
		elemts[i] = unit(k + i)
	}
	return sp, clust, elemts
}

func memIntact(clust core.Clust, elemts []core.Elemt) {
	k := len(clust)
	for i := range clust {
		m := clust[i].(*Mem)
		vk.Assert(m.Set == 1<<uint(3*i) && m.W == 1, "centroids are not modified")
	}
	for i := range elemts {
		m := elemts[i].(*Mem)
		vk.Assert(m.Set == 1<<uint(3*(k+i)) && m.W == 1, "elements are not modified")
	}
}

// C03DBA: ParReduceDBA against ReduceDBA.
func C03DBA() {
	k, n, d := vk.Param("k"), vk.Param("n"), vk.Param("degree")
	sp, clust, elemts := memSetup(k, n)
	labels, _ := clust.MapLabel(elemts, sp)
	res, cards := clust.ParReduceDBA(elemts, sp, d)
	seq, scards := clust.ReduceDBA(elemts, sp)
	vk.Assert(len(res) == k && len(cards) == k, "one result per cluster")
	for i := 0; i < k; i++ {
		want, card := 0, 0
		for j := range elemts {
			if labels[j] == i {
				want += 1 << uint(3*(k+j))
				card++
			}
		}
		vk.Assert(cards[i] == card, "cardinality is the number of members")
		vk.Assert(scards[i] == card, "sequential cardinality is the number of members")
		vk.Assert(set(seq[i]) == want, "the sequential barycenter combines exactly the members")
		if card == 0 {
			vk.Assert(res[i] == clust[i], "a cluster without elements keeps its centroid")
			vk.Assert(seq[i] == nil, "the sequential form reports no barycenter for a cluster without elements")
			vk.Cover("empty")
		} else {
			vk.Assert(set(res[i]) == want, "the barycenter combines exactly the members")
			vk.Assert(res[i].(*Mem).W == card, "the barycenter weighs the number of members")
		}
		if card > 1 {
			vk.Cover("many")
		}
		vk.Observe("card", cards[i])
	}
	memIntact(clust, elemts)
}

// C03DBALabels: ParReduceDBAForLabels with arbitrary labels.
func C03DBALabels() {
	k, n, d := vk.Param("k"), vk.Param("n"), vk.Param("degree")
	sp, clust, elemts := memSetup(k, n)
	labels := make([]int, n)
	for i := range labels {
		labels[i] = vk.Concrete(vk.Int("label", 0, k-1))
	}
	given := append([]int(nil), labels...)
	res, cards := clust.ParReduceDBAForLabels(elemts, labels, sp, d)
	vk.Assert(len(res) == k && len(cards) == k, "one result per cluster")
	for i := 0; i < k; i++ {
		want, card := 0, 0
		for j := range elemts {
			if given[j] == i {
				want += 1 << uint(3*(k+j))
				card++
			}
		}
		vk.Assert(cards[i] == card, "cardinality is the number of members")
		vk.Assert(set(res[i]) == want, "the barycenter combines exactly the labelled members")
		if card == 0 {
			vk.Assert(res[i] == nil, "no barycenter for an empty cluster")
			vk.Cover("empty")
		}
		vk.Observe("card", cards[i])
	}
	for i := range labels {
		vk.Assert(labels[i] == given[i], "labels are not modified")
	}
	memIntact(clust, elemts)
}

// C03Labels: ParMapLabel equals MapLabel.
func C03Labels() {
	k, n, d := vk.Param("k"), vk.Param("n"), vk.Param("degree")
	sp, clust, elemts := memSetup(k, n)
	l1, d1 := clust.ParMapLabel(elemts, sp, d)
	l2, d2 := clust.MapLabel(elemts, sp)
	vk.Assert(len(l1) == n && len(d1) == n, "one label per element")
	for i := range elemts {
		vk.Assert(l1[i] == l2[i], "same labels")
		vk.Assert(d1[i] == d2[i], "same distances")
		vk.Observe("l", l1[i])
	}
	memIntact(clust, elemts)
	vk.Cover("done")
}

// C03Loss: parallel losses equal sequential ones.
func C03Loss() {
	k, n, d, norm := vk.Param("k"), vk.Param("n"), vk.Param("degree"), float64(vk.Param("norm"))
	sp, clust, elemts := memSetup(k, n)
	lo1, c1 := clust.ParReduceLoss(elemts, sp, norm, d)
	lo2, c2 := clust.ReduceLoss(elemts, sp, norm)
	t1 := clust.ParTotalLoss(elemts, sp, norm, d)
	t2 := clust.TotalLoss(elemts, sp, norm)
	vk.Assert(len(lo1) == k && len(c1) == k, "one loss per cluster")
	for i := 0; i < k; i++ {
		vk.Assert(near(lo1[i], lo2[i]), "same losses")
		vk.Assert(c1[i] == c2[i], "same cardinalities")
		vk.Observe("loss", lo1[i])
	}
	vk.Assert(near(t1, t2), "same total loss")
	memIntact(clust, elemts)
	vk.Cover("done")
}

// C03LossLabels: parallel losses for labels equal sequential ones.
func C03LossLabels() {
	k, n, d, norm := vk.Param("k"), vk.Param("n"), vk.Param("degree"), float64(vk.Param("norm"))
	sp, clust, elemts := memSetup(k, n)
	labels := make([]int, n)
	for i := range labels {
		labels[i] = vk.Concrete(vk.Int("label", 0, k-1))
	}
	lo1, c1 := clust.ParReduceLossForLabels(elemts, labels, sp, norm, d)
	lo2, c2 := clust.ReduceLossForLabels(elemts, labels, sp, norm)
	vk.Assert(len(lo1) == k && len(c1) == k, "one loss per cluster")
	for i := 0; i < k; i++ {
		vk.Assert(near(lo1[i], lo2[i]), "same losses")
		vk.Assert(c1[i] == c2[i], "same cardinalities")
		vk.Observe("loss", lo1[i])
	}
	memIntact(clust, elemts)
	vk.Cover("done")
}
