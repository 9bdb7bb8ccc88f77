package h

import (
	"math"

	"verifharness/vk"
)

// C05Loss: losses are the per-cluster sums of distance powers.
func C05Loss() {
	k, n, norm := vk.Param("k"), vk.Param("n"), float64(vk.Param("norm"))
	if norm < 0 {
		norm = -norm / 4
	}
	sp, clust, elemts := memSetup(k, n)
	labels := make([]int, n)
	var losses []float64
	var cards []int
	if vk.Param("given") == 1 {
		for i := range labels {
			labels[i] = vk.Concrete(vk.Int("label", 0, k-1))
		}
		losses, cards = clust.ReduceLossForLabels(elemts, labels, sp, norm)
	} else {
		for i := range labels {
			best := 0
			for j := 1; j < k; j++ {
				if sp.at(k+i, j) < sp.at(k+i, best) {
					best = j
				}
			}
			labels[i] = best
		}
		losses, cards = clust.ReduceLoss(elemts, sp, norm)
	}
	vk.Assert(len(losses) == k && len(cards) == k, "one loss per cluster")
	total := 0.
	for i := 0; i < k; i++ {
		want, card := 0., 0
		for j := range elemts {
			if labels[j] == i {
				want += math.Pow(sp.at(k+j, i), norm)
				card++
			}
		}
		total += want
		vk.Assert(cards[i] == card, "cardinality is the number of members")
		vk.Assert(near(losses[i], want), "the loss is the sum of the distance powers")
		vk.Observe("loss", losses[i])
		vk.Observe("card", cards[i])
		if card > 1 {
			vk.Cover("many")
		}
	}
	if vk.Param("given") == 0 {
		vk.Assert(near(clust.TotalLoss(elemts, sp, norm), total), "the total loss is the sum over the clusters")
	}
	memIntact(clust, elemts)
}
