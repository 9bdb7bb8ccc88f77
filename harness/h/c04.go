package h

import (
	"github.com/wearelumenai/distclus/core"

	"verifharness/vk"
)

// C04Reduce: ReduceDBA counts each element in its nearest cluster.
func C04Reduce() {
	k, n := vk.Param("k"), vk.Param("n")
	sp, clust, elemts := memSetup(k, n)
	labels := make([]int, n)
	if vk.Param("given") == 1 {
		for i := range labels {
			labels[i] = vk.Concrete(vk.Int("label", 0, k-1))
		}
	} else {
		// the oracle: first index of minimal distance
		for i := range labels {
			best := 0
			for j := 1; j < k; j++ {
				if sp.at(k+i, j) < sp.at(k+i, best) {
					best = j
				}
			}
			labels[i] = best
		}
	}
	given := append([]int(nil), labels...)
	var res []core.Elemt
	var cards []int
	if vk.Param("given") == 1 {
		res, cards = clust.ReduceDBAForLabels(elemts, labels, sp)
	} else {
		res, cards = clust.ReduceDBA(elemts, sp)
	}
	vk.Assert(len(res) == k && len(cards) == k, "one result per cluster")
	total := 0
	for i := 0; i < k; i++ {
		want, card := 0, 0
		for j := range elemts {
			if given[j] == i {
				want += 1 << uint(3*(k+j))
				card++
			}
		}
		total += cards[i]
		vk.Assert(cards[i] == card, "cardinality is the number of members")
		vk.Assert(set(res[i]) == want, "the barycenter combines exactly the members")
		if card > 0 {
			vk.Assert(res[i].(*Mem).W == card, "the barycenter weighs the number of members")
			for j := range elemts {
				vk.Assert(res[i] != elemts[j], "the barycenter is not an element itself")
			}
		}
		if card == 1 {
			vk.Cover("single")
		}
		if card > 2 {
			vk.Cover("many")
		}
		vk.Observe("card", card)
	}
	vk.Assert(total == n, "every element is counted once")
	for i := range labels {
		vk.Assert(labels[i] == given[i], "labels are not modified")
	}
	memIntact(clust, elemts)
}

// C04DBA: DBA and WeightedDBA combine every element once.
func C04DBA() {
	n := vk.Param("n")
	sp := newMemSpace(n)
	elemts := make([]core.Elemt, n)
	weights := make([]int, n)
	for i := range elemts {
		m := unit(i)
		weights[i] = 1
		if vk.Param("weighted") == 1 {
			weights[i] = vk.Int("w", 1, 1<<40)
			m.W = weights[i]
		}
		elemts[i] = m
	}
	var given = append([]int(nil), weights...)
	var dba core.Elemt
	var err error
	if vk.Param("weighted") == 1 {
		dba, err = core.WeightedDBA(elemts, weights, sp)
	} else {
		dba, err = core.DBA(elemts, sp)
	}
	if n == 0 {
		vk.Assert(err != nil && dba == nil, "averaging nothing is an error")
		vk.Cover("none")
		return
	}
	vk.Assert(err == nil, "no error")
	want, w := 0, 0
	for i := range elemts {
		want += 1 << uint(3*i)
		w += given[i]
		vk.Assert(elemts[i].(*Mem).Set == 1<<uint(3*i), "elements are not modified")
		vk.Assert(elemts[i].(*Mem).W == given[i] && weights[i] == given[i], "weights are not modified")
		vk.Assert(dba != elemts[i], "the average is not an element itself")
	}
	vk.Assert(set(dba) == want, "every element is combined once")
	vk.Assert(dba.(*Mem).W == w, "the average carries the total weight")
	vk.Cover("averaged")
	vk.Observe("w", w)
}
