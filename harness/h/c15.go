package h

import (
	"golang.org/x/exp/rand"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/mcmc"

	"verifharness/vk"
)

// C15Store: sequences of requests and of storing on a center store.
func C15Store() {
	n, ops, maxk := vk.Param("n"), vk.Param("ops"), vk.Param("maxk")
	nc := maxk * (ops + 1)
	w := newTable(n + nc)
	w.fill(0, n, 0, n+nc, 0, 1000)
	data := points(n)
	store := mcmc.NewCenterStore(rand.New(vk.NewSource("r")))
	stored := map[int]core.Clust{}
	ids := n
	fresh := func(k int) core.Clust {
		c := make(core.Clust, k)
		for i := range c {
			c[i] = &Pt{ids}
			ids++
		}
		return c
	}
	var all []core.Clust
	var vals [][]core.Elemt
	var nums [][]int
	note := func(c core.Clust) {
		all = append(all, c)
		vals = append(vals, append([]core.Elemt(nil), c...))
		ns := []int{}
		for i := range c {
			ns = append(ns, c[i].(*Pt).ID)
		}
		nums = append(nums, ns)
	}
	prev := fresh(vk.Concrete(vk.Int("first", 1, maxk)))
	note(prev)
	for o := 0; o < ops; o++ {
		op := vk.Concrete(vk.Int("op", 0, 4))
		if op == 0 {
			// the current centers are stored, as after an acceptance
			store.SetCenters(prev)
			stored[len(prev)] = prev
			continue
		}
		if op == 1 {
			// other centers become the current ones
			prev = fresh(vk.Concrete(vk.Int("size", 1, maxk)))
			note(prev)
			continue
		}
		k := len(prev) + op - 3
		if k < 1 {
			continue
		}
		got, err := store.GetCenters(data, w, k, prev)
		if s, ok := stored[k]; ok {
			vk.Assert(err == nil && len(got) == k, "stored centers are found")
			for i := range got {
				vk.Assert(got[i] == s[i], "the centers last stored for this count are returned")
			}
			vk.Cover("stored")
			prev = got
			continue
		}
		switch {
		case k == len(prev):
			vk.Assert(err == nil && len(got) == k, "k centers")
			for i := range got {
				vk.Assert(got[i].(*Pt).ID == prev[i].(*Pt).ID, "the given centers are returned")
			}
		case k < len(prev):
			vk.Assert(err == nil && len(got) == k, "k centers")
			j := 0
			for i := range prev {
				if j < k && got[j].(*Pt).ID == prev[i].(*Pt).ID {
					vk.Assert(got[j] != prev[i], "centers are copied")
					j++
				}
			}
			vk.Assert(j == k, "all but one center in unchanged order")
			vk.Cover("less")
		default:
			covered := true
			for i := 0; i < n; i++ {
				some := false
				for j := range prev {
					some = vk.Any(some, w.at(i, prev[j].(*Pt).ID) == 0)
				}
				covered = vk.All(covered, some)
			}
			if err != nil {
				vk.Assert(covered, "an error only when no element is at positive distance")
				vk.Cover("none")
				continue
			}
			vk.Assert(!covered && len(got) == k, "k centers")
			for i := range prev {
				vk.Assert(got[i].(*Pt).ID == prev[i].(*Pt).ID, "the given centers come first")
				vk.Assert(got[i] != prev[i], "centers are copied")
			}
			e := got[k-1].(*Pt).ID
			vk.Assert(e < n, "a data element is added")
			for i := range data {
				vk.Assert(got[k-1] != data[i], "the added element is copied")
			}
			for i := range prev {
				vk.Assert(w.at(e, prev[i].(*Pt).ID) > 0, "the added element is at positive distance")
			}
			vk.Cover("more")
		}
		prev = got
		note(prev)
	}
	for i, c := range all {
		vk.Assert(len(c) == len(vals[i]), "no list is modified")
		for j := range c {
			vk.Assert(c[j] == vals[i][j] && c[j].(*Pt).ID == nums[i][j], "no center is modified")
		}
	}
	c11data(data, data)
	vk.Observe("k", len(prev))
	vk.Cover("done")
}
