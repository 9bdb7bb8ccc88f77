package h

import (
	"golang.org/x/exp/rand"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/kmeans"

	"verifharness/vk"
)

// symTable has arbitrary symmetric distances, zero on the diagonal.
func symTable(n int) *table {
	sp := newTable(n)
	for i := 0; i < n; i++ {
		for j := 0; j < i; j++ {
			x := vk.Float("d", 0, 1000)
			sp.d[i*n+j] = x
			sp.d[j*n+i] = x
		}
	}
	return sp
}

func points(n int) []core.Elemt {
	e := make([]core.Elemt, n)
	for i := range e {
		e[i] = &Pt{i}
	}
	return e
}

func c11data(data, keep []core.Elemt) {
	for i := range keep {
		vk.Assert(data[i] == keep[i] && data[i].(*Pt).ID == i, "the data is not modified")
	}
}

// C11Given: the first k elements in order.
func C11Given() {
	n := vk.Param("n")
	k := vk.Concrete(vk.Int("k", -2, n+2))
	data := points(n)
	keep := append([]core.Elemt(nil), data...)
	c, err := kmeans.GivenInitializer(k, data, symTable(n), nil)
	if k >= 1 && k <= n {
		vk.Assert(err == nil && len(c) == k, "k centers")
		for i := range c {
			vk.Assert(c[i].(*Pt).ID == i, "the first k elements in order")
		}
		vk.Cover("ok")
	} else {
		vk.Assert(err != nil, "an error otherwise")
		vk.Cover("error")
	}
	c11data(data, keep)
	vk.Observe("n", len(c))
}

// C11Rand: k different positions.
func C11Rand() {
	n := vk.Param("n")
	k := vk.Concrete(vk.Int("k", -2, n+2))
	data := points(n)
	keep := append([]core.Elemt(nil), data...)
	c, err := kmeans.RandInitializer(k, data, symTable(n), rand.New(vk.NewSource("r")))
	if k >= 1 && k <= n {
		vk.Assert(err == nil && len(c) == k, "k centers")
		for i := range c {
			id := c[i].(*Pt).ID
			vk.Assert(id >= 0 && id < n, "centers are data elements")
			for j := 0; j < i; j++ {
				vk.Assert(c[j].(*Pt).ID != id, "different positions")
			}
			vk.Observe("c", id)
		}
		vk.Cover("ok")
	} else {
		vk.Assert(err != nil, "an error otherwise")
		vk.Cover("error")
	}
	c11data(data, keep)
}

// C11PP: kmeans++ only draws elements at positive distance.
func C11PP() {
	n := vk.Param("n")
	k := vk.Concrete(vk.Int("k", -1, n+1))
	data := points(n)
	keep := append([]core.Elemt(nil), data...)
	sp := symTable(n)
	c, err := kmeans.PPInitializer(k, data, sp, rand.New(vk.NewSource("r")))
	if k >= 1 && k <= n {
		if err == nil {
			vk.Assert(len(c) == k, "k centers")
			for i := range c {
				id := c[i].(*Pt).ID
				vk.Assert(id >= 0 && id < n, "centers are data elements")
				for j := 0; j < i; j++ {
					vk.Assert(sp.at(id, c[j].(*Pt).ID) > 0, "a center is at positive distance from those drawn before")
				}
				vk.Observe("c", id)
			}
			vk.Cover("ok")
		} else {
			// the set was exhausted: with pairwise positive distances that cannot be
			pos := true
			for i := 0; i < n; i++ {
				for j := 0; j < i; j++ {
					pos = vk.All(pos, sp.at(i, j) > 0)
				}
			}
			vk.Assert(!pos, "no error while there are enough distinct elements")
			vk.Cover("exhausted")
		}
	} else {
		vk.Assert(err != nil, "an error otherwise")
		vk.Cover("error")
	}
	c11data(data, keep)
}

// C11PPIter: one draw away from the given centers.
func C11PPIter() {
	n, m := vk.Param("n"), vk.Param("m")
	data := points(n)
	sp := symTable(n)
	clust := core.Clust(points(m))
	e, err := kmeans.PPIter(clust, data, sp, rand.New(vk.NewSource("r")))
	some := false
	for i := range data {
		d := sp.at(i, 0)
		for j := 1; j < m; j++ {
			d = fmin(d, sp.at(i, j))
		}
		some = vk.Any(some, d > 0)
	}
	vk.Assert((err == nil) == some, "an error exactly when every element is at distance zero")
	if err == nil {
		id := e.(*Pt).ID
		for j := 0; j < m; j++ {
			vk.Assert(sp.at(id, j) > 0, "the drawn element is at positive distance")
		}
		vk.Observe("id", id)
		vk.Cover("ok")
	}
	c11data(data, data)
}

// C11ByName: initializers by name.
func C11ByName() {
	for i, n := range []string{"given", "GIVEN", "pp", "Pp", "rand", "Rand"} {
		f := kmeans.CreateInitializer(n)
		vk.Assert(f != nil, "known name")
		if i < 2 {
			c, err := f(2, points(3), newTable(3), nil)
			vk.Assert(err == nil && len(c) == 2 && c[0].(*Pt).ID == 0 && c[1].(*Pt).ID == 1, "given")
		}
	}
	vk.Cover("done")
}

// C12Choice: weighted draws.
func C12Choice() {
	n := vk.Param("n")
	w := make([]float64, n)
	sum := 0.
	for i := range w {
		w[i] = vk.Float("w", 0, 1000)
		sum += w[i]
	}
	keep := cp(w)
	src := vk.NewSource("r")
	idx, err := kmeans.WeightedChoice(w, rand.New(src))
	vk.Assert(same(w, keep), "the weights are not modified")
	zero := true
	for i := range w {
		zero = vk.All(zero, w[i] == 0)
	}
	vk.Assert((err == kmeans.ErrNullSet) == zero, "the empty-set error exactly when all weights are zero")
	vk.Assert(err == nil || err == kmeans.ErrNullSet, "no other error")
	if err != nil {
		vk.Cover("null")
		return
	}
	vk.Observe("idx", idx)
	vk.Assert(idx >= 0 && idx < n, "a valid index")
	vk.Assert(w[idx] > 0, "an index of positive weight")
	// where the fraction falls
	cursor := src.Last() * sum
	below := 0.
	for i := 0; i < idx; i++ {
		below += w[i]
	}
	vk.Assert(cursor >= below-1e-6, "not before the drawn fraction")
	vk.Assert(cursor <= below+w[idx]+1e-6, "not after the drawn fraction")
	vk.Cover("ok")
}
