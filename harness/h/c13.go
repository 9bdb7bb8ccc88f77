package h

import (
	"golang.org/x/exp/rand"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"

	"verifharness/vk"
)

// subSpace gives every element an arbitrary distance to each of the k first
// centroids and to each barycenter of a subset of the n elements. Distances
// depend on what was combined only.
type subSpace struct {
	k, n int
	d    []float64
}

func newSubSpace(k, n int) *subSpace {
	s := &subSpace{k: k, n: n}
	for i := 0; i < n*(k+1<<uint(n)); i++ {
		s.d = append(s.d, vk.Float("d", 0, 1000))
	}
	return s
}

// key of a barycenter: an initial centroid or a subset of the elements.
func (s *subSpace) key(m *Mem) int {
	mask := 0
	for i := 0; i < s.k+s.n; i++ {
		if m.Set>>uint(3*i)&7 > 0 {
			mask |= 1 << uint(i)
		}
	}
	for i := 0; i < s.k; i++ {
		if mask == 1<<uint(i) {
			return i
		}
	}
	return s.k + mask>>uint(s.k)
}

func (s *subSpace) dist(elem int, m *Mem) float64 {
	return s.d[elem*(s.k+1<<uint(s.n))+s.key(m)]
}

func (s *subSpace) Dist(a, b core.Elemt) float64 {
	x := a.(*Mem)
	vk.Assert(x.ID >= s.k, "distances are taken from an element")
	return s.dist(x.ID-s.k, b.(*Mem))
}

func (s *subSpace) Combine(a core.Elemt, w1 int, b core.Elemt, w2 int) core.Elemt {
	var x, y = a.(*Mem), b.(*Mem)
	vk.Assert(w1 == x.W && w2 == y.W, "weights are the numbers of combined elements")
	return &Mem{-1, x.Set + y.Set, x.W + y.W}
}

func (s *subSpace) Copy(a core.Elemt) core.Elemt {
	var x = a.(*Mem)
	return &Mem{x.ID, x.Set, x.W}
}

func (s *subSpace) Dim([]core.Elemt) int { return 1 }

// lloyd checks that next is what one step gives from prev over data.
func lloyd(sp *subSpace, prev, next core.Clust, data []core.Elemt) {
	k := len(prev)
	vk.Assert(len(next) == k, "the number of clusters is kept")
	for i := range next {
		vk.Assert(next[i] != nil, "no cluster is lost")
	}
	member := make([]int, k)
	for _, e := range data {
		in := -1
		m := e.(*Mem)
		for i := range next {
			if next[i] != prev[i] && next[i].(*Mem).Set&m.Set != 0 {
				vk.Assert(in < 0, "an element belongs to one cluster")
				in = i
			}
		}
		vk.Assert(in >= 0, "every buffered element belongs to a cluster")
		member[in] += m.Set
		least := true
		for i := range prev {
			least = vk.All(least, sp.dist(m.ID-sp.k, prev[in].(*Mem)) <= sp.dist(m.ID-sp.k, prev[i].(*Mem)))
		}
		vk.Assert(least, "an element belongs to the cluster of its nearest centroid")
	}
	for i := range next {
		if member[i] == 0 {
			vk.Assert(next[i] == prev[i], "a centroid without elements is kept")
			vk.Cover("kept")
			continue
		}
		x := next[i].(*Mem)
		vk.Assert(x.Set == member[i], "a centroid is the barycenter of its elements and of nothing else")
		w := 0
		for j := 0; j < sp.k+sp.n; j++ {
			w += x.Set >> uint(3*j) & 7
		}
		vk.Assert(x.W == w, "each element counts once")
		if w > 1 {
			vk.Cover("many")
		}
	}
}

// C13Step: the iterations of the library, with pushes before and between.
func C13Step() {
	k, n, p, iters := vk.Param("k"), vk.Param("n"), vk.Param("p"), vk.Param("iters")
	frame, par := vk.Param("frame"), vk.Param("par") == 1
	sp := newSubSpace(k, n+p)
	clust := make(core.Clust, k)
	for i := range clust {
		clust[i] = unit(i)
	}
	all := make([]core.Elemt, n+p)
	for i := range all {
		all[i] = unit(k + i)
	}
	when := make([]int, p)
	for i := range when {
		when[i] = vk.Concrete(vk.Int("when", 0, iters))
		if i > 0 {
			vk.Assume(when[i] >= when[i-1])
		}
	}
	alive := vk.Concrete(vk.Int("alive", 0, 1)) == 1
	cf := kmeans.Conf{K: k, Par: par, NumCPU: vk.Param("degree"), FrameSize: frame, RGen: rand.New(vk.NewSource("r"))}
	a := kmeans.NewAlgo(cf, sp, append([]core.Elemt(nil), all[:n]...), clust.Initializer)
	impl := a.Impl()
	made := core.NewSimpleOCModel(a.Conf(), sp, core.NewOCStatus(core.Created), nil, nil)
	visible := append([]core.Elemt(nil), all[:n]...)
	var staged []core.Elemt
	next := 0
	push := func(now int, model core.OCModel, run bool) {
		for next < p && when[next] == now {
			e := all[n+next]
			vk.Assert(impl.Push(e, model) == nil, "a push succeeds")
			if run {
				staged = append(staged, e)
			} else {
				visible = append(append(visible, staged...), e)
				staged = nil
			}
			next++
		}
	}
	push(0, made, false)
	prev, err := impl.Init(made)
	vk.Assert(err == nil && len(prev) == k, "initialized")
	for it := 1; it <= iters; it++ {
		st := core.Ready
		if it > 1 {
			st = core.Running
		}
		if !alive {
			st = core.Finished
		}
		model := core.NewSimpleOCModel(a.Conf(), sp, core.NewOCStatus(st), nil, prev)
		push(it, model, alive)
		keep := append(core.Clust(nil), prev...)
		vals := make([]Mem, k)
		for i := range vals {
			vals[i] = *prev[i].(*Mem)
		}
		used := visible
		if frame > 0 && len(used) > frame {
			used = used[len(used)-frame:]
			vk.Cover("frame")
		}
		got, fig, err := impl.Iterate(model)
		vk.Assert(err == nil && len(fig) == 0, "no error")
		lloyd(sp, keep, got, used)
		for i := range keep {
			vk.Assert(prev[i] == keep[i] && *keep[i].(*Mem) == vals[i], "previous centroids are not modified")
		}
		visible = append(visible, staged...)
		staged = nil
		prev = got
	}
	for i := range all {
		m := all[i].(*Mem)
		vk.Assert(m.ID == k+i && m.Set == 1<<uint(3*(k+i)) && m.W == 1, "data is not modified")
	}
	vk.Observe("w", prev[0].(*Mem).W)
	vk.Cover("done")
}

// C13Loss: one step never increases the squared loss.
func C13Loss() {
	k, n, dim, par := vk.Param("k"), vk.Param("n"), vk.Param("dim"), vk.Param("par") == 1
	vec := func(name string) []float64 {
		v := make([]float64, dim)
		for i := range v {
			v[i] = vk.Float(name, -1000, 1000)
		}
		return v
	}
	var clust core.Clust
	for i := 0; i < k; i++ {
		clust = append(clust, vec("c"))
	}
	var data []core.Elemt
	for i := 0; i < n; i++ {
		data = append(data, vec("x"))
	}
	cf := kmeans.Conf{K: k, Par: par, NumCPU: vk.Param("degree"), RGen: rand.New(vk.NewSource("r"))}
	sp := euclid.NewSpace()
	a := kmeans.NewAlgo(cf, sp, data, clust.Initializer)
	model := core.NewSimpleOCModel(a.Conf(), sp, core.NewOCStatus(core.Running), nil, clust)
	got, _, err := a.Impl().Iterate(model)
	vk.Assert(err == nil && len(got) == k, "iterated")
	// within each group the squared distances to the new centroid sum to at
	// most those to the old one (even coordinate by coordinate), which was the
	// nearest of all: then the loss, taken with the nearest new centroids, does
	// not increase either
	labels, _ := clust.MapLabel(data, sp)
	for l := range clust {
		for d := 0; d < dim; d++ {
			before, after := 0., 0.
			for i, e := range data {
				if labels[i] == l {
					before += sqdiff(e, clust[l], d)
					after += sqdiff(e, got[l], d)
				}
			}
			vk.Assert(after <= before+1e-6, "the loss of a cluster does not increase")
		}
	}
	vk.Cover("done")
}

func sqdiff(a, b core.Elemt, d int) float64 {
	x, y := a.([]float64), b.([]float64)
	return (x[d] - y[d]) * (x[d] - y[d])
}
