package h

import (
	"golang.org/x/exp/rand"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/kmeans"

	"verifharness/vk"
)

// viewer checks the model it is given.
type viewer struct {
	conf  *conf
	life  int // initializations
	made  int // iterations of this life
	most  int
	fails int // iteration that fails, 0 none
	begun int // pushes called
	base  int // pushes of previous lives
	ended int // pushes that have returned
	seen  int // pushes that must be told in this life
	last  int // published last
}

func (v *viewer) Init(m core.OCModel) (core.Clust, error) {
	vk.Assert(m.Conf() == core.Conf(v.conf) && m.Space() == core.Space(intSpace{}), "its configuration and space")
	vk.Assert(m.Status().Value == core.Initializing && m.Status().Error == nil, "the algorithm is initializing")
	f := m.RuntimeFigures()
	if v.life == 0 {
		n := int(f[core.PushedData])
		vk.Assert(n >= v.ended && n <= v.begun && f[core.Iterations] == 0, "the number of pushed data")
	} else {
		_, own := f["own"]
		vk.Assert(!own && f[core.Iterations] == 0 && f[core.Duration] == 0 && f[core.LastDataTime] == 0 && f[core.PushedData] == 0, "the figures of the previous life are gone")
		vk.Cover("anew")
		v.base = v.begun
	}
	v.life++
	v.made = 0
	v.seen = 0
	v.last = 100 * v.life
	return core.Clust{v.last}, nil
}

func (v *viewer) Iterate(m core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	vk.Assert(m.Conf() == core.Conf(v.conf) && m.Space() == core.Space(intSpace{}), "its configuration and space")
	vk.Assert(m.Status().Value == core.Running && m.Status().Error == nil, "the algorithm is running")
	c := m.Centroids()
	vk.Assert(len(c) == 1 && c[0].(int) == v.last, "the centroids published last")
	f := m.RuntimeFigures()
	vk.Assert(int(f[core.Iterations]) == v.made, "the number of iterations made")
	if v.made > 0 {
		_, other := f[odd(v.made-1)]
		vk.Assert(int(f["own"]) == v.last && f[odd(v.made)] == 1 && !other, "the figures of the last iteration")
		vk.Cover("followed")
	}
	n := int(f[core.PushedData])
	vk.Assert(n >= v.seen && n <= v.begun-v.base, "the number of pushed data")
	v.seen = n
	defer func() {
		if v.ended-v.base > v.seen {
			v.seen = v.ended - v.base
		}
	}()
	f["own"], f[core.Iterations] = -1, -1 // its own copy
	if v.made >= v.most {
		return nil, core.RuntimeFigures{"own": -2}, nil
	}
	if v.fails > 0 && v.made+1 == v.fails {
		return core.Clust{-1}, core.RuntimeFigures{"own": -1}, errIter
	}
	v.made++
	v.last++
	return core.Clust{v.last}, core.RuntimeFigures{"own": float64(v.last), odd(v.made): 1}, nil
}

// odd names a figure that every second iteration reports.
func odd(n int) string {
	if n%2 == 1 {
		return "odd"
	}
	return "even"
}

func (v *viewer) Push(e core.Elemt, m core.OCModel) error {
	vk.Assert(m.Conf() == core.Conf(v.conf) && m.Space() == core.Space(intSpace{}), "its configuration and space")
	if c := m.Centroids(); v.life > 0 {
		vk.Assert(len(c) == 1, "its centroids")
	} else {
		vk.Assert(len(c) == 0, "no centroids yet")
	}
	return nil
}
func (v *viewer) Copy(core.OCModel) (core.Impl, error) { return &viewer{}, nil }

// C30View: what the implementation is told, whatever the clients do.
func C30View() {
	cf := &conf{core.CtrlConf{Iter: vk.Param("iter"), DataPerIter: vk.Param("dpi")}}
	v := &viewer{conf: cf, most: vk.Param("most"), fails: vk.Param("fails")}
	a := core.NewAlgo(cf, v, intSpace{})
	prefix(vk.Param("prefix"), a)
	for i := 0; i < vk.Param("n"); i++ {
		cmd := vk.Concrete(vk.Int("cmd", 0, 4))
		if cmd == 4 {
			cmd = 5
		}
		if cmd == 5 {
			v.begun++
		}
		action(cmd, a)
		if cmd == 5 {
			v.ended++
		}
		if own := a.RuntimeFigures()["own"]; v.life > 0 {
			vk.Assert(own >= 0, "the figures are those of the last published iteration")
		}
	}
	a.Stop()
	if a.Status().Error == nil && v.life > 0 {
		c, f := a.Centroids(), a.RuntimeFigures()
		vk.Assert(len(c) == 1 && c[0].(int) == v.last, "the centroids published last")
		vk.Assert(int(f[core.Iterations]) == v.made, "the number of iterations made")
		if v.made > 0 {
			_, other := f[odd(v.made-1)]
			vk.Assert(int(f["own"]) == v.last && !other, "the figures of the last iteration")
		}
		_, label, dist := a.Predict(v.last + 7)
		vk.Assert(label == 0 && dist == 7, "predictions use the centroids published last")
		vk.Cover("published")
	}
	vk.Cover("done")
}

// watcher is a condition that looks at the model before every iteration.
type watcher struct{ f func(core.OCModel) }

func (w *watcher) IsFinished(m core.OCModel) bool {
	w.f(m)
	return false
}

// C30Kmeans: the centroids published by a run of k-means, step after step.
func C30Kmeans() {
	k, n, p, iters := vk.Param("k"), vk.Param("n"), vk.Param("p"), vk.Param("iters")
	sp := newSubSpace(k, n+p)
	clust := make(core.Clust, k)
	for i := range clust {
		clust[i] = unit(i)
	}
	all := make([]core.Elemt, n+p)
	for i := range all {
		all[i] = unit(k + i)
	}
	when := make([]int, p)
	for i := range when {
		when[i] = vk.Concrete(vk.Int("when", 0, iters-1))
	}
	var a *core.Algo
	visible, staged := append([]core.Elemt(nil), all[:n]...), []core.Elemt(nil)
	var prev core.Clust
	seen := 0
	w := &watcher{func(m core.OCModel) {
		c := m.Centroids()
		if it := int(m.RuntimeFigures()[core.Iterations]); it != seen {
			vk.Assert(it == seen+1, "one iteration at a time")
			lloyd(sp, prev, c, visible)
			visible = append(visible, staged...)
			staged = nil
			seen = it
		}
		prev = c
		for i, t := range when {
			if t == seen && seen < iters {
				vk.Assert(a.Push(all[n+i]) == nil, "pushed")
				staged = append(staged, all[n+i])
			}
		}
	}}
	cf := kmeans.Conf{CtrlConf: core.CtrlConf{Iter: iters, Finishing: w}, K: k, Par: vk.Param("par") == 1, NumCPU: 2, RGen: rand.New(vk.NewSource("r"))}
	a = kmeans.NewAlgo(cf, sp, append([]core.Elemt(nil), all[:n]...), clust.Initializer)
	vk.Assert(a.Batch() == nil, "run")
	w.f(a)
	vk.Assert(seen == iters && a.Status().Value == core.Finished, "all the iterations")
	f := a.RuntimeFigures()
	vk.Assert(int(f[core.PushedData]) == p, "the number of pushed data")
	vk.Observe("w", prev[0].(*Mem).W)
	vk.Cover("done")
}
