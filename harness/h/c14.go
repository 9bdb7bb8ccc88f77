package h

import (
	"math"

	"golang.org/x/exp/rand"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"

	"verifharness/vk"
)

// Ctr is an element of mcmc harnesses: its distances and density depend on
// its number only. Numbers below n are data elements, then come the initial
// centers, the sampled ones and the barycenters of subsets of the data.
type Ctr struct {
	N    int // number
	Mask int // combined elements
	W    int
}

// world is a space and a distribution with arbitrary distances and densities.
type world struct {
	n, first, samples, dim int
	d, p                   []float64
	sampled                []core.Elemt
	around                 []core.Elemt
	times                  []int
	asked                  int
}

// newWorld has n elements, k initial centers and room for some samples.
func newWorld(n, k, samples, dim int) *world {
	w := &world{n: n, first: k, samples: samples, dim: dim}
	for i := 0; i < w.size(); i++ {
		for j := 0; j < n; j++ {
			w.d = append(w.d, vk.Float("d", 0, 1000))
		}
		w.p = append(w.p, vk.Float("p", -1000, 1000))
	}
	return w
}

func (w *world) size() int { return w.n + w.first + w.samples + 1<<uint(w.n) }

func (w *world) datum(i int) *Ctr   { return &Ctr{i, 1 << uint(i), 1} }
func (w *world) initial(i int) *Ctr { return &Ctr{w.n + i, 0, 1} }

func (w *world) at(i int, c *Ctr) float64 { return w.d[c.N*w.n+i] }

func (w *world) Dist(a, b core.Elemt) float64 {
	x := a.(*Ctr)
	vk.Assert(x.N < w.n, "distances are taken from a data element")
	return w.at(x.N, b.(*Ctr))
}

func (w *world) Combine(a core.Elemt, w1 int, b core.Elemt, w2 int) core.Elemt {
	x, y := a.(*Ctr), b.(*Ctr)
	vk.Assert(w1 == x.W && w2 == y.W && x.Mask&y.Mask == 0, "each element is combined once with its weight")
	return w.bary(x.Mask | y.Mask)
}

func (w *world) bary(mask int) *Ctr {
	c := &Ctr{w.n + w.first + w.samples + mask, mask, 0}
	for i := 0; i < w.n; i++ {
		if mask>>uint(i)&1 == 1 {
			c.W++
			c.N = i
		}
	}
	if c.W > 1 {
		c.N = w.n + w.first + w.samples + mask
	}
	return c
}

func (w *world) Copy(a core.Elemt) core.Elemt {
	x := *a.(*Ctr)
	return &x
}

func (w *world) Dim([]core.Elemt) int { return w.dim }

// Sample gives a center of its own.
func (w *world) Sample(mu core.Elemt, time int) core.Elemt {
	c := &Ctr{w.n + w.first + w.asked, 0, 1}
	vk.Assume(w.asked < w.samples)
	w.asked++
	w.sampled = append(w.sampled, c)
	w.around = append(w.around, mu)
	w.times = append(w.times, time)
	return c
}

func (w *world) Pdf(mu, x core.Elemt, time int) float64 {
	return w.p[x.(*Ctr).N]
}

// step is one Lloyd step and the loss before and after.
func (w *world) step(c core.Clust, n int) core.Clust {
	masks := make([]int, len(c))
	for i := 0; i < n; i++ {
		masks[w.nearest(c, i)] |= 1 << uint(i)
	}
	out := make(core.Clust, len(c))
	for i := range c {
		out[i] = c[i]
		if masks[i] != 0 {
			out[i] = w.bary(masks[i])
		}
	}
	return out
}

func (w *world) nearest(c core.Clust, i int) int {
	best := 0
	for j := 1; j < len(c); j++ {
		if w.at(i, c[j].(*Ctr)) < w.at(i, c[best].(*Ctr)) {
			best = j
		}
	}
	return best
}

func (w *world) loss(c core.Clust, n, norm int) float64 {
	sum := 0.
	for i := 0; i < n; i++ {
		d := w.at(i, c[w.nearest(c, i)].(*Ctr))
		if norm == 2 {
			d *= d
		}
		sum += d
	}
	return sum
}

func (w *world) pdf(c core.Clust) float64 {
	sum := 0.
	for i := range c {
		sum += w.p[c[i].(*Ctr).N]
	}
	return sum
}

// C14Step: iterations of mcmc against the acceptance rule.
func C14Step() {
	n, k, maxk, norm, iters := vk.Param("n"), vk.Param("k"), vk.Param("maxk"), vk.Param("norm"), vk.Param("iters")
	move, p := vk.Param("move"), vk.Param("p")
	w := newWorld(n+p, k, iters*maxk, vk.Param("dim"))
	amp, b := float64(vk.Param("amp"))/2, float64(vk.Param("b"))/2
	src := vk.NewSource("r")
	proba := []float64{0, 0, 0}
	if move < 3 {
		proba[move] = 1
	} else {
		proba = []float64{1, 2, 1}
	}
	cf := mcmc.Conf{InitK: k, MaxK: maxk, Amp: amp, B: b, Norm: float64(norm), ProbaK: proba, NumCPU: vk.Param("degree"), Par: vk.Param("par") == 1, RGen: rand.New(src)}
	clust := make(core.Clust, k)
	for i := range clust {
		clust[i] = w.initial(i)
	}
	data := make([]core.Elemt, n)
	for i := range data {
		data[i] = w.datum(i)
	}
	a := mcmc.NewAlgo(cf, w, data, clust.Initializer, w)
	impl := a.Impl()
	model := func(st core.ClustStatus, c core.Clust) core.OCModel {
		return core.NewSimpleOCModel(a.Conf(), w, core.NewOCStatus(st), nil, c)
	}
	cur, err := impl.Init(model(core.Initializing, nil))
	vk.Assert(err == nil && len(cur) == k, "initialized")
	loss, pdf := w.loss(cur, n, norm), w.pdf(cur)
	stored := map[int]core.Clust{}
	acc := 0
	for it := 0; it < iters; it++ {
		w.sampled, w.around, w.times = nil, nil, nil
		m := model(core.Running, cur)
		if it == 0 {
			for i := 0; i < p; i++ {
				vk.Assert(impl.Push(w.datum(n+i), m) == nil, "a push succeeds")
			}
		}
		keep := append(core.Clust(nil), cur...)
		got, fig, err := impl.Iterate(m)
		vk.Assert(err == nil, "no error")
		// the proposal
		kp := len(w.sampled)
		vk.Assert(kp >= 1 && kp <= maxk && kp <= n, "the proposed count is within bounds")
		vk.Assert(kp-len(keep) <= 1 && len(keep)-kp <= 1, "the proposed count changes by at most one")
		if move == 0 {
			vk.Assert(kp == len(keep)-1 || kp == 1 && len(keep) == 1, "a decrease is proposed")
		}
		if move == 1 {
			vk.Assert(kp == len(keep), "the same count is proposed")
		}
		if move == 2 {
			full := len(keep) == maxk || len(keep) == n
			vk.Assert(kp == len(keep)+1 || full || w.covered(keep, n), "an increase is proposed")
		}
		w.derived(keep, stored, kp, n)
		for _, t := range w.times {
			vk.Assert(t == n, "the time is the amount of data")
		}
		prop := w.step(w.sampled, n)
		ploss, ppdf := w.loss(prop, n, norm), w.pdf(prop)
		// the rule
		lambda := amp * math.Sqrt(float64(w.dim+3)/float64(n))
		rho := math.Exp(lambda*(loss-ploss) + math.Log(2*b)*float64(w.dim*(len(keep)-kp)) + (pdf - ppdf))
		// compared with room for rounding
		surely, maybe := src.Last() < rho*(1-1e-6), src.Last() < rho*(1+1e-6)
		na, has := fig[mcmc.Acceptations]
		vk.Assert(has, "the acceptance counter is reported")
		if na == float64(acc) {
			vk.Assert(!surely, "a proposal is accepted when the draw is below the ratio")
			vk.Assert(len(got) == len(keep), "a rejection leaves the count")
			for i := range got {
				vk.Assert(got[i] == keep[i], "a rejection leaves the published centroids")
			}
			vk.Cover("rejected")
		} else {
			vk.Assert(maybe, "a proposal is accepted only when the draw is below the ratio")
			vk.Assert(na == float64(acc+1), "the counter counts acceptances")
			vk.Assert(len(got) == kp, "the published centroids number the accepted count")
			for i := range got {
				x, y := got[i].(*Ctr), prop[i].(*Ctr)
				vk.Assert(x.N == y.N && x.Mask == y.Mask, "an acceptance publishes the proposal")
			}
			acc++
			loss, pdf = ploss, ppdf
			stored[kp] = got
			vk.Cover("accepted")
			if kp > len(keep) {
				vk.Cover("more")
			}
			if kp < len(keep) {
				vk.Cover("less")
			}
		}
		vk.Assert(fig[mcmc.Time] >= float64(n) && fig[mcmc.Time] <= float64(n), "the time is reported")
		for i := range keep {
			vk.Assert(cur[i] == keep[i], "the previous centroids are not modified")
		}
		cur = got
		n = n + p
		p = 0
	}
	for i := range data {
		x := data[i].(*Ctr)
		vk.Assert(x.N == i && x.Mask == 1<<uint(i) && x.W == 1, "the data is not modified")
	}
	vk.Observe("k", len(cur))
}

// covered tells that every element is at distance zero from the centers.
func (w *world) covered(c core.Clust, n int) bool {
	all := true
	for i := 0; i < n; i++ {
		some := false
		for j := range c {
			some = vk.Any(some, w.at(i, c[j].(*Ctr)) == 0)
		}
		all = vk.All(all, some)
	}
	return all
}

// derived checks what the samples were taken around.
func (w *world) derived(prev core.Clust, stored map[int]core.Clust, kp, n int) {
	if s, ok := stored[kp]; ok {
		for i := range s {
			vk.Assert(w.around[i] == s[i], "the centers last accepted for this count are used again")
		}
		vk.Cover("stored")
		return
	}
	same := func(a core.Elemt, b core.Elemt) bool {
		x, y := a.(*Ctr), b.(*Ctr)
		return x.N == y.N && x.Mask == y.Mask
	}
	switch {
	case kp == len(prev):
		for i := range prev {
			vk.Assert(same(w.around[i], prev[i]), "the current centers are used")
		}
	case kp > len(prev):
		for i := range prev {
			vk.Assert(same(w.around[i], prev[i]), "the current centers are used")
		}
		x := w.around[kp-1].(*Ctr)
		vk.Assert(x.N < n, "a data element is added")
		for i := range prev {
			vk.Assert(w.at(x.N, prev[i].(*Ctr)) > 0, "the added element is at positive distance")
		}
	default:
		j := 0
		for i := range prev {
			if j < kp && same(w.around[j], prev[i]) {
				j++
			}
		}
		vk.Assert(j == kp, "all but one of the current centers are used in order")
	}
}

var _ = kmeans.GivenInitializer
