package h

import (
	"golang.org/x/exp/rand"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"

	"verifharness/vk"
)

// trace is what a run of an implementation gives.
type trace struct {
	clusts  []core.Clust
	figures []core.RuntimeFigures
}

func multivT(r *rand.Rand, dim int) mcmc.Distrib {
	return mcmc.NewMultivT(mcmc.MultivTConf{Dim: dim, Nu: 3, RGen: r})
}

// traced runs iterations of an algorithm over n numbers drawn from l, with the
// given draws.
func traced(kind, n, iters int, l *lcg, src rand.Source) (t trace) {
	data := make([]core.Elemt, n)
	for i := range data {
		data[i] = []float64{l.num(0, 100), l.num(0, 50)}
	}
	sp := euclid.NewSpace()
	r := rand.New(src)
	par := kind%2 == 1
	degree := vk.Param("degree")
	var a *core.Algo
	switch kind {
	case 0, 1:
		a = kmeans.NewAlgo(kmeans.Conf{K: 2, Par: par, NumCPU: degree, RGen: r}, sp, data, kmeans.PPInitializer)
	case 2:
		a = kmeans.NewAlgo(kmeans.Conf{K: 2, NumCPU: degree, RGen: r}, sp, data, kmeans.RandInitializer)
	case 4, 5:
		a = mcmc.NewAlgo(mcmc.Conf{InitK: 2, MaxK: 3, Amp: 1, B: 1, Par: par, NumCPU: degree, ProbaK: []float64{1, 1, 1}, RGen: r}, sp, data, kmeans.GivenInitializer, mcmc.NewDirac())
	case 6, 7:
		a = mcmc.NewAlgo(mcmc.Conf{InitK: 2, MaxK: 3, Amp: 1, B: 1, Par: par, NumCPU: degree, ProbaK: []float64{1, 1, 1}, RGen: r}, sp, data, kmeans.PPInitializer, multivT(r, 2))
	default:
		a = streaming.NewAlgo(streaming.Conf{BufferSize: n, OutAfter: 2, OutRatio: 1.5, RGen: r}, sp, data)
	}
	impl := a.Impl()
	model := func(st core.ClustStatus, c core.Clust) core.OCModel {
		return core.NewSimpleOCModel(a.Conf(), sp, core.NewOCStatus(st), nil, c)
	}
	cur, err := impl.Init(model(core.Initializing, nil))
	vk.Assert(err == nil, "initialized")
	t.clusts = append(t.clusts, cur)
	for i := 0; i < iters; i++ {
		next, fig, err := impl.Iterate(model(core.Running, cur))
		vk.Assert(err == nil, "iterated")
		if next != nil {
			cur = next
		}
		t.clusts, t.figures = append(t.clusts, cur), append(t.figures, fig)
	}
	return t
}

// C31Repeat: the same run twice in the same process, something else between.
func C31Repeat() {
	kind, n, iters := vk.Param("kind"), vk.Param("n"), vk.Param("iters")
	fixed := vk.Param("fixed") == 1
	var s1, s2 rand.Source = vk.NewSource("r"), vk.Twin("r")
	if fixed {
		s1, s2 = &fixedDraws{lcg{17}}, &fixedDraws{lcg{17}}
	}
	one := traced(kind, n, iters, &lcg{3}, s1)
	traced(kind, n-1, 1, &lcg{11}, &fixedDraws{lcg{23}})
	vk.Flip()
	two := traced(kind, n, iters, &lcg{3}, s2)
	for i := range one.clusts {
		x, y := one.clusts[i], two.clusts[i]
		vk.Assert(len(x) == len(y), "the same number of centroids")
		for j := range x {
			vk.Assert(nearVec(x[j].([]float64), y[j].([]float64)), "the same centroids")
		}
	}
	for i := range one.figures {
		x, y := one.figures[i], two.figures[i]
		vk.Assert(len(x) == len(y), "the same figures")
		for name := range x {
			v, ok := y[name]
			vk.Assert(ok, "the same figures")
			vk.Assert(vk.Any(v == x[name], near(v, x[name]), vk.All(v != v, x[name] != x[name])), "the same figures")
		}
	}
	vk.Observe("k", len(one.clusts[iters]))
	vk.Cover("done")
}

// sample is an element of a space.
func sample(kind, dim int, l *lcg, x float64) core.Elemt {
	v := make([]float64, dim)
	for i := range v {
		v[i] = l.num(1, 9)
	}
	if kind < 2 {
		v[dim-1] = x
		return v
	}
	s := make([][]float64, 2+l.next(3))
	for i := range s {
		s[i] = make([]float64, dim)
		for j := range s[i] {
			s[i][j] = l.num(1, 9)
		}
	}
	return s
}

func spaceOf(kind int) core.Space {
	switch kind {
	case 0:
		return euclid.NewSpace()
	case 1:
		return cosinus.NewSpace()
	case 2:
		return dtw.NewSpace(dtw.Conf{InnerSpace: euclid.NewSpace()})
	default:
		return dtw.NewSpace(dtw.Conf{InnerSpace: cosinus.NewSpace(), Window: 1})
	}
}

func scale(e core.Elemt, f float64) {
	switch v := e.(type) {
	case []float64:
		for i := range v {
			v[i] *= f
		}
		v[0] += f
	case [][]float64:
		for i := range v {
			scale(v[i], f)
		}
	}
}

func nearElemt(a, b core.Elemt) bool {
	switch v := a.(type) {
	case []float64:
		w, ok := b.([]float64)
		return ok && len(v) == len(w) && nearVec(v, w)
	case [][]float64:
		w, ok := b.([][]float64)
		if !ok || len(v) != len(w) {
			return false
		}
		for i := range v {
			if len(v[i]) != len(w[i]) || !nearVec(v[i], w[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// answers of a space for two elements.
type answers struct {
	d, e float64
	c, k core.Elemt
	dim  int
}

func ask(sp core.Space, a, b core.Elemt) answers {
	return answers{sp.Dist(a, b), sp.Dist(b, a), sp.Combine(a, 2, b, 3), sp.Copy(a), sp.Dim([]core.Elemt{a, b})}
}

func agree(x, y answers, msg string) {
	vk.Assert(vk.All(near(x.d, y.d), near(x.e, y.e)), msg)
	vk.Assert(nearElemt(x.c, y.c) && nearElemt(x.k, y.k) && x.dim == y.dim, msg)
}

// C32Seq: answers depend on nothing but the values of the arguments.
func C32Seq() {
	kind, dim := vk.Param("kind"), vk.Param("dim")
	x := vk.Float("x", 1, 9)
	mk := func(seed, dim int) core.Elemt { return sample(kind, dim, &lcg{seed}, x) }
	sp := spaceOf(kind)
	a, b := mk(1, dim), mk(2, dim)
	first := ask(sp, a, b)
	again := spaceOf(kind)
	// other elements, of other dimensions, and the results themselves
	ask(sp, mk(3, dim+2), mk(4, dim+2))
	ask(sp, mk(5, 1), mk(6, 1))
	ask(sp, first.c, first.k)
	agree(ask(sp, a, b), first, "the same answers again")
	agree(ask(again, mk(1, dim), mk(2, dim)), first, "the same answers from another space and for equal elements")
	keep := ask(sp, a, b)
	// changed in place: the answers follow the values
	scale(a, 2)
	now := mk(1, dim)
	scale(now, 2)
	agree(ask(sp, a, b), ask(again, now, mk(2, dim)), "the answers follow the values of the elements")
	agree(keep, first, "earlier answers do not change")
	scale(keep.c, 3)
	scale(keep.k, 3)
	agree(ask(sp, mk(1, dim), b), first, "the answers belong to the caller")
	vk.Assert(first.dim == dim && sp.Dim(nil) == 0, "the dimension")
	vk.Cover("done")
}

// C32Shared: several goroutines use a space on shared elements.
func C32Shared() {
	kind, n := vk.Param("kind"), vk.Param("n")
	sp := spaceOf(kind)
	mk := func(seed int) core.Elemt { return sample(kind, 2, &lcg{seed}, float64(seed)) }
	elems := []core.Elemt{mk(1), mk(2), mk(3)}
	want := make([]answers, n)
	for i := range want {
		want[i] = ask(spaceOf(kind), mk(1+i%3), mk(1+(i+1)%3))
	}
	got := make([]answers, n)
	done := make(chan bool, n)
	for i := 0; i < n; i++ {
		i := i
		go func() {
			got[i] = ask(sp, elems[i%3], elems[(i+1)%3])
			done <- true
		}()
	}
	for i := 0; i < n; i++ {
		<-done
	}
	for i := range got {
		agree(got[i], want[i], "the same answers as one after the other")
	}
	vk.Cover("done")
}

// C31Sample: samples depend on the draws and on nothing else.
func C31Sample() {
	dim, n, kind := vk.Param("dim"), vk.Param("n"), vk.Param("kind")
	var s1, s2 rand.Source = vk.NewSource("r"), vk.Twin("r")
	if vk.Param("fixed") == 1 {
		s1, s2 = &fixedDraws{lcg{17}}, &fixedDraws{lcg{17}}
	}
	at := make([]float64, dim)
	for i := range at {
		at[i] = vk.Float("m"+string(rune('0'+i)), -5, 5)
	}
	mk := func(src rand.Source) mcmc.Distrib {
		r := rand.New(src)
		if kind == 0 {
			return multivT(r, dim)
		}
		l := mcmc.NewLateDistrib(func(core.Elemt) mcmc.Distrib { return multivT(r, dim) })
		return l
	}
	draw := func(d mcmc.Distrib) (out [][]float64, pdf []float64) {
		for i := 0; i < n; i++ {
			x := d.Sample(at, 1+i).([]float64)
			out, pdf = append(out, x), append(pdf, d.Pdf(at, x, 1+i))
		}
		return out, pdf
	}
	one, p := draw(mk(s1))
	other := multivT(rand.New(&fixedDraws{lcg{29}}), dim+1)
	other.Sample(make([]float64, dim+1), 2)
	vk.Flip()
	two, q := draw(mk(s2))
	for i := range one {
		vk.Assert(nearVec(one[i], two[i]), "the same samples")
		vk.Assert(near(p[i], q[i]), "the same densities")
	}
	vk.Cover("done")
}
