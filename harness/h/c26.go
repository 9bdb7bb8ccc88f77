package h

import (
	"golang.org/x/exp/rand"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"

	"verifharness/vk"
)

// otherSpace is a space that is not the original one; it counts its uses.
type otherSpace struct {
	setSpace
	uses *int
}

func (s otherSpace) Dist(a, b core.Elemt) float64 {
	*s.uses++
	return s.setSpace.Dist(a, b)
}

// config is a configuration of a kind of algorithm.
func config(kind, iter, frame int, name string) core.Conf {
	ctrl := core.CtrlConf{Iter: iter}
	rgen := rand.New(vk.NewSource(name))
	switch kind {
	case 0, 1:
		return &kmeans.Conf{CtrlConf: ctrl, K: 1, NumCPU: 1, Par: kind == 1, RGen: rgen, FrameSize: frame}
	case 2:
		return &streaming.Conf{CtrlConf: ctrl, BufferSize: 4, RGen: rgen}
	}
	return &mcmc.Conf{CtrlConf: ctrl, InitK: 1, MaxK: 1, Amp: 1, NumCPU: 1, RGen: rgen, Par: kind == 4, FrameSize: frame, ProbaK: []float64{0, 1, 0}}
}

func algo(conf core.Conf, sp core.Space, data []core.Elemt) *core.Algo {
	switch c := conf.(type) {
	case *kmeans.Conf:
		return kmeans.NewAlgo(*c, sp, data, kmeans.GivenInitializer)
	case *streaming.Conf:
		return streaming.NewAlgo(*c, sp, data)
	case *mcmc.Conf:
		return mcmc.NewAlgo(*c, sp, data, kmeans.GivenInitializer, mcmc.NewDirac())
	}
	return nil
}

func last(v []core.Elemt, n int) []core.Elemt {
	if n > 0 && len(v) > n {
		return v[len(v)-n:]
	}
	return v
}

func sum(v []core.Elemt) (s int) {
	for _, e := range v {
		s += e.(*Mem).Set
	}
	return
}

// state is what can be seen of an algorithm.
type state struct {
	snap
	status core.OCStatus
}

func see(a core.OnlineClust) state {
	return state{take(a.(*core.Algo)), a.Status()}
}

// same checks that nothing changed since.
func (s state) same(a core.OnlineClust) {
	s.check()
	now := see(a)
	vk.Assert(now.status == s.status, "the status of the other does not change")
	vk.Assert(len(now.clust) == len(s.clust), "the centroids of the other do not change")
	for i := range now.clust {
		vk.Assert(now.clust[i] == s.clust[i] && *now.clust[i].(*Mem) == s.members[i], "the centroids of the other do not change")
	}
	vk.Assert(len(now.copied) == len(s.copied), "the figures of the other do not change")
	for k, v := range s.copied {
		vk.Assert(now.copied[k] == v, "the figures of the other do not change")
	}
}

// C26Copy: a copy holds the visible data and is independent.
func C26Copy() {
	kind, frame, pushed := vk.Param("kind"), vk.Param("frame"), vk.Param("pushed")
	frame2 := vk.Param("frame2") // of the copy
	when := vk.Concrete(vk.Int("when", 0, 3))
	data := []core.Elemt{unit(0), unit(1)}
	next := 2
	fresh := func() core.Elemt {
		next++
		return unit(next - 1)
	}
	a := algo(config(kind, 1, frame, "a"), setSpace{}, data)
	visible := append([]core.Elemt(nil), data...)
	push := func(n int) {
		for i := 0; i < n; i++ {
			e := fresh()
			vk.Assert(a.Push(e) == nil, "pushed")
			visible = append(visible, e)
		}
	}
	push(pushed)
	run := func(a core.OnlineClust) {
		vk.Assert(a.Play() == nil, "started")
		vk.Assert(a.Wait(nil, 0) == nil, "run")
	}
	switch when {
	case 0:
		// not started
	case 1:
		vk.Assert(a.Init() == nil, "initialized")
	case 2:
		run(a)
	case 3:
		run(a)
		vk.Assert(a.Stop() == nil, "stopped")
		push(1)
	}
	before := see(a)
	uses := 0
	sp := otherSpace{uses: &uses}
	cf := config(kind, 2, frame2, "b")
	b, err := a.Copy(cf, sp)
	vk.Assert(err == nil && b != nil, "copied")
	vk.Assert(b.(*core.Algo) != a && b.Conf() == cf && b.Space() == core.Space(sp) && b.Impl() != a.Impl(), "the copy has the given configuration and space")
	st := b.Status()
	vk.Assert(st.Value == core.Created && st.Error == nil && len(b.Centroids()) == 0, "the copy is not started")
	f := b.RuntimeFigures()
	vk.Assert(f[core.Iterations] == 0 && f[core.PushedData] == 0, "the copy starts from zero")
	before.same(a)
	uses2 := 0
	b2, err := a.Copy(config(kind, 1, frame, "c"), otherSpace{uses: &uses2})
	vk.Assert(err == nil, "copied again")
	// the copy goes on alone
	own := append([]core.Elemt(nil), last(visible, frame)...)
	extra := vk.Concrete(vk.Int("extra", 0, 2))
	for i := 0; i < extra; i++ {
		e := fresh()
		vk.Assert(b.Push(e) == nil, "pushed to the copy")
		own = append(last(own, frame2), e)
	}
	before.same(a)
	e := fresh()
	vk.Assert(b2.Push(e) == nil, "pushed to the other copy")
	own2 := append(append([]core.Elemt(nil), visible...), e)
	run(b)
	before.same(a)
	vk.Assert(uses > 0, "the copy uses the given space")
	c := b.Centroids()
	vk.Assert(len(c) == 1 && c[0].(*Mem).Set == sum(last(own, frame2)), "the copy holds the data of the original, and what was pushed to it")
	vk.Assert(b.RuntimeFigures()[core.Iterations] == 2 && b.RuntimeFigures()[core.PushedData] == float64(extra), "the copy counts its own")
	// the original goes on alone
	after := see(b)
	a.Stop()
	push(1)
	run(a)
	after.same(b)
	used := last(visible, frame)
	got := a.Centroids()[0].(*Mem).Set
	vk.Assert(got == sum(used), "the original works on its own data")
	run(b2)
	after.same(b)
	vk.Assert(b2.Centroids()[0].(*Mem).Set == sum(last(own2, frame)), "each copy works on its own data")
	vk.Cover("done")
}

// freeSpace does not watch weights.
type freeSpace struct{ otherSpace }

func (freeSpace) Combine(a core.Elemt, w1 int, b core.Elemt, w2 int) core.Elemt {
	var x, y = a.(*Mem), b.(*Mem)
	return &Mem{-1, x.Set + y.Set, x.W + y.W}
}

// C26Stream: the copy of a streaming algorithm holds its centers.
func C26Stream() {
	n := vk.Param("n")
	started := vk.Concrete(vk.Int("started", 0, 2))
	var data []core.Elemt
	for i := 0; i < n; i++ {
		data = append(data, unit(i))
	}
	a := streaming.NewAlgo(streaming.Conf{CtrlConf: core.CtrlConf{Iter: n - 1}, BufferSize: n, Mu: 1, Sigma: 0.25, RGen: rand.New(vk.NewSource("a"))}, setSpace{}, data)
	if started > 0 {
		vk.Assert(a.Play() == nil, "started")
		vk.Assert(a.Wait(nil, 0) == nil, "run")
		if started == 2 {
			vk.Assert(a.Stop() == nil, "stopped")
		}
	}
	before := see(a)
	uses := 0
	sp := freeSpace{otherSpace{uses: &uses}}
	k := len(before.clust)
	cf := &streaming.Conf{CtrlConf: core.CtrlConf{Iter: k}, BufferSize: n + 1, Mu: 1, Sigma: 0.25, RGen: rand.New(vk.NewSource("b"))}
	b, err := a.Copy(cf, sp)
	vk.Assert(err == nil && b.Conf() == core.Conf(cf) && b.Space() == core.Space(sp), "copied")
	vk.Assert(b.Status().Value == core.Created && len(b.Centroids()) == 0, "the copy is not started")
	before.same(a)
	all := 0
	for _, c := range before.clust {
		all += c.(*Mem).Set
	}
	if k == 0 {
		vk.Assert(b.Init() != nil, "there is nothing to start from")
		vk.Cover("empty")
		before.same(a)
		return
	}
	vk.Assert(b.Push(unit(n)) == nil, "pushed to the copy")
	vk.Assert(b.Play() == nil, "the copy is started")
	vk.Assert(b.Wait(nil, 0) == nil, "the copy runs")
	before.same(a)
	got := 0
	for _, c := range b.Centroids() {
		got += c.(*Mem).Set
	}
	vk.Assert(got == all+unit(n).Set, "the copy holds the centers of the original, and what was pushed to it")
	if k > 1 {
		vk.Cover("many")
	}
	after := see(b)
	a.Stop()
	vk.Assert(a.Push(unit(n)) == nil, "pushed to the original")
	after.same(b)
	vk.Cover("done")
}

// C26Race: an algorithm is copied while it runs.
func C26Race() {
	kind := vk.Param("kind")
	a := real(kind, core.CtrlConf{Iter: vk.Param("iter")}, datas(kind))
	prefix(vk.Param("prefix"), a)
	done := make(chan bool, 1)
	go func() {
		a.Push(unit(2))
		done <- true
	}()
	cf := config(kind, 1, 0, "b")
	uses := 0
	b, err := a.Copy(cf, freeSpace{otherSpace{uses: &uses}})
	vk.Assert(err == nil && b.Status().Value == core.Created, "copied")
	b.Push(unit(3))
	if err := b.Init(); err == nil {
		vk.Assert(len(b.Centroids()) == 1, "the copy is initialized")
	}
	<-done
	vk.Cover("done")
}

// C26Alone: a run with copies made and used on the way gives what it gives
// without.
func C26Alone() {
	kind, n, iters, degree := vk.Param("kind"), vk.Param("n"), vk.Param("iters"), vk.Param("degree")
	sp := euclid.NewSpace()
	model := func(cf core.Conf, st core.ClustStatus, c core.Clust) core.OCModel {
		return core.NewSimpleOCModel(cf, sp, core.NewOCStatus(st), nil, c)
	}
	run := func(copies bool) (t trace) {
		l := &lcg{7}
		conf := func(seed int) core.Conf {
			r := rand.New(&fixedDraws{lcg{seed}})
			switch kind {
			case 0, 1:
				return &kmeans.Conf{K: 3, Par: kind == 1, NumCPU: degree, RGen: r, FrameSize: n}
			case 3, 4:
				return &mcmc.Conf{InitK: 2, MaxK: 5, Amp: .5, B: 1, Norm: 2, Par: kind == 4, NumCPU: degree, ProbaK: []float64{1, 1, 1}, RGen: r, FrameSize: n}
			}
			return &streaming.Conf{BufferSize: n, OutAfter: 2, OutRatio: 1.2, RGen: r}
		}
		data := make([]core.Elemt, n)
		point := func() core.Elemt { return []float64{l.num(0, 100), l.num(0, 50)} }
		for i := range data {
			data[i] = point()
		}
		var a *core.Algo
		cf := conf(17)
		switch c := cf.(type) {
		case *kmeans.Conf:
			a = kmeans.NewAlgo(*c, sp, data, kmeans.PPInitializer)
		case *mcmc.Conf:
			a = mcmc.NewAlgo(*c, sp, data, kmeans.PPInitializer, mcmc.NewDirac())
		case *streaming.Conf:
			a = streaming.NewAlgo(*c, sp, data[:3])
		}
		drive := func(impl core.Impl, cf core.Conf, cur core.Clust, iters int, out *trace) core.Clust {
			for i := 0; i < iters; i++ {
				vk.Assert(impl.Push(point(), model(cf, core.Running, cur)) == nil, "pushed")
				next, fig, err := impl.Iterate(model(cf, core.Running, cur))
				vk.Assert(err == nil, "iterated")
				if next != nil {
					cur = next
				}
				out.clusts, out.figures = append(out.clusts, cur), append(out.figures, fig)
			}
			return cur
		}
		impl := a.Impl()
		cur, err := impl.Init(model(a.Conf(), core.Initializing, nil))
		vk.Assert(err == nil, "initialized")
		for round := 0; round < 2; round++ {
			cur = drive(impl, a.Conf(), cur, iters, &t)
			if copies {
				keep := *l
				other := core.NewSimpleOCModel(conf(29+round), sp, core.NewOCStatus(core.Running), nil, cur)
				b, err := impl.Copy(other)
				vk.Assert(err == nil, "copied")
				var its trace
				c, err := b.Init(model(other.Conf(), core.Initializing, nil))
				vk.Assert(err == nil, "the copy is initialized")
				drive(b, other.Conf(), c, iters, &its)
				*l = keep
			}
		}
		drive(impl, a.Conf(), cur, iters, &t)
		return t
	}
	one, two := run(false), run(true)
	sizes := map[int]bool{}
	for i := range one.clusts {
		x, y := one.clusts[i], two.clusts[i]
		vk.Assert(len(x) == len(y), "the same number of centroids")
		for j := range x {
			vk.Assert(nearVec(x[j].([]float64), y[j].([]float64)), "the same centroids")
		}
		sizes[len(x)] = true
	}
	for i := range one.figures {
		for name, v := range one.figures[i] {
			w, ok := two.figures[i][name]
			vk.Assert(ok && (near(v, w) || v == w || v != v && w != w), "the same figures")
		}
	}
	vk.Observe("sizes", len(sizes))
	vk.Cover("done")
}
