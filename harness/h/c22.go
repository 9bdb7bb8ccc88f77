package h

import (
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"

	"golang.org/x/exp/rand"

	"verifharness/vk"
)

// read uses every reader.
func read(what int, a *core.Algo) {
	switch what {
	case 0:
		for _, c := range a.Centroids() {
			_ = c
		}
	case 1:
		for _, v := range a.RuntimeFigures() {
			_ = v
		}
	case 2:
		a.Predict(unit(0))
	case 3:
		a.Status()
		a.Conf().Ctrl()
		a.Impl()
		a.Space()
	case 4:
		a.Push(unit(1))
	case 5:
		a.Wait(nil, time.Millisecond)
	}
}

// real makes an algorithm of the library over two elements.
func real(kind int, ctrl core.CtrlConf, data []core.Elemt) *core.Algo {
	rgen := rand.New(vk.NewSource("rgen"))
	switch kind {
	case 0, 1:
		cf := kmeans.Conf{CtrlConf: ctrl, K: 1, NumCPU: 1, Par: kind == 1, RGen: rgen}
		return kmeans.NewAlgo(cf, setSpace{}, data, kmeans.GivenInitializer)
	case 2:
		cf := streaming.Conf{CtrlConf: ctrl, BufferSize: 4, RGen: rgen}
		return streaming.NewAlgo(cf, setSpace{}, data)
	default:
		cf := mcmc.Conf{CtrlConf: ctrl, InitK: 1, MaxK: 1, Amp: 1, NumCPU: 1, RGen: rgen, Par: kind == 4}
		return mcmc.NewAlgo(cf, setSpace{}, data, kmeans.GivenInitializer, mcmc.NewDirac())
	}
}

func datas(kind int) []core.Elemt {
	if kind == 2 {
		return []core.Elemt{unit(0), unit(1)}
	}
	return []core.Elemt{unit(0)}
}

// C22Race: readers and pushers in other goroutines do not race with the
// controlling client nor with the run.
func C22Race() {
	what := vk.Concrete(vk.Int("what", vk.Param("lo"), vk.Param("hi")))
	cmd := vk.Concrete(vk.Int("cmd", 0, 6))
	c := &ctl{max: 2, allowed: true, dataPush: true}
	a := core.NewAlgo(&conf{core.CtrlConf{Iter: vk.Param("iter"), Timeout: time.Duration(vk.Param("timeout"))}}, c, setSpace{})
	prefix(vk.Param("prefix"), a)
	done := make(chan bool, 1)
	go func() {
		readCtl(what, a)
		done <- true
	}()
	action(cmd, a)
	<-done
	vk.Cover("done")
}

func readCtl(what int, a *core.Algo) {
	if what == 2 {
		cl := a.Centroids()
		cl.Assign(1, intSpace{})
		return
	}
	read(what, a)
}

// C22Real: the same with the implementations of the library.
func C22Real() {
	kind := vk.Param("kind")
	what := vk.Concrete(vk.Int("what", vk.Param("lo"), vk.Param("hi")))
	cmd := -1
	if vk.Param("cmds") == 1 {
		cmd = vk.Concrete(vk.Int("cmd", 0, 5))
	}
	a := real(kind, core.CtrlConf{Iter: vk.Param("iter")}, datas(kind))
	prefix(vk.Param("prefix"), a)
	done := make(chan bool, 1)
	go func() {
		read(what, a)
		done <- true
	}()
	switch {
	case cmd == 5:
		a.Push(unit(2))
	case cmd >= 0:
		action(cmd, a)
	}
	<-done
	vk.Cover("done")
}

// snap is a deep copy of a result.
type snap struct {
	clust   core.Clust
	elems   []core.Elemt
	members []Mem
	figs    core.RuntimeFigures
	copied  map[string]float64
}

func take(a *core.Algo) (s snap) {
	s.clust = a.Centroids()
	for _, c := range s.clust {
		s.elems = append(s.elems, c)
		s.members = append(s.members, *c.(*Mem))
	}
	s.figs = a.RuntimeFigures()
	s.copied = map[string]float64{}
	for k, v := range s.figs {
		s.copied[k] = v
	}
	return
}

func (s snap) check() {
	vk.Assert(len(s.clust) == len(s.elems), "the number of centroids of a result does not change")
	for i, c := range s.clust {
		vk.Assert(c == s.elems[i], "the centroids of a result are not replaced")
		vk.Assert(*c.(*Mem) == s.members[i], "the centroids of a result are not modified")
	}
	vk.Assert(len(s.figs) == len(s.copied), "no figures appear in a result")
	for k, v := range s.copied {
		vk.Assert(s.figs[k] == v, "the figures of a result do not change")
	}
}

// C22Snapshot: results obtained at any moment stay as they are.
func C22Snapshot() {
	kind, iter := vk.Param("kind"), vk.Param("iter")
	cmd := vk.Concrete(vk.Int("cmd", 0, 4))
	a := real(kind, core.CtrlConf{Iter: iter}, datas(kind))
	prefix(vk.Param("prefix"), a)
	first := take(a)
	got := make(chan snap, 1)
	go func() {
		s := take(a)
		s.check()
		got <- s
	}()
	a.Push(unit(2))
	if cmd > 0 && (cmd < 4 || kind != 2) {
		action(cmd, a)
	}
	s := <-got
	second := take(a)
	a.Push(unit(3))
	if a.Status().Value == core.Idle {
		a.Play()
	}
	if kind == 2 { // a streaming run has no end once the data is used up
		a.Stop()
		a.Push(unit(0))
		a.Play()
	} else {
		a.Wait(nil, 0)
		a.Conf().Ctrl().Iter += 2
		if a.Play() == nil {
			a.Wait(nil, 0)
		}
	}
	third := take(a)
	a.Stop()
	a.Play()
	a.Stop()
	first.check()
	s.check()
	second.check()
	third.check()
	vk.Cover("done")
}

// C22Consistent: what is read belongs to one iteration.
func C22Consistent() {
	iter := vk.Param("iter")
	c := &ctl{max: 100, allowed: true, dataPush: true}
	a := core.NewAlgo(&conf{core.CtrlConf{Iter: iter}}, c, nil)
	vk.Assert(a.Play() == nil, "started")
	done := make(chan bool, 1)
	go func() {
		for i := 0; i < vk.Param("pushes"); i++ {
			a.Push(i)
		}
		done <- true
	}()
	last, pushed := 0, 0
	for i := 0; i < vk.Param("reads"); i++ {
		f := a.RuntimeFigures()
		n := int(f[core.Iterations])
		made, ok := f["made"]
		vk.Assert(n == 0 || ok, "the figures of the implementation stay")
		vk.Assert(!ok || int(made) == n, "the figures belong to one iteration")
		vk.Assert(n >= last, "figures do not go back")
		vk.Assert(int(f[core.PushedData]) >= pushed, "figures do not go back")
		pushed = int(f[core.PushedData])
		cl := a.Centroids()
		vk.Assert(len(cl) == 1, "one result")
		k := cl[0].(int) - 100
		vk.Assert(n <= k && k <= iter, "the centroids are those of that iteration or of a later one")
		last = k
	}
	<-done
	vk.Assert(a.Wait(nil, 0) == nil, "ends")
	f := a.RuntimeFigures()
	vk.Assert(int(f["made"]) == iter && int(f[core.Iterations]) == iter && int(f[core.PushedData]) == vk.Param("pushes"), "the final figures are those of the last iteration")
	vk.Assert(a.Centroids()[0] == 100+iter, "the final centroids are those of the last iteration")
	vk.Cover("done")
}
