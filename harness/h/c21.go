package h

import (
	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/kmeans"

	"golang.org/x/exp/rand"

	"verifharness/vk"
)

// setSpace has one distance for all; combinations remember their members.
type setSpace struct{}

func (setSpace) Dist(a, b core.Elemt) float64 { return 1 }
func (setSpace) Combine(a core.Elemt, w1 int, b core.Elemt, w2 int) core.Elemt {
	var x, y = a.(*Mem), b.(*Mem)
	vk.Assert(w1 == x.W, "the first weight is the weight gathered so far")
	vk.Assert(w2 == y.W, "the second weight is the weight of the combined element")
	return &Mem{-1, x.Set + y.Set, x.W + y.W}
}
func (setSpace) Copy(a core.Elemt) core.Elemt {
	var x = a.(*Mem)
	return &Mem{x.ID, x.Set, x.W}
}
func (setSpace) Dim([]core.Elemt) int { return 1 }

// C21Count: every accepted push counts once, a refused one does not.
func C21Count() {
	n1, n2 := vk.Param("n1"), vk.Param("n2")
	reject := make([]bool, n1+n2)
	for i := range reject {
		reject[i] = vk.Concrete(vk.IteInt(vk.Bool("reject"), 1, 0)) == 1
	}
	cmd := vk.Concrete(vk.Int("cmd", 1, 4))
	c := &ctl{max: 1, allowed: true, reject: reject, dataPush: true}
	a := core.NewAlgo(&conf{core.CtrlConf{Iter: 1}}, c, nil)
	prefix(vk.Param("prefix"), a)
	accepted := make(chan int, 2)
	push := func(n int) {
		ok := 0
		for i := 0; i < n; i++ {
			before := figure(a, core.PushedData)
			err := a.Push(i)
			after := figure(a, core.PushedData)
			if err == nil {
				ok++
				vk.Assert(after >= before+1, "an accepted push is counted when it returns")
			} else {
				vk.Assert(err == errPush, "the error of the implementation is returned")
				vk.Assert(n2 > 0 || after == before, "a refused push changes nothing")
			}
		}
		accepted <- ok
	}
	if n2 > 0 {
		go push(n2)
	}
	go push(n1)
	if cmd != 3 { // not stop, as starting again resets the figures
		action(cmd, a)
	}
	total := <-accepted
	if n2 > 0 {
		total += <-accepted
	}
	vk.Assert(figure(a, core.PushedData) == total, "the figure is the number of accepted pushes")
	vk.Assert(c.pushes == n1+n2, "each push reaches the implementation once")
	if s := a.Status(); s.Value == core.Idle {
		a.Play()
	}
	a.Wait(nil, 0)
	vk.Assert(figure(a, core.PushedData) == total, "iterating does not change the figure")
	vk.Cover("done")
}

// C21Data: every pushed element takes part in a later iteration, once.
func C21Data() {
	n1, n2, n3 := vk.Param("n1"), vk.Param("n2"), vk.Param("cmds")
	frame := vk.Param("frame")
	cmds := make([]int, n3)
	for i := range cmds {
		cmds[i] = vk.Concrete(vk.Int("cmd", 0, 4))
	}
	cf := kmeans.Conf{K: 1, FrameSize: frame, NumCPU: 1, Par: vk.Param("par") == 1, RGen: rand.New(vk.NewSource("rgen"))}
	cf.Iter = vk.Param("iter")
	cf.IterPerData = vk.Param("ipd")
	a := kmeans.NewAlgo(cf, setSpace{}, []core.Elemt{unit(0)}, kmeans.GivenInitializer)
	prefix(vk.Param("prefix"), a)
	done := make(chan bool, 2)
	push := func(from, n int) {
		for i := 0; i < n; i++ {
			vk.Assert(a.Push(unit(from+i)) == nil, "pushed")
		}
		done <- true
	}
	if n2 > 0 {
		go push(1+n1, n2)
	}
	go push(1, n1)
	for _, cmd := range cmds {
		action(cmd, a)
	}
	<-done
	if n2 > 0 {
		<-done
	}
	if a.Status().Value == core.Idle {
		a.Play()
	}
	a.Wait(nil, 0)
	a.Conf().Ctrl().Iter += 2
	vk.Assert(a.Play() == nil, "two more iterations")
	vk.Assert(a.Wait(nil, 0) == nil, "two more iterations")
	cl := a.Centroids()
	vk.Assert(len(cl) == 1, "one centroid")
	got := set(cl[0])
	all := 0
	for i := 0; i <= n1+n2; i++ {
		all += unit(i).Set
	}
	switch {
	case frame == 0:
		vk.Assert(got == all, "every pushed element takes part exactly once")
	case n2 == 0:
		want := 0
		for i := 0; i < frame; i++ {
			want += unit(n1 - i).Set
		}
		vk.Assert(got == want, "the last elements, in the order of the pushes")
	default: // frame 2, two pushers of two elements
		a1, a2, b1, b2 := unit(1).Set, unit(2).Set, unit(3).Set, unit(4).Set
		vk.Assert(got == a1+a2 || got == b1+b2 || got == a2+b2, "the last elements, in the order of the pushes of each goroutine")
	}
	vk.Cover("done")
}

// gated is an implementation whose iterations wait for the client.
type gated struct {
	gate chan bool
	made int
}

func (g *gated) Init(core.OCModel) (core.Clust, error) { return core.Clust{0}, nil }
func (g *gated) Iterate(core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	<-g.gate
	g.made++
	return core.Clust{g.made}, nil, nil
}
func (g *gated) Push(core.Elemt, core.OCModel) error  { return nil }
func (g *gated) Copy(core.OCModel) (core.Impl, error) { return g, nil }

// C21Threshold: with a data threshold a push restarts a ready algorithm.
// Pushes at every moment of the life cycle count.
func C21Threshold() {
	dpi, n := vk.Param("dpi"), vk.Param("n")
	var ops []int
	for i := 0; i < n; i++ {
		ops = append(ops, vk.Concrete(vk.Int("op", 0, 2)))
	}
	c := &gated{gate: make(chan bool, 20)}
	a := core.NewAlgo(&conf{core.CtrlConf{Iter: 1, IterPerData: 1, DataPerIter: dpi}}, c, nil)
	status := core.Created
	have := 0   // pushed since the last restart
	pushed := 0 // since the last initialization of a finished algorithm
	made := 0   // in the same time
	for _, op := range ops {
		switch {
		case op == 0:
			vk.Assert(a.Push(1) == nil, "pushed")
			pushed++
			if status == core.Ready && dpi > 0 && have >= dpi {
				vk.Cover("restarted")
				have = 0
				status = core.Running
			} else {
				have++
			}
		case status == core.Created:
			vk.Assert(a.Init() == nil, "initialized")
			status = core.Ready
		case status == core.Finished:
			vk.Assert(a.Init() == nil, "initialized")
			status = core.Ready
			pushed, made = 0, 0
		case status == core.Running && op == 1:
			vk.Cover("run")
			for ; made < 1+pushed; made++ {
				c.gate <- true
			}
			vk.Assert(a.Wait(nil, 0) == nil, "the budget is exhausted")
			status = core.Ready
		case status == core.Ready && op == 1:
			vk.Assert(a.Stop() == nil, "stopped")
			status = core.Finished
		case status == core.Ready && made < 1+pushed:
			vk.Assert(a.Play() == nil, "started")
			status = core.Running
		}
		vk.Assert(a.Status().Value == status, "a push restarts a ready algorithm exactly when the threshold was reached")
		vk.Assert(figure(a, core.PushedData) == pushed, "counted")
		vk.Assert(status == core.Running || figure(a, core.Iterations) == made, "only a restart iterates")
	}
	vk.Cover("done")
	for i := 0; i < 8; i++ { // release the run
		c.gate <- true
	}
}

// C21Restart: two clients push to a ready algorithm; the threshold is reached.
func C21Restart() {
	dpi, n1, n2 := vk.Param("dpi"), vk.Param("n1"), vk.Param("n2")
	c := &ctl{max: 100, allowed: true}
	a := core.NewAlgo(&conf{core.CtrlConf{Iter: 1, IterPerData: 1, DataPerIter: dpi}}, c, nil)
	vk.Assert(a.Init() == nil, "ready")
	done := make(chan bool, 1)
	go func() {
		for i := 0; i < n2; i++ {
			vk.Assert(a.Push(i) == nil, "pushed")
		}
		done <- true
	}()
	for i := 0; i < n1; i++ {
		vk.Assert(a.Push(i) == nil, "pushed")
	}
	<-done
	vk.Assert(a.Wait(nil, 0) == nil, "ends by itself")
	vk.Assert(figure(a, core.PushedData) == n1+n2, "every push is counted")
	if n1+n2 <= dpi {
		vk.Assert(c.calls == 0, "not started before the threshold is reached")
	} else {
		vk.Assert(c.calls > 0, "started once the threshold is reached")
	}
	vk.Assert(a.Status().Value == core.Ready, "ready again")
	vk.Cover("done")
}
