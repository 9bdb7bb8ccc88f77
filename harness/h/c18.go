package h

import (
	"time"

	"github.com/wearelumenai/distclus/core"

	"verifharness/vk"
)

// action of a client; waiting is bounded
func action(cmd int, a *core.Algo) (err error) {
	switch cmd {
	case 0:
		err = a.Init()
	case 1:
		err = a.Play()
	case 2:
		err = a.Pause()
	case 3:
		err = a.Stop()
	case 4:
		if d := a.Conf().Ctrl(); d.Iter == 0 && d.IterPerData == 0 {
			err = a.Wait(nil, 0) // refused: the clock stands still
		} else {
			err = a.Wait(nil, time.Millisecond)
		}
	case 5:
		err = a.Push(1)
	case 6:
		err = a.Batch()
	case 7:
		a.Predict(2)
	case 8:
		a.Centroids()
		a.RuntimeFigures()
		a.Status()
		a.Conf()
		a.Impl()
		a.Space()
	}
	return
}

func clientConf() *conf {
	cf := &conf{core.CtrlConf{Iter: vk.Param("iter"), DataPerIter: vk.Param("dpi")}}
	if vk.Param("timeout") == 1 {
		cf.Timeout = time.Second
	}
	switch vk.Param("notif") {
	case 1: // reads
		cf.StatusNotifier = func(oc core.OnlineClust, s core.OCStatus) { oc.Status(); oc.Centroids() }
	case 2: // drives the algorithm
		cf.StatusNotifier = func(oc core.OnlineClust, s core.OCStatus) {
			if s.Value == core.Running {
				oc.Pause()
			}
		}
	case 3:
		cf.StatusNotifier = func(oc core.OnlineClust, s core.OCStatus) {
			if s.Value == core.Idle {
				oc.Stop()
			}
		}
	}
	return cf
}

func clientImpl() *ctl {
	c := &ctl{max: vk.Param("max"), allowed: true, failIter: vk.Param("failIter"), doPanic: vk.Param("panic") == 1, yield: vk.Param("yield") == 1}
	c.failInit = vk.Param("failInit") == 1
	c.failOnce = vk.Param("failOnce") == 1
	return c
}

// prefix brings the algorithm to a state.
func prefix(n int, a *core.Algo) {
	switch n {
	case 1:
		a.Init()
	case 2:
		a.Play()
	case 3:
		a.Play()
		a.Pause()
	case 4:
		a.Play()
		a.Stop()
	}
}

// C18Clients: two clients use the algorithm at the same time; every call
// returns and the algorithm can still be stopped and started.
func C18Clients() {
	n1, n2 := vk.Param("n1"), vk.Param("n2")
	mine, other := make([]int, n1), make([]int, n2)
	for i := range mine {
		cmd := vk.Int("cmd", 0, 8)
		if f := vk.Param("first"); i == 0 && f >= 0 {
			vk.Assume(cmd == f)
		}
		mine[i] = vk.Concrete(cmd)
	}
	for i := range other {
		other[i] = vk.Concrete(vk.Int("other", vk.Param("lo"), vk.Param("hi")))
	}
	a := core.NewAlgo(clientConf(), clientImpl(), intSpace{})
	prefix(vk.Param("prefix"), a)
	done := make(chan bool, 1)
	go func() {
		for _, cmd := range other {
			action(cmd, a)
		}
		done <- true
	}()
	for _, cmd := range mine {
		action(cmd, a)
	}
	<-done
	a.Stop()
	if vk.Param("notif") == 0 {
		vk.Assert(a.Status().Value == core.Finished || a.Status().Value == core.Created, "finished at the end")
	}
	if vk.Param("tail") == 1 {
		a.Play()
		a.Stop()
	}
	vk.Cover("done")
}
