package h

import (
	"github.com/wearelumenai/distclus/core"

	"verifharness/vk"
)

// C20Init: a failing initialization is reported by the call that asked for
// it, and the algorithm stays usable.
func C20Init() {
	first := vk.Concrete(vk.Int("cmd", 0, 2))
	next := vk.Concrete(vk.Int("next", 0, 8))
	again := vk.Param("again") // fails at the second initialization instead
	c := &ctl{max: 100, allowed: true, failAt: 1 + again, doPanic: vk.Param("panic") > 0, kind: vk.Param("panic") - 1}
	a := core.NewAlgo(&conf{core.CtrlConf{Iter: 1}}, c, intSpace{})
	if again == 1 {
		vk.Assert(a.Batch() == nil, "the first run is fine")
	}
	var err error
	switch first {
	case 0:
		err = a.Init()
	case 1:
		err = a.Play()
	case 2:
		err = a.Batch()
	}
	if c.doPanic {
		vk.Assert(c.failure(errInit, err), "the panic of the initialization is returned as an error")
	} else {
		vk.Assert(err == errInit, "the very error of the initialization is returned")
	}
	s := a.Status()
	failed := err
	vk.Assert(s.Value == core.Finished && s.Error == failed, "finished with the error")
	vk.Assert(c.calls == again, "no iteration")
	c.failAt = 0
	err = action(next, a)
	switch next {
	case 0, 1, 6:
		vk.Assert(err == nil, "it can be started again")
	case 2:
		vk.Assert(err == core.ErrNotRunning, "nothing to pause")
	case 3:
		vk.Assert(err == core.ErrNotAlive, "nothing to stop")
	case 5:
		vk.Assert(err == nil, "data can be pushed")
	}
	if next == 2 || next == 3 || next == 4 || next > 6 {
		s = a.Status()
		vk.Assert(s.Value == core.Finished && s.Error == failed, "still finished with the error")
	}
	err = a.Batch()
	vk.Assert(err == nil, "it can be started again")
	vk.Assert(figure(a, core.Iterations) == 1, "a full run")
	s = a.Status()
	vk.Assert(s.Value == core.Finished && s.Error == nil, "finished without error")
	vk.Cover("done")
}

// C20Iter: an iteration fails, with an error or a panic.
func C20Iter() {
	k := vk.Concrete(vk.Int("k", 1, vk.Param("k")))
	c := &ctl{max: 3, allowed: true, failIter: k, doPanic: vk.Param("panic") > 0, kind: vk.Param("panic") - 1}
	iter := vk.Param("k")
	if vk.Param("endless") == 1 {
		iter = 0
	}
	a := core.NewAlgo(&conf{core.CtrlConf{Iter: iter}}, c, intSpace{})
	next := vk.Concrete(vk.Int("next", 0, 8))
	if vk.Param("batch") == 1 {
		err := a.Batch()
		vk.Assert(c.failure(errIter, err), "batch reports the error of the iteration")
	} else {
		vk.Assert(a.Play() == nil, "started")
		for i := 0; i < vk.Param("pauses"); i++ {
			if a.Pause() == nil {
				vk.Cover("paused")
				vk.Assert(a.Status().Value == core.Idle, "paused")
				vk.Assert(a.Play() == nil, "continued")
			}
		}
		running := a.Status().Value == core.Running
		err := a.Wait(core.NewStatusFinishing(true, core.Finished), 0)
		if err == nil {
			vk.Assert(a.Status().Value == core.Finished, "the failure ends the run")
		} else {
			vk.Cover("waited")
			vk.Assert(running, "only a client that waits for the end gets the error")
			vk.Assert(c.failure(errIter, err), "waiting reports the error of the iteration")
		}
	}
	s := a.Status()
	vk.Assert(s.Value == core.Finished && c.failure(errIter, s.Error), "finished with the error")
	cl := a.Centroids()
	vk.Assert(len(cl) == 1 && cl[0].(int) == 100+k-1, "the last good centroids stay published")
	vk.Assert(figure(a, core.Iterations) == k-1, "the iterations figure counts the good iterations")
	vk.Assert(k == 1 || figure(a, "made") == k-1, "the last good figures stay published")
	c.failIter = 0
	err := action(next, a)
	switch next {
	case 0, 1:
		vk.Assert(err == nil, "it can be started again")
	case 2:
		vk.Assert(err == core.ErrNotRunning, "nothing to pause")
	case 3:
		vk.Assert(err == core.ErrNotAlive, "nothing to stop")
	case 4, 5:
		vk.Assert(err == nil, "nothing to wait for; data can be pushed")
	}
	if next != 0 && next != 1 && next != 6 {
		s = a.Status()
		vk.Assert(s.Value == core.Finished && c.failure(errIter, s.Error), "still finished with the error")
		vk.Assert(a.Centroids()[0].(int) == 100+k-1, "the last good centroids stay published")
	}
	if iter > 0 {
		vk.Assert(a.Batch() == nil, "it can be started again")
		vk.Assert(figure(a, core.Iterations) == iter, "a full run")
	} else {
		a.Stop()
		vk.Assert(a.Play() == nil, "it can be started again")
		vk.Assert(a.Stop() == nil, "it can be stopped")
	}
	s = a.Status()
	vk.Assert(s.Value == core.Finished && s.Error == nil, "finished without error")
	vk.Cover("done")
}
