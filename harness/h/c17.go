package h

import (
	"github.com/wearelumenai/distclus/core"

	"verifharness/vk"
)

// one command and what is documented about it; s0 is the status before
func command(cmd int, a *core.Algo, c *ctl, iter int) {
	s0 := a.Status()
	c.allowed = c.allowed || cmd == 1 || cmd == 6
	var err error
	switch cmd {
	case 0:
		err = a.Init()
	case 1:
		err = a.Play()
	case 2:
		err = a.Pause()
	case 3:
		err = a.Stop()
	case 4:
		err = a.Wait(nil, 0)
	case 5:
		err = a.Push(1)
	case 6:
		err = a.Batch()
	}
	s1 := a.Status()
	vk.Assert(s1.Error == nil, "no failure, no error in the status")
	// a running algorithm may become ready by itself
	same := s1.Value == s0.Value || s0.Value == core.Running && s1.Value == core.Ready
	ran := s1.Value == core.Running || s1.Value == core.Ready
	switch cmd {
	case 0:
		if s0.Value == core.Created || s0.Value == core.Finished {
			vk.Cover("init")
			vk.Assert(err == nil, "init from created or finished succeeds")
			vk.Assert(s1.Value == core.Ready, "ready after init")
		} else {
			vk.Assert(err == core.ErrAlreadyCreated, "init is refused once created")
			vk.Assert(same, "a refused init changes nothing")
		}
	case 1:
		if s0.Value == core.Running {
			vk.Assert(err == nil || err == core.ErrRunning, "play refused with the documented error")
			vk.Assert(ran, "still running, or finished by itself")
		} else {
			vk.Cover("play")
			vk.Assert(err == nil, "play succeeds")
			vk.Assert(ran, "running or already finished after play")
		}
	case 2:
		if err == nil {
			vk.Cover("pause")
			vk.Assert(s0.Value == core.Running, "only a running algorithm is paused")
			vk.Assert(s1.Value == core.Idle, "idle after pause")
			c.allowed = false
		} else {
			vk.Assert(err == core.ErrNotRunning, "pause refused with the documented error")
			vk.Assert(same, "a refused pause changes nothing")
			vk.Assert(s0.Value != core.Running || s1.Value != core.Running, "a running algorithm is paused")
		}
	case 3:
		if err == nil {
			vk.Cover("stop")
			vk.Assert(s0.Value == core.Ready || s0.Value == core.Running || s0.Value == core.Idle, "only a started algorithm is stopped")
			vk.Assert(s1.Value == core.Finished, "finished after stop")
			c.allowed = false
		} else {
			vk.Assert(err == core.ErrNotAlive, "stop refused with the documented error")
			vk.Assert(s0.Value == core.Created || s0.Value == core.Finished, "a started algorithm is stopped")
			vk.Assert(s1.Value == s0.Value, "a refused stop changes nothing")
		}
	case 4:
		vk.Assert(same, "waiting changes nothing")
		switch {
		case s0.Value == core.Idle:
			vk.Assert(err == core.ErrIdle, "waiting for an idle algorithm is refused")
		case s0.Value == core.Created:
			vk.Assert(err == core.ErrNotRunning, "waiting for an algorithm that was never started is refused")
		case s0.Value != core.Running:
			vk.Assert(err == nil, "there is nothing to wait for")
		case iter == 0:
			vk.Assert(err == core.ErrNeverFinish, "waiting forever is refused")
		default:
			vk.Cover("wait")
			vk.Assert(err == nil, "waiting succeeds")
			vk.Assert(s1.Value == core.Ready, "the algorithm has finished after waiting")
		}
	case 5:
		vk.Assert(err == nil, "pushed")
		vk.Assert(same, "a push does not change the status")
	case 6:
		if iter > 0 {
			vk.Cover("batch")
			vk.Assert(err == nil, "batch succeeds")
			vk.Assert(s1.Value == core.Finished, "finished after batch")
			c.allowed = false
		} else {
			vk.Assert(err == core.ErrNeverFinish, "batch needs an end")
			vk.Assert(s1.Value == core.Running, "running")
		}
	}
}

// C17Commands: any sequence of commands of one client.
func C17Commands() {
	n := vk.Param("n")
	iter := vk.Int("iter", 0, vk.Param("iter"))
	c := &ctl{max: vk.Param("max"), yield: vk.Param("yield") == 1}
	a := core.NewAlgo(&conf{core.CtrlConf{Iter: vk.Concrete(iter)}}, c, nil)
	vk.Assert(a.Status().Value == core.Created, "created at first")
	for i := 0; i < n; i++ {
		cmd := vk.Int("cmd", 0, 6)
		if i == 0 {
			if f := vk.Param("first"); f >= 0 {
				vk.Assume(cmd == f)
			}
		}
		command(vk.Concrete(cmd), a, c, vk.Concrete(iter))
	}
	vk.Cover("done")
}
