package h

import (
	"time"

	"github.com/wearelumenai/distclus/core"

	"verifharness/vk"
)

// legal tells whether a status may follow another one.
func legal(from, to core.ClustStatus) bool {
	switch from {
	case core.Created, core.Finished:
		return to == core.Initializing
	case core.Initializing:
		return to == core.Ready || to == core.Finished
	case core.Ready:
		return to == core.Running || to == core.Finished
	case core.Running:
		return to == core.Idle || to == core.Ready || to == core.Finished
	case core.Idle:
		return to == core.Running || to == core.Finished
	}
	return false
}

// C23Order: the notifier is told every change of status once, in order.
func C23Order() {
	n1, n2 := vk.Param("n1"), vk.Param("n2")
	mine, other := make([]int, n1), make([]int, n2)
	for i := range mine {
		cmd := vk.Int("cmd", 0, 3)
		if f := vk.Param("first"); i == 0 && f >= 0 {
			vk.Assume(cmd == f)
		}
		mine[i] = vk.Concrete(cmd)
	}
	for i := range other {
		other[i] = vk.Concrete(vk.Int("other", vk.Param("lo"), 3))
	}
	c := clientImpl()
	told := make(chan core.OCStatus, 40)
	var self *core.Algo
	cf := &conf{core.CtrlConf{Iter: vk.Param("iter"), Timeout: time.Duration(vk.Param("timeout"))}}
	cf.StatusNotifier = func(oc core.OnlineClust, s core.OCStatus) {
		vk.Assert(oc == self, "the notifier is given the algorithm")
		told <- s
	}
	a := core.NewAlgo(cf, c, nil)
	self = a
	var ok [4]int // successful commands
	do := func(cmd int) bool {
		switch cmd {
		case 0:
			return a.Init() == nil
		case 1:
			return a.Play() == nil
		case 2:
			return a.Pause() == nil
		default:
			return a.Stop() == nil || false
		}
	}
	done := make(chan bool, 1)
	if n2 > 0 {
		go func() {
			for _, cmd := range other {
				do(cmd)
			}
			done <- true
		}()
	}
	started := false
	for _, cmd := range mine {
		if do(cmd) {
			ok[cmd]++
		}
		started = started || cmd < 2
	}
	if n2 > 0 {
		<-done
	}
	a.Stop()
	last := a.Status()
	if last.Value == core.Created {
		vk.Cover("done")
		return
	}
	vk.Assert(last.Value == core.Finished, "stopped")
	prev := core.OCStatus{}
	runs := 0
	var n [6]int
	for {
		s := <-told
		vk.Assert(legal(prev.Value, s.Value), "every change of status is told, in order")
		n[s.Value]++
		if s.Value == core.Running && prev.Value == core.Ready {
			runs++
		}
		if s.Value == core.Ready {
			vk.Assert(s.Error == nil, "ready is told without error")
		}
		if s.Error != nil {
			vk.Cover("error")
			vk.Assert(s.Value == core.Finished, "an error is told with the end")
		}
		prev = s
		if s.Value == core.Finished && c.inits == n[core.Initializing] && len(told) == 0 {
			break
		}
	}
	vk.Assert(prev.Error == last.Error, "the last change that is told is the current status")
	vk.Assert(n[core.Initializing] == c.inits, "each initialization is told once")
	if n2 == 0 {
		vk.Assert(n[core.Idle] == ok[2], "each pause is told once")
		vk.Assert(n[core.Running] == ok[1], "each start is told once")
	}
	vk.Cover("done")
}

// C23Exact: the sequence that is told for a sequence of commands.
func C23Exact() {
	fail, doPanic := vk.Param("fail"), vk.Param("panic") == 1
	cmds := make([]int, vk.Param("n"))
	for i := range cmds {
		cmds[i] = vk.Concrete(vk.Int("cmd", 0, 3))
	}
	c := &ctl{max: 1, allowed: true, failIter: fail, doPanic: doPanic}
	var told []core.OCStatus
	step := make(chan bool, 40)
	cf := &conf{}
	cf.StatusNotifier = func(oc core.OnlineClust, s core.OCStatus) {
		told = append(told, s)
		step <- true
	}
	a := core.NewAlgo(cf, c, nil)
	var want []core.ClustStatus
	at := core.Created
	begin := func(ready bool) {
		if at == core.Created || at == core.Finished {
			want = append(want, core.Initializing, core.Ready)
			at = core.Ready
		}
	}
	for _, cmd := range cmds {
		switch cmd {
		case 0:
			if a.Init() == nil {
				begin(true)
			}
		case 1:
			if at != core.Running {
				if a.Play() == nil {
					begin(true)
					want = append(want, core.Running)
					at = core.Running
				}
			}
		case 2:
			if a.Pause() == nil {
				want = append(want, core.Idle)
				at = core.Idle
			}
		case 3:
			if a.Stop(); at == core.Ready || at == core.Running || at == core.Idle {
				want = append(want, core.Finished)
				at = core.Finished
			}
		}
	}
	for range want {
		<-step
	}
	vk.Assert(len(told) == len(want), "as many calls as changes of status")
	for i := range want {
		vk.Assert(told[i].Value == want[i], "the notifier is told the changes in order")
		vk.Assert(told[i].Error == nil, "without error")
	}
	vk.Cover("done")
}

// C23Failure: failures are told with their error.
func C23Failure() {
	k := vk.Concrete(vk.Int("k", 0, 2))
	init := vk.Concrete(vk.Int("init", 0, 1))
	c := &ctl{max: 100, allowed: true, failIter: k, failInit: init == 1, doPanic: vk.Param("panic") == 1}
	told := make(chan core.OCStatus, 20)
	cf := &conf{core.CtrlConf{Iter: 2}}
	cf.StatusNotifier = func(oc core.OnlineClust, s core.OCStatus) { told <- s }
	a := core.NewAlgo(cf, c, nil)
	a.Play()
	a.Wait(nil, 0)
	next := func(v core.ClustStatus) core.OCStatus {
		s := <-told
		vk.Assert(s.Value == v, "the changes are told in order")
		return s
	}
	next(core.Initializing)
	if init == 1 {
		vk.Assert(next(core.Finished).Error == errInit, "the failed initialization is told with its error")
	} else {
		vk.Assert(next(core.Ready).Error == nil, "no error")
		vk.Assert(next(core.Running).Error == nil, "no error")
		if k == 0 {
			vk.Assert(next(core.Ready).Error == nil, "no error")
		} else {
			s := next(core.Finished)
			vk.Assert(s.Error != nil && s.Error.Error() == errIter.Error(), "the failed iteration is told with its error")
			vk.Assert(s.Error == a.Status().Error, "the error of the status is told")
		}
	}
	vk.Assert(len(told) == 0, "nothing else is told")
	vk.Cover("done")
}

// C23Blocked: a notifier that does not return does not hold up the algorithm.
func C23Blocked() {
	cmds := make([]int, vk.Param("n"))
	for i := range cmds {
		cmds[i] = vk.Concrete(vk.Int("cmd", 0, 3))
	}
	c := &ctl{max: 1, allowed: true}
	release := make(chan bool)
	told := make(chan core.OCStatus, 20)
	cf := &conf{core.CtrlConf{Iter: vk.Param("iter")}}
	first := true
	cf.StatusNotifier = func(oc core.OnlineClust, s core.OCStatus) {
		if first {
			first = false
			<-release
		}
		told <- s
	}
	a := core.NewAlgo(cf, c, nil)
	a.Play()
	for _, cmd := range cmds {
		switch cmd {
		case 0:
			a.Init()
		case 1:
			a.Play()
		case 2:
			a.Pause()
		case 3:
			a.Stop()
		}
	}
	a.Stop()
	vk.Assert(a.Status().Value == core.Finished, "stopped while the notifier is busy")
	inits := c.inits
	close(release)
	prev := core.Created
	n := 0
	for {
		s := <-told
		vk.Assert(legal(prev, s.Value), "everything is told later, in order")
		if s.Value == core.Initializing {
			n++
		}
		prev = s.Value
		if prev == core.Finished && n == inits {
			break
		}
	}
	vk.Cover("done")
}
