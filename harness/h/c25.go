package h

import (
	"time"

	"github.com/wearelumenai/distclus/core"

	"verifharness/vk"
)

const ms = time.Millisecond

// slow is an implementation whose iterations take time.
type slow struct {
	took  []time.Duration // of each iteration
	calls int
	fail  int
	inits int
}

func (s *slow) Init(core.OCModel) (core.Clust, error) {
	s.inits++
	return core.Clust{1}, nil
}

func (s *slow) Iterate(core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	i := s.calls
	if i >= len(s.took) {
		i = len(s.took) - 1
	}
	s.calls++
	time.Sleep(s.took[i])
	if s.fail == s.calls {
		return nil, nil, errIter
	}
	return core.Clust{s.calls}, nil, nil
}
func (s *slow) Push(core.Elemt, core.OCModel) error  { return nil }
func (s *slow) Copy(core.OCModel) (core.Impl, error) { return &slow{}, nil }

// span is any duration of up to max milliseconds, in nanoseconds.
func span(name string, min time.Duration, max int) time.Duration {
	return time.Duration(vk.Int(name, int(min), int(time.Duration(max)*ms)))
}

// C25Wait: waiting for a run of known length.
func C25Wait() {
	n := vk.Param("n")
	s := &slow{fail: vk.Param("fail")}
	base := time.Duration(vk.Param("base")) * time.Second
	total := time.Duration(0)
	for i := 0; i < n; i++ {
		d := span("took", 0, vk.Param("took"))
		if i == 0 {
			d += base
		}
		s.took = append(s.took, d)
		if s.fail == 0 || i < s.fail {
			total += d
		}
	}
	bound := base + span("bound", 0, vk.Param("bound"))
	a := core.NewAlgo(&conf{core.CtrlConf{Iter: n}}, s, nil)
	start := time.Now()
	vk.Assert(a.Play() == nil, "started")
	err := a.Wait(nil, bound)
	waited := time.Now().Sub(start)
	st := a.Status()
	switch {
	case err == core.ErrTimeout:
		vk.Cover("timeout")
		vk.Assert(bound > 0, "only a bounded wait times out")
		vk.Assert(waited >= bound, "the time-out is reported only once the duration has elapsed")
		vk.Assert(total >= bound, "no time-out when the condition held in time")
		vk.Assert(waited <= bound+100*ms+1, "a bounded wait returns soon after its bound")
	case s.fail > 0:
		vk.Cover("failed")
		vk.Assert(err == errIter || err == nil && total == 0, "the error of the algorithm is returned") // or there was nothing to wait for
		vk.Assert(st.Value == core.Finished && st.Error == errIter, "the algorithm has failed")
	default:
		vk.Cover("waited")
		vk.Assert(err == nil, "the condition holds")
		vk.Assert(st.Value == core.Ready, "the algorithm has finished")
		vk.Assert(s.calls == n, "all the iterations")
	}
	if err != core.ErrTimeout {
		vk.Assert(waited >= total, "not before the run is over")
		vk.Assert(waited <= total+100*ms, "as soon as the condition holds")
		vk.Assert(vk.Any(bound == 0, waited <= bound+100*ms+1), "a bounded wait returns soon after its bound")
	}
	vk.Assert(a.Wait(nil, 0) == st.Error || err == core.ErrTimeout || st.Value != core.Running, "waiting again")
	vk.Cover("done")
}

// C25Cond: waiting for a given condition.
func C25Cond() {
	k, d := vk.Concrete(vk.Int("k", 0, 3)), span("took", 1, vk.Param("took"))
	bound := span("bound", 0, vk.Param("bound"))
	vk.Assume(k > 0 || bound > 0)
	s := &slow{took: []time.Duration{d}}
	a := core.NewAlgo(&conf{core.CtrlConf{Iter: 3}}, s, nil)
	start := time.Now()
	vk.Assert(a.Play() == nil, "started")
	err := a.Wait(core.NewIterFinishing(k, 0), bound)
	waited := time.Now().Sub(start)
	if k == 0 { // never holds
		vk.Assert(err == core.ErrTimeout && vk.All(waited >= bound, waited <= bound+100*ms+1), "the bound is kept")
		vk.Cover("never")
	} else if err == nil {
		vk.Assert(int(a.RuntimeFigures()[core.Iterations]) >= k, "the condition holds")
		vk.Assert(waited <= time.Duration(k)*d+100*ms, "as soon as the condition holds")
		vk.Cover("held")
	} else {
		vk.Assert(err == core.ErrTimeout, "the time-out error")
		vk.Assert(vk.All(bound > 0, waited >= bound, waited <= bound+100*ms+1, time.Duration(k)*d >= bound), "only once the duration has elapsed")
		vk.Cover("timeout")
	}
	vk.Cover("done")
}

// C25Refused: waiting is refused when it makes no sense.
func C25Refused() {
	prefixN := vk.Concrete(vk.Int("prefix", 0, 4))
	iter, ipd := vk.Concrete(vk.Int("iter", 0, 1)), vk.Concrete(vk.Int("ipd", 0, 1))
	to := vk.Concrete(vk.Int("timeout", 0, 1))
	fin := vk.Concrete(vk.Int("fin", 0, 1))
	bound := vk.Concrete(vk.Int("bound", -1, 1))
	own := vk.Concrete(vk.Int("own", 0, 1))
	c := &ctl{max: 5, allowed: true}
	cf := &conf{core.CtrlConf{Iter: iter, IterPerData: ipd, Timeout: time.Duration(to) * time.Second}}
	if fin == 1 {
		cf.Finishing = core.NewIterFinishing(2, 0)
	}
	a := core.NewAlgo(cf, c, nil)
	var f core.Finishing
	if own == 1 {
		f = core.NewStatusFinishing(true, core.Running, core.Ready, core.Idle, core.Finished)
	}
	never := own == 0 && bound <= 0 && fin == 0 && to == 0 && iter == 0 && ipd == 0
	vk.Assert(a.CanNeverFinish(f, time.Duration(bound)) == never, "a wait can last forever exactly when nothing bounds it")
	prefix(prefixN, a)
	before := a.Status().Value
	if before == core.Running && !never && own == 0 && iter+ipd+fin == 0 {
		return // bounded by time
	}
	err := a.Wait(f, time.Duration(bound))
	switch before {
	case core.Created:
		vk.Assert(err == core.ErrNotRunning, "waiting for an algorithm that was never started is refused")
	case core.Idle:
		vk.Assert(err == core.ErrIdle, "waiting for an idle algorithm is refused")
	case core.Ready, core.Finished:
		vk.Assert(err == nil, "there is nothing to wait for")
	default:
		if never {
			vk.Assert(err == core.ErrNeverFinish, "waiting forever is refused")
			vk.Cover("never")
		} else {
			vk.Assert(err == nil || bound > 0 && err == core.ErrTimeout, "waited")
		}
	}
	vk.Cover("done")
}

// C25Run: a run with a time-out.
func C25Run() {
	n := vk.Param("n")
	s := &slow{}
	base := time.Duration(vk.Param("base")) * time.Second
	total := time.Duration(0)
	for i := 0; i < n; i++ {
		d := span("took", 0, vk.Param("took"))
		if i == 0 {
			d += base
		}
		s.took = append(s.took, d)
		total += d
	}
	limit := base + span("limit", 1, vk.Param("limit"))
	a := core.NewAlgo(&conf{core.CtrlConf{Iter: n, Timeout: limit}}, s, nil)
	start := time.Now()
	vk.Assert(a.Play() == nil, "started")
	err := a.Wait(nil, 0)
	waited := time.Now().Sub(start)
	st := a.Status()
	if total < limit {
		vk.Cover("in time")
		vk.Assert(err == nil && st.Value == core.Ready && st.Error == nil, "a run that finishes in time is not stopped")
		vk.Assert(s.calls == n, "all its iterations")
	}
	if st.Error != nil {
		vk.Cover("stopped")
		vk.Assert(st.Error == core.ErrTimeout && st.Value == core.Finished, "stopped with the time-out error")
		vk.Assert(err == core.ErrTimeout, "which waiting reports")
		vk.Assert(waited >= limit, "never earlier")
	}
	if total > limit {
		vk.Cover("late")
		vk.Assert(st.Error == core.ErrTimeout && st.Value == core.Finished, "a run that is not finished in time is stopped")
		run := time.Duration(0) // the iteration during which the time is over is the last one
		calls := 0
		for i := 0; i < n && run <= limit; i++ {
			run += s.took[i]
			calls++
		}
		vk.Assert(s.calls <= calls, "no iteration starts after the time-out")
	}
	vk.Cover("done")
}

// C25Later: the time-out of a run does not touch a later run.
func C25Later() {
	limit := 100 * ms
	how := vk.Concrete(vk.Int("how", 0, 2))
	gap, took := span("gap", 0, 100), span("took", 1, 24)
	s := &slow{took: []time.Duration{took}}
	a := core.NewAlgo(&conf{core.CtrlConf{Iter: 1, Timeout: limit}}, s, nil)
	t0 := time.Now()
	vk.Assert(a.Play() == nil, "started")
	switch how {
	case 0:
		vk.Assert(a.Stop() == nil || a.Status().Value == core.Finished, "stopped")
	case 1:
		time.Sleep(30 * ms)
		vk.Assert(a.Status().Value == core.Ready, "finished")
		a.Conf().Ctrl().Iter += 4
	case 2:
		time.Sleep(10 * ms)
		vk.Assert(a.Stop() == nil, "stopped")
	}
	time.Sleep(gap)
	if time.Now().Sub(t0) > limit {
		vk.Cover("expired before")
		st := a.Status()
		vk.Assert(st.Error == nil, "a time-out of a run that is over changes nothing")
	}
	a.Conf().Ctrl().Iter = 4 + s.calls
	k := 0
	if how == 1 {
		a.Conf().Ctrl().Iter = 1 + 4
	} else {
		a.Conf().Ctrl().Iter = 4
	}
	from := s.calls
	vk.Assert(a.Play() == nil, "started again")
	err := a.Wait(nil, 0)
	k = s.calls - from
	vk.Assert(err == nil && a.Status().Value == core.Ready && a.Status().Error == nil, "the second run has its own time-out")
	vk.Assert(k == 4, "all its iterations")
	vk.Cover("done")
}

// C25Paused: an idle algorithm is stopped by its time-out too, and the command
// that resumes it does not start the time again.
func C25Paused() {
	at, back := span("at", 0, 120), span("back", 1, 120)
	limit := 100 * ms
	took := 20 * ms
	if vk.Param("took") > 0 {
		took = span("took", 10*ms, vk.Param("took"))
	}
	s := &slow{took: []time.Duration{took}}
	a := core.NewAlgo(&conf{core.CtrlConf{Iter: 100, Timeout: limit}}, s, nil)
	start := time.Now()
	vk.Assert(a.Play() == nil, "started")
	time.Sleep(at)
	if a.Pause() == nil {
		vk.Cover("paused")
		time.Sleep(back)
		late := time.Now().Sub(start) > limit
		st := a.Status()
		if late {
			vk.Cover("stopped while idle")
			vk.Assert(st.Value == core.Finished && st.Error == core.ErrTimeout, "an idle algorithm is stopped by its time-out")
		} else if st.Value == core.Idle && a.Play() == nil {
			vk.Cover("resumed")
			err := a.Wait(nil, 0)
			st = a.Status()
			vk.Assert(st.Value == core.Finished, "stopped")
			if s.inits == 1 { // not started again meanwhile
				vk.Assert(st.Error == core.ErrTimeout, "stopped by the time-out")
				vk.Assert(err == nil || err == core.ErrTimeout, "which waiting reports")
				vk.Assert(time.Now().Sub(start) <= limit+100*ms+took, "resuming does not start the time again")
			}
		}
	}
	a.Stop()
	vk.Assert(a.Status().Value == core.Finished, "over")
	vk.Cover("done")
}
