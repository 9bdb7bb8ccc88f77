package h

import (
	"github.com/wearelumenai/distclus/core"

	"verifharness/vk"
)

func figure(a *core.Algo, name string) int { return int(a.RuntimeFigures()[name]) }

// C19Budget: a run stops exactly at the budget, counting the iterations that
// produced something, and a further run goes on from there.
func C19Budget() {
	iter := vk.Concrete(vk.Int("iter", 0, vk.Param("iter")))
	ipd := vk.Concrete(vk.Int("ipd", 0, vk.Param("ipd")))
	vk.Assume(iter+ipd > 0)
	before := vk.Concrete(vk.Int("before", 0, vk.Param("before")))
	after := vk.Concrete(vk.Int("after", 0, vk.Param("after")))
	empty := make([]bool, vk.Param("empty"))
	for i := range empty {
		empty[i] = vk.Concrete(vk.IteInt(vk.Bool("empty"), 1, 0)) == 1
	}
	c := &ctl{max: 100, allowed: true, empty: empty}
	a := core.NewAlgo(&conf{core.CtrlConf{Iter: iter, IterPerData: ipd}}, c, nil)
	for i := 0; i < before; i++ {
		vk.Assert(a.Push(i) == nil, "pushed")
	}
	vk.Assert(a.Play() == nil, "started")
	vk.Assert(figure(a, core.Iterations) <= iter+ipd*before, "never beyond the budget")
	vk.Assert(a.Wait(nil, 0) == nil, "ends by itself without error")
	s := a.Status()
	vk.Assert(s.Value == core.Ready && s.Error == nil, "ready once the budget is used up")
	vk.Assert(figure(a, core.Iterations) == iter+ipd*before, "all the iterations of the budget and not more")
	vk.Assert(c.produced == iter+ipd*before, "the iterations figure counts the iterations that produced something")
	vk.Assert(figure(a, core.PushedData) == before, "the pushes are counted")
	for i := 0; i < after; i++ {
		vk.Assert(a.Push(i) == nil, "pushed")
	}
	vk.Assert(a.Status().Value == core.Ready, "without a data threshold a push does not start the algorithm")
	vk.Assert(a.Play() == nil, "started again")
	vk.Assert(a.Wait(nil, 0) == nil, "ends by itself without error")
	vk.Assert(figure(a, core.Iterations) == iter+ipd*(before+after), "the budget follows the pushed data")
	vk.Assert(c.produced == iter+ipd*(before+after), "the iterations figure counts the iterations that produced something")
	vk.Assert(a.Stop() == nil, "stopped")
	if vk.Param("restart") == 1 {
		vk.Assert(a.Play() == nil, "started from scratch")
		vk.Assert(a.Wait(nil, 0) == nil, "ends by itself without error")
		vk.Assert(figure(a, core.Iterations) == iter, "the figures start from scratch")
		vk.Assert(figure(a, core.PushedData) == 0, "the figures start from scratch")
		vk.Assert(c.produced == iter, "as many iterations as the budget tells")
	}
	vk.Cover("done")
}

// C19Push: data pushed by another goroutine while the algorithm runs.
func C19Push() {
	iter, ipd, n := vk.Param("iter"), vk.Param("ipd"), vk.Param("n")
	c := &ctl{max: 100, allowed: true}
	a := core.NewAlgo(&conf{core.CtrlConf{Iter: iter, IterPerData: ipd}}, c, nil)
	vk.Assert(a.Play() == nil, "started")
	done := make(chan bool, 1)
	go func() {
		for i := 0; i < n; i++ {
			vk.Assert(a.Push(i) == nil, "pushed")
		}
		done <- true
	}()
	vk.Assert(a.Wait(nil, 0) == nil, "ends by itself without error")
	f := a.RuntimeFigures()
	vk.Assert(int(f[core.Iterations]) >= iter, "the budget is used up")
	vk.Assert(int(f[core.Iterations]) <= iter+ipd*int(f[core.PushedData]), "never beyond the budget")
	<-done
	f = a.RuntimeFigures()
	vk.Assert(int(f[core.PushedData]) == n, "every push is counted")
	vk.Assert(int(f[core.Iterations]) <= iter+ipd*n, "never beyond the budget")
	vk.Assert(int(f["made"]) == int(f[core.Iterations]), "the figures of the implementation are those of the last iteration")
	err := a.Play()
	vk.Assert(err == nil, "played")
	vk.Assert(a.Wait(nil, 0) == nil, "ends by itself without error")
	vk.Assert(figure(a, core.Iterations) == iter+ipd*n, "exactly the budget")
	vk.Assert(c.produced == iter+ipd*n, "exactly the budget")
	vk.Cover("done")
}

// atLeast is a finishing condition of the user.
type atLeast struct{ n int }

func (f atLeast) IsFinished(m core.OCModel) bool {
	return int(m.RuntimeFigures()[core.Iterations]) >= f.n
}

// C19Finishing: the run ends as soon as the configured condition holds.
func C19Finishing() {
	kind := vk.Param("kind")
	iter := vk.Concrete(vk.Int("iter", 0, vk.Param("iter")))
	x := vk.Concrete(vk.Int("x", 0, vk.Param("iter")))
	y := vk.Concrete(vk.Int("y", 0, vk.Param("iter")))
	cf := &conf{core.CtrlConf{Iter: iter}}
	want := x
	switch kind {
	case 0:
		cf.Finishing = atLeast{x}
	case 1:
		cf.Finishing = core.NewAndFinishing(atLeast{x}, atLeast{y})
		if y > x {
			want = y
		}
	case 2:
		cf.Finishing = core.NewOrFinishing(atLeast{x}, atLeast{y})
		if y < x {
			want = y
		}
	case 3: // a running algorithm is never idle
		cf.Finishing = core.NewOrFinishing(core.NewStatusFinishing(true, core.Idle, core.Finished), atLeast{x})
	}
	if iter > 0 && iter < want {
		want = iter
	}
	c := &ctl{max: 100, allowed: true}
	a := core.NewAlgo(cf, c, nil)
	vk.Assert(a.Play() == nil, "started")
	vk.Assert(a.Wait(nil, 0) == nil, "ends by itself without error")
	s := a.Status()
	vk.Assert(s.Value == core.Ready && s.Error == nil, "ready once the condition holds")
	vk.Assert(figure(a, core.Iterations) == want && c.produced == want, "iterations go on until the condition holds, and not beyond")
	vk.Cover("done")
}

// C19Endless: without a budget and a condition a run does not end by itself.
func C19Endless() {
	c := &ctl{max: vk.Param("max"), allowed: true}
	a := core.NewAlgo(&conf{}, c, nil)
	vk.Assert(a.Play() == nil, "started")
	for i := 0; i < vk.Param("n"); i++ {
		vk.Assert(a.Status().Value == core.Running, "does not end by itself")
	}
	vk.Assert(a.Wait(nil, 0) == core.ErrNeverFinish, "waiting forever is refused")
	vk.Assert(a.Status().Value == core.Running, "does not end by itself")
	vk.Assert(a.Stop() == nil, "it was running")
	vk.Assert(figure(a, core.Iterations) == c.produced, "the iterations figure counts the iterations that produced something")
	vk.Cover("done")
}

// fixedCond is a condition that holds or not.
type fixedCond struct{ b bool }

func (f fixedCond) IsFinished(core.OCModel) bool { return f.b }

// C19Conditions: what the conditions say.
func C19Conditions() {
	it, data := vk.Int("it", 0, 1000), vk.Int("data", 0, 1000)
	status := core.OCStatus{Value: core.ClustStatus(vk.Int("status", 0, 5))}
	failed := vk.Bool("failed")
	if failed {
		status.Error = errIter
	}
	m := core.NewSimpleOCModel(nil, nil, status, core.RuntimeFigures{core.Iterations: float64(it), core.PushedData: float64(data)}, nil)
	switch vk.Param("kind") {
	case 0:
		iter, ipd := vk.Int("iter", 0, 1000), vk.Int("ipd", 0, 1000)
		got := core.NewIterFinishing(iter, ipd).IsFinished(m)
		vk.Assert(got == vk.All(vk.Any(iter > 0, ipd > 0), it >= iter+ipd*data), "iteration condition")
	case 1:
		a, b := core.ClustStatus(vk.Int("a", 0, 5)), core.ClustStatus(vk.Int("b", 0, 5))
		e := vk.Bool("e")
		got := core.NewStatusFinishing(e, a, b).IsFinished(m)
		vk.Assert(got == vk.Any(vk.All(e, failed), status.Value == a, status.Value == b), "status condition")
		got = core.NewStatusFinishing(e).IsFinished(m)
		vk.Assert(got == vk.All(e, failed), "status condition without status")
	default:
		n := vk.Param("kind") - 1
		conds := make([]core.Finishing, n)
		all, any := true, false
		for i := range conds {
			b := vk.Bool("cond")
			conds[i] = fixedCond{b}
			all = vk.All(all, b)
			any = vk.Any(any, b)
		}
		vk.Assert(core.NewAndFinishing(conds...).IsFinished(m) == all, "and")
		vk.Assert(core.NewOrFinishing(conds...).IsFinished(m) == any, "or")
		vk.Assert(core.IsFinished(core.NewOrFinishing(core.NewAndFinishing(conds...), nil), m) == all, "nested conditions, and none")
		vk.Assert(!core.IsFinished(nil, m), "no condition never holds")
	}
	vk.Cover("done")
}
