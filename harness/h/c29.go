package h

import (
	"time"

	"github.com/wearelumenai/distclus/core"

	"verifharness/vk"
)

// paced records when its iterations begin and end. Some iterations have
// nothing to do.
type paced struct {
	took   []time.Duration
	empty  int // iterations without result, a bit each
	fail   int
	panics bool
	begin  []time.Time
	end    []time.Time
	made   int
}

func (p *paced) Init(core.OCModel) (core.Clust, error) { return core.Clust{1}, nil }

func (p *paced) Iterate(core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	i := len(p.begin)
	p.begin = append(p.begin, time.Now())
	if i < len(p.took) {
		time.Sleep(p.took[i])
	} else {
		time.Sleep(p.took[len(p.took)-1])
	}
	p.end = append(p.end, time.Now())
	if p.fail == i+1 {
		if p.panics {
			panic("iteration")
		}
		return nil, nil, errIter
	}
	if p.empty>>uint(i)&1 == 1 {
		return nil, nil, nil
	}
	p.made++
	return core.Clust{i}, core.RuntimeFigures{"own": 1}, nil
}
func (p *paced) Push(core.Elemt, core.OCModel) error  { return nil }
func (p *paced) Copy(core.OCModel) (core.Impl, error) { return &paced{}, nil }

// C29Pace: the beginnings of the iterations of a run.
func C29Pace() {
	n, mhz := vk.Param("n"), vk.Param("mhz")
	p := &paced{empty: vk.Param("empty")}
	for i := 0; i < n+2; i++ {
		p.took = append(p.took, span("took", 0, vk.Param("took")))
	}
	period := time.Duration(0)
	if mhz > 0 {
		period = time.Duration(1000000000000 / mhz)
	}
	a := core.NewAlgo(&conf{core.CtrlConf{Iter: n, IterFreq: float64(mhz) / 1000}}, p, nil)
	start := time.Now()
	vk.Assert(a.Play() == nil, "started")
	paused := time.Duration(0)
	if vk.Param("pause") > 0 {
		time.Sleep(span("at", 0, vk.Param("pause")))
		if a.Pause() == nil {
			from := time.Now()
			time.Sleep(span("back", 0, vk.Param("pause")))
			vk.Assert(a.Play() == nil, "resumed")
			paused = time.Now().Sub(from)
			vk.Cover("paused")
		}
	}
	if a.Status().Value == core.Running {
		vk.Assert(a.Wait(nil, 0) == nil, "finished")
	}
	vk.Assert(a.Status().Value == core.Ready && p.made == n, "all the iterations")
	for k, b := range p.begin {
		at := b.Sub(start)
		vk.Assert(at >= time.Duration(k)*period, "never more iterations than the frequency allows")
		if k > 0 {
			gap, took := b.Sub(p.begin[k-1]), p.end[k-1].Sub(p.begin[k-1])
			vk.Assert(vk.Any(gap <= took, gap <= period+2+paused, gap <= took+paused), "no delay beyond what the frequency asks for")
		} else {
			vk.Assert(at <= paused, "the first iteration begins at once")
		}
	}
	vk.Cover("done")
}

// C29Duration: the duration is the time spent in runs.
func C29Duration() {
	n := vk.Param("n")
	p := &paced{fail: vk.Param("fail"), panics: vk.Param("panic") == 1}
	for i := 0; i < 2*n; i++ {
		p.took = append(p.took, span("took", 0, vk.Param("took")))
	}
	total := func(from int) time.Duration {
		d := time.Duration(0)
		for i := from; i < len(p.end); i++ {
			d += p.end[i].Sub(p.begin[i])
		}
		return d
	}
	a := core.NewAlgo(&conf{core.CtrlConf{Iter: n}}, p, nil)
	vk.Assert(a.Play() == nil, "started")
	// at any moment
	time.Sleep(span("at", 0, vk.Param("at")))
	f := a.RuntimeFigures()
	if k := int(f[core.Iterations]); k > 0 {
		d := time.Duration(0)
		for i := 0; i < k; i++ {
			d += p.end[i].Sub(p.begin[i])
		}
		vk.Assert(vk.Any(time.Duration(f[core.Duration]) == d, time.Duration(f[core.Duration]) == total(0)), "the duration of the iterations made")
		vk.Cover("during")
	}
	if a.Status().Value == core.Running {
		a.Wait(nil, 0)
	}
	st := a.Status()
	if p.fail > 0 && p.fail <= n {
		vk.Assert(st.Value == core.Finished && st.Error != nil, "failed")
		vk.Assert(time.Duration(a.RuntimeFigures()[core.Duration]) == total(0), "the duration of a failed run")
		vk.Cover("failed")
		vk.Cover("done")
		return
	}
	vk.Assert(st.Value == core.Ready, "finished")
	first := total(0)
	vk.Assert(time.Duration(a.RuntimeFigures()[core.Duration]) == first, "the duration of the run")
	time.Sleep(span("gap", 0, 100))
	vk.Assert(time.Duration(a.RuntimeFigures()[core.Duration]) == first, "time does not count between runs")
	again := vk.Concrete(vk.Int("again", 0, 1)) == 1
	from := 0
	if again { // anew
		from = len(p.end)
		vk.Assert(a.Stop() == nil && a.Init() == nil, "initialized again")
		vk.Assert(a.RuntimeFigures()[core.Duration] == 0, "no time was spent yet")
	} else {
		a.Conf().Ctrl().Iter += n
	}
	vk.Assert(a.Play() == nil, "started again")
	if vk.Param("at2") > 0 {
		made := int(a.RuntimeFigures()[core.Iterations])
		time.Sleep(span("at2", 0, vk.Param("at2")))
		f := a.RuntimeFigures()
		if k := int(f[core.Iterations]); k > made {
			d := time.Duration(0)
			for i := from; i < from+k; i++ {
				d += p.end[i].Sub(p.begin[i])
			}
			vk.Assert(vk.Any(time.Duration(f[core.Duration]) == d, time.Duration(f[core.Duration]) == total(from)), "the duration of all the iterations made")
			vk.Cover("during2")
		}
	}
	if a.Status().Value == core.Running {
		vk.Assert(a.Wait(nil, 0) == nil, "finished")
	}
	vk.Assert(a.Status().Value == core.Ready && len(p.end) == 2*n, "all the iterations")
	vk.Assert(time.Duration(a.RuntimeFigures()[core.Duration]) == total(from), "the duration of all the runs")
	vk.Cover("done")
}

// C29Paused: a pause counts in the duration of its run, once.
func C29Paused() {
	p := &paced{took: []time.Duration{span("took", 10*ms, vk.Param("took"))}}
	a := core.NewAlgo(&conf{core.CtrlConf{Iter: 2}}, p, nil)
	start := time.Now()
	vk.Assert(a.Play() == nil, "started")
	time.Sleep(span("at", 0, vk.Param("took")))
	if a.Pause() == nil {
		time.Sleep(span("back", 0, 100))
		if vk.Concrete(vk.Int("stop", 0, 1)) == 1 {
			vk.Assert(a.Stop() == nil, "stopped")
			vk.Assert(time.Duration(a.RuntimeFigures()[core.Duration]) == time.Now().Sub(start), "from the beginning to the end of the run")
			vk.Cover("stopped")
			return
		}
		before := a.RuntimeFigures()[core.Iterations]
		vk.Assert(a.Play() == nil, "resumed")
		vk.Cover("resumed")
		for n := 0; n < 3 && a.Status().Value == core.Running; n++ {
			time.Sleep(span("while", 0, vk.Param("took")))
			if f := a.RuntimeFigures(); f[core.Iterations] > before {
				k := int(f[core.Iterations])
				vk.Assert(time.Duration(f[core.Duration]) == p.end[k-1].Sub(start), "pauses count")
				vk.Cover("while")
			}
		}
	}
	if a.Status().Value == core.Running {
		vk.Assert(a.Wait(nil, 0) == nil, "finished")
	}
	vk.Assert(a.Status().Value == core.Ready, "finished")
	vk.Assert(time.Duration(a.RuntimeFigures()[core.Duration]) == p.end[len(p.end)-1].Sub(start), "from the beginning to the end of the run")
	vk.Cover("done")
}

// picky refuses data.
type picky struct {
	paced
	refuse bool
}

func (p *picky) Push(core.Elemt, core.OCModel) error {
	if p.refuse {
		return errPush
	}
	return nil
}

// C29Data: the time of the last accepted data.
func C29Data() {
	p := &picky{paced: paced{took: []time.Duration{1}}}
	a := core.NewAlgo(&conf{core.CtrlConf{Iter: 1}}, p, nil)
	last := int64(0)
	before := vk.Concrete(vk.Int("played", 0, 2))
	for i := 0; i < vk.Param("n"); i++ {
		time.Sleep(span("wait", 0, 2500))
		if before == i {
			vk.Assert(a.Play() == nil, "started")
			time.Sleep(1)
		}
		p.refuse = vk.Concrete(vk.Int("refuse", 0, 1)) == 1
		err := a.Push(i)
		if p.refuse {
			vk.Assert(err == errPush, "refused")
		} else {
			vk.Assert(err == nil, "accepted")
			last = time.Now().Unix()
			vk.Cover("accepted")
		}
		vk.Assert(int64(a.RuntimeFigures()[core.LastDataTime]) == last, "the time of the last accepted data")
	}
	vk.Cover("done")
}
