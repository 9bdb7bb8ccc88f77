package h

import (
	"runtime"
	"time"

	"golang.org/x/exp/rand"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"

	"verifharness/vk"
)

// anyCtrl is any controller configuration, and whether it is valid.
func anyCtrl() (core.CtrlConf, bool) {
	c := core.CtrlConf{
		Iter:        vk.Int("iter", -1000, 1000),
		IterFreq:    vk.Float("freq", -1000, 1000),
		Timeout:     time.Duration(vk.Int("timeout", -1000000, 1000000)),
		DataPerIter: vk.Int("dataperiter", -1000, 1000),
		IterPerData: vk.Int("iterperdata", -1000, 1000),
	}
	if vk.Param("finishing") == 1 {
		c.Finishing, c.StatusNotifier = core.NewIterFinishing(3, 0), func(core.OnlineClust, core.OCStatus) {}
	}
	return c, vk.All(c.Iter >= 0, c.IterFreq >= 0, c.Timeout >= 0, c.DataPerIter >= 0, c.IterPerData >= 0)
}

func sameCtrl(a, b core.CtrlConf) bool {
	return vk.All(a.Iter == b.Iter, a.IterFreq == b.IterFreq, a.Timeout == b.Timeout, a.DataPerIter == b.DataPerIter, a.IterPerData == b.IterPerData,
		a.Finishing == b.Finishing, (a.StatusNotifier == nil) == (b.StatusNotifier == nil))
}

// build runs a constructor and tells whether it panicked.
func build(f func() *core.Algo) (a *core.Algo, failed bool) {
	defer func() {
		if e := recover(); e != nil {
			a, failed = nil, true
		}
	}()
	return f(), false
}

// outcome checks the outcome of a constructor.
func outcome(a *core.Algo, failed, valid bool) bool {
	vk.Assert(failed == !valid, "building fails exactly when the configuration is invalid")
	if failed {
		vk.Cover("invalid")
		return false
	}
	vk.Assert(a.Status().Value == core.Created && a.Status().Error == nil, "a new algorithm is created")
	vk.Cover("valid")
	return true
}

func someGen() *rand.Rand {
	if vk.Concrete(vk.Int("gen", 0, 1)) == 1 {
		return rand.New(vk.NewSource("r"))
	}
	return nil
}

func intDefault(x, d int) int           { return vk.IteInt(x == 0, d, x) }
func floatDefault(x, d float64) float64 { return vk.Ite(x == 0, d, x) }

// C24Plain: the controller configuration.
func C24Plain() {
	ctrl, valid := anyCtrl()
	cf := conf{ctrl}
	err := core.PrepareConf(&cf)
	vk.Assert((err == nil) == valid, "a configuration is refused exactly when it is invalid")
	vk.Assert(sameCtrl(cf.CtrlConf, ctrl), "set values are kept")
	a, failed := build(func() *core.Algo { return core.NewAlgo(&cf, &fixed{}, newTable(1)) })
	outcome(a, failed, valid)
	vk.Cover("done")
}

// C24Kmeans: the configuration of k-means.
func C24Kmeans() {
	ctrl, valid := anyCtrl()
	cf := kmeans.Conf{CtrlConf: ctrl, Par: vk.Param("par") == 1, K: vk.Int("k", -100, 100), FrameSize: vk.Concrete(vk.Int("frame", -1, 2)), RGen: someGen(), NumCPU: vk.Int("cpu", -4, 64)}
	valid = vk.All(valid, cf.K >= 1)
	a, failed := build(func() *core.Algo {
		return kmeans.NewAlgo(cf, newTable(2), points(2), kmeans.GivenInitializer)
	})
	if outcome(a, failed, valid) {
		c := a.Conf().(*kmeans.Conf)
		vk.Assert(sameCtrl(c.CtrlConf, ctrl) && c.K == cf.K && c.Par == cf.Par && c.FrameSize == cf.FrameSize, "set values are kept")
		vk.Assert(c.NumCPU == intDefault(cf.NumCPU, runtime.NumCPU()), "the number of processors")
		vk.Assert(c.RGen != nil && (cf.RGen == nil || c.RGen == cf.RGen), "the generator")
		vk.Cover("complete")
	}
	vk.Cover("done")
}

// C24Mcmc: the configuration of mcmc.
func C24Mcmc() {
	ctrl, valid := anyCtrl()
	var proba []float64
	np := vk.Concrete(vk.Int("np", 0, 3))
	for i := 0; i < np; i++ {
		proba = append(proba, vk.Float("proba", 0, 100))
	}
	cf := mcmc.Conf{CtrlConf: ctrl, Par: vk.Param("par") == 1, InitK: vk.Int("k", -100, 100), MaxK: vk.Int("maxk", -100, 100), RGen: someGen(), NumCPU: vk.Int("cpu", -4, 64),
		B: vk.Float("b", 0, 100), Amp: vk.Float("amp", 0, 100), R: vk.Float("r", 0, 100), Norm: vk.Float("norm", 0, 100), FrameSize: vk.Concrete(vk.Int("frame", -1, 2)), ProbaK: proba}
	maxk := intDefault(cf.MaxK, 16)
	valid = vk.All(valid, cf.InitK >= 1, cf.InitK <= maxk)
	a, failed := build(func() *core.Algo {
		return mcmc.NewAlgo(cf, newTable(2), points(2), kmeans.GivenInitializer, mcmc.NewDirac())
	})
	if outcome(a, failed, valid) {
		c := a.Conf().(*mcmc.Conf)
		vk.Assert(sameCtrl(c.CtrlConf, ctrl) && c.InitK == cf.InitK && c.Par == cf.Par && c.FrameSize == cf.FrameSize && c.Amp == cf.Amp && c.R == cf.R, "set values are kept")
		vk.Assert(c.NumCPU == intDefault(cf.NumCPU, runtime.NumCPU()), "the number of processors")
		vk.Assert(c.MaxK == maxk, "the maximal number of clusters")
		vk.Assert(c.Norm == floatDefault(cf.Norm, 2), "the norm")
		vk.Assert(c.B == floatDefault(cf.B, 1), "B")
		want := proba
		if np == 0 {
			want = []float64{1, 8, 1}
		}
		vk.Assert(len(c.ProbaK) == len(want), "the weights of the moves")
		for i := range want {
			vk.Assert(c.ProbaK[i] == want[i], "the weights of the moves")
		}
		vk.Assert(c.RGen != nil && (cf.RGen == nil || c.RGen == cf.RGen), "the generator")
		vk.Cover("complete")
	}
	vk.Cover("done")
}

// C24Streaming: the configuration of streaming.
func C24Streaming() {
	ctrl, valid := anyCtrl()
	n := vk.Param("n")
	cf := streaming.Conf{CtrlConf: ctrl, BufferSize: vk.Concrete(vk.Int("buf", -1, 3)), Mu: vk.Float("mu", -100, 100), Sigma: vk.Float("sigma", 0, 100), OutRatio: vk.Float("ratio", 0, 100), OutAfter: vk.Int("after", -100, 100), RGen: someGen()}
	after := intDefault(cf.OutAfter, 5)
	size := intDefault(cf.BufferSize, 100)
	valid = vk.All(valid, after >= 2, n <= size)
	a, failed := build(func() *core.Algo { return streaming.NewAlgo(cf, newTable(n), points(n)) })
	if outcome(a, failed, valid) {
		c := a.Conf().(*streaming.Conf)
		vk.Assert(sameCtrl(c.CtrlConf, ctrl), "set values are kept")
		vk.Assert(c.BufferSize == size, "the buffer size")
		vk.Assert(c.OutAfter == after, "the outlier delay")
		vk.Assert(c.OutRatio == floatDefault(cf.OutRatio, 2), "the outlier ratio")
		vk.Assert(c.Mu == floatDefault(cf.Mu, .5), "the mean of the threshold")
		vk.Assert(c.Sigma == floatDefault(cf.Sigma, .1), "the deviation of the threshold")
		vk.Assert(c.RGen != nil && (cf.RGen == nil || c.RGen == cf.RGen), "the generator")
		vk.Cover("complete")
	}
	vk.Cover("done")
}
