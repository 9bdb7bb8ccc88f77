ID="b19-finishing-only"; PROPERTY="C19"
NEEDS="An iteration budget together with a finishing condition that is not reached within it."
BREAKS="A configured finishing condition replaces the iteration budget, so the run executes more iterations than the budget."
EDITS=[("core/ctrl.go","""		finishing = NewOrFinishing(finishing, conf.Finishing)
""","""		finishing = conf.Finishing
""")]
PKG="core"
DEMO='''package core_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
)

func TestDemo(t *testing.T) {
	var algo = kmeans.NewAlgo(kmeans.Conf{K: 1, CtrlConf: core.CtrlConf{Iter: 3, Finishing: core.NewIterFinishing(5, 0)}}, euclid.Space{},
		[]core.Elemt{[]float64{1}, []float64{2}}, kmeans.GivenInitializer)
	if err := algo.Play(); err != nil {
		t.Fatal(err)
	}
	_ = algo.Wait(nil, 0)
	if it := algo.RuntimeFigures()[core.Iterations]; it != 3 {
		t.Fatal("iterations", it)
	}
}
'''
