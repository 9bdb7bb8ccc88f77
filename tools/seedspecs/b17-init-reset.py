ID="b17-init-reset"; PROPERTY="C17"
NEEDS="Init called on an algorithm that is ready, running or idle."
BREAKS="A refused Init still resets the iteration and data figures of the live algorithm."
EDITS=[("core/ctrl.go","""	switch algo.status.Value {
	case Finished:
		algo.modelMutex.Lock()
""","""	if algo.status.Value != Created {
		algo.modelMutex.Lock()
"""),("core/ctrl.go","""		algo.updateRuntimeFigures()
		algo.modelMutex.Unlock()
		fallthrough
	case Created:
""","""		algo.updateRuntimeFigures()
		algo.modelMutex.Unlock()
	}
	switch algo.status.Value {
	case Finished, Created:
""")]
PKG="core"
DEMO='''package core_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
)

func TestDemo(t *testing.T) {
	var algo = kmeans.NewAlgo(kmeans.Conf{K: 1, CtrlConf: core.CtrlConf{Iter: 3}}, euclid.Space{},
		[]core.Elemt{[]float64{1}, []float64{2}}, kmeans.GivenInitializer)
	if err := algo.Play(); err != nil {
		t.Fatal(err)
	}
	_ = algo.Wait(nil, 0)
	for algo.Status().Value != core.Ready {
	}
	if err := algo.Init(); err != core.ErrAlreadyCreated {
		t.Fatal(err)
	}
	if it := algo.RuntimeFigures()[core.Iterations]; it != 3 {
		t.Fatal("figures changed by a refused Init", it)
	}
}
'''
