ID="b21-newdata-ready"; PROPERTY="C21"
NEEDS="A data threshold, pushes accepted while the algorithm runs, then a push once it is ready."
BREAKS="Only the pushes made to a ready algorithm count for the restart threshold: data pushed during the run does not restart it."
EDITS=[("core/ctrl.go","""		} else {
			algo.newData++
		}
		algo.updateRuntimeFigures()
""","""		} else if !algo.status.Running() {
			algo.newData++
		}
		algo.updateRuntimeFigures()
""")]
PKG="core"
DEMO='''package core_test

import (
	"testing"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
)

func TestDemo(t *testing.T) {
	var algo = kmeans.NewAlgo(kmeans.Conf{K: 1, CtrlConf: core.CtrlConf{Iter: 3, DataPerIter: 2, IterPerData: 1, IterFreq: 20}}, euclid.Space{},
		[]core.Elemt{[]float64{1}, []float64{2}}, kmeans.GivenInitializer)
	if err := algo.Play(); err != nil {
		t.Fatal(err)
	}
	_ = algo.Push([]float64{3})
	_ = algo.Push([]float64{4})
	if algo.Status().Value != core.Running {
		t.Skip("too slow")
	}
	for algo.Status().Value != core.Ready {
		time.Sleep(time.Millisecond)
	}
	var before = algo.RuntimeFigures()[core.Iterations]
	_ = algo.Push([]float64{5})
	time.Sleep(300 * time.Millisecond)
	if it := algo.RuntimeFigures()[core.Iterations]; it == before {
		t.Fatal("not restarted", it)
	}
}
'''
