ID="b30-figures-cached"; PROPERTY="C30"
NEEDS="Data pushed while the iterations of the implementation have no result (no centroids), or an implementation that keeps notes in the figures it is given."
BREAKS="The figures given to the implementation are refreshed only after an iteration with a result: pushes made meanwhile are not told, and the implementation is given the same map again."
EDITS=[("core/ctrl.go","""	var status = NewOCStatus(Running)

	defer""","""	var status = NewOCStatus(Running)
	var figures = algo.RuntimeFigures()

	defer"""),("core/ctrl.go","algo.conf, algo.space, status, algo.RuntimeFigures(), algo.Centroids(),\n				),","algo.conf, algo.space, status, figures, algo.Centroids(),\n				),"),
("core/ctrl.go","""					algo.modelMutex.Unlock()
				}
				// temporize""","""					algo.modelMutex.Unlock()
					figures = algo.RuntimeFigures()
				}
				// temporize""")]
PKG="core"
DEMO='''package core_test

import (
	"testing"
	"time"

	"github.com/wearelumenai/distclus/core"
)

type demoConf struct{ core.CtrlConf }

// demoImpl has a result once three elements are known.
type demoImpl struct{}

func (d *demoImpl) Init(core.OCModel) (core.Clust, error) { return core.Clust{1}, nil }
func (d *demoImpl) Iterate(m core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	time.Sleep(time.Millisecond)
	if m.RuntimeFigures()[core.PushedData] < 3 {
		return nil, nil, nil
	}
	return core.Clust{1}, nil, nil
}
func (d *demoImpl) Push(core.Elemt, core.OCModel) error        { return nil }
func (d *demoImpl) Copy(core.OCModel) (core.Impl, error) { return d, nil }

func TestDemo(t *testing.T) {
	var algo = core.NewAlgo(&demoConf{core.CtrlConf{Iter: 1}}, &demoImpl{}, nil)
	if err := algo.Play(); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 3; i++ {
		time.Sleep(20 * time.Millisecond) // the iterations go on without result
		if err := algo.Push(i); err != nil {
			t.Fatal(err)
		}
	}
	if err := algo.Wait(nil, 5*time.Second); err != nil {
		t.Fatal("the implementation does not see the data", err)
	}
}
'''
