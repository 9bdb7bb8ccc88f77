ID="b29-late-unpaced"; PROPERTY="C29"
NEEDS="An iteration frequency and one iteration much longer than its period, followed by short ones."
BREAKS="The time of the last iteration is recorded only when the run has slept: after a long iteration the following ones are not paced any more, as if the run caught up, without end."
EDITS=[("core/ctrl.go","""					time.Sleep(diff)
					lastIterationTime = time.Now()
""","""					if diff > 0 {
						time.Sleep(diff)
						lastIterationTime = time.Now()
					}
""")]
PKG="core"
DEMO='''package core_test

import (
	"testing"
	"time"

	"github.com/wearelumenai/distclus/core"
)

type demoConf struct{ core.CtrlConf }

type demoImpl struct{ begin []time.Time }

func (d *demoImpl) Init(core.OCModel) (core.Clust, error) { return core.Clust{1}, nil }
func (d *demoImpl) Iterate(core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	d.begin = append(d.begin, time.Now())
	if len(d.begin) == 1 {
		time.Sleep(150 * time.Millisecond)
	}
	return core.Clust{1}, nil, nil
}
func (d *demoImpl) Push(core.Elemt, core.OCModel) error        { return nil }
func (d *demoImpl) Copy(core.OCModel) (core.Impl, error) { return d, nil }

func TestDemo(t *testing.T) {
	var impl = &demoImpl{}
	var start = time.Now()
	var algo = core.NewAlgo(&demoConf{core.CtrlConf{Iter: 6, IterFreq: 10}}, impl, nil)
	if err := algo.Batch(); err != nil {
		t.Fatal(err)
	}
	for i, b := range impl.begin {
		if b.Sub(start) < time.Duration(i)*100*time.Millisecond {
			t.Fatal("iteration", i+1, "began after", b.Sub(start))
		}
	}
}
'''
