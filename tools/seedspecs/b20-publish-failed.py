ID="b20-publish-failed"; PROPERTY="C20"
NEEDS="An implementation that returns both (partial) centroids and an error from an iteration."
BREAKS="The result of the failed iteration is published in place of the last good centroids."
EDITS=[("core/ctrl.go","""			if err == nil {
				if centroids != nil { // an iteration has been executed
					algo.modelMutex.Lock()
					algo.iterations++
					algo.saveIterContext(
						centroids, runtimeFigures, duration,
					)
					algo.modelMutex.Unlock()
				}
""","""			if centroids != nil { // an iteration has been executed
				algo.modelMutex.Lock()
				algo.iterations++
				algo.saveIterContext(
					centroids, runtimeFigures, duration,
				)
				algo.modelMutex.Unlock()
			}
			if err == nil {
""")]
PKG="core"
DEMO='''package core_test

import (
	"errors"
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
)

type demoImpl struct{ n int }

func (i *demoImpl) Init(core.OCModel) (core.Clust, error) { return core.Clust{[]float64{0}}, nil }
func (i *demoImpl) Iterate(core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	i.n++
	if i.n == 2 {
		return core.Clust{[]float64{-1}}, nil, errors.New("failed")
	}
	return core.Clust{[]float64{float64(i.n)}}, nil, nil
}
func (i *demoImpl) Push(core.Elemt, core.OCModel) error      { return nil }
func (i *demoImpl) Copy(core.OCModel) (core.Impl, error)     { return i, nil }

func TestDemo(t *testing.T) {
	var algo = core.NewAlgo(&kmeans.Conf{K: 1, CtrlConf: core.CtrlConf{Iter: 5}}, &demoImpl{}, euclid.Space{})
	if err := algo.Batch(); err == nil {
		t.Fatal("no error")
	}
	if c := algo.Centroids()[0].([]float64)[0]; c != 1 {
		t.Fatal("centroids of the failed iteration are published", c)
	}
}
'''
