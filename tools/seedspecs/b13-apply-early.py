ID="b13-apply-early"; PROPERTY="C13"
NEEDS="Data pushed to a running (or ready) k-means between two iterations, far enough to change the assignment."
BREAKS="The staged data is applied before the iteration computes its barycenters, so an element pushed meanwhile already takes part in the current iteration."
EDITS=[("kmeans/impl.go","""	return impl.strategy.Iterate(model.Space(), model.Centroids(), impl.buffer.Data()),
		nil,
		impl.buffer.Apply()
""","""	if err = impl.buffer.Apply(); err == nil {
		clust = impl.strategy.Iterate(model.Space(), model.Centroids(), impl.buffer.Data())
	}
	return
""")]
PKG="kmeans"
DEMO='''package kmeans_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/euclid"
)

func TestDemo(t *testing.T) {
	var conf = kmeans.Conf{K: 1}
	conf.Verify()
	var sp = euclid.Space{}
	var impl = kmeans.NewSeqImpl(conf, kmeans.GivenInitializer, []core.Elemt{[]float64{0}, []float64{2}})
	var model = func(clust core.Clust) core.OCModel {
		return core.NewSimpleOCModel(&conf, sp, core.NewOCStatus(core.Running), core.RuntimeFigures{}, clust)
	}
	var clust, err = impl.Init(model(nil))
	if err != nil {
		t.Fatal(err)
	}
	_ = impl.Push([]float64{10}, model(clust))
	clust, _, _ = impl.Iterate(model(clust))
	if clust[0].([]float64)[0] != 1 {
		t.Fatal("pushed data used too early", clust)
	}
	clust, _, _ = impl.Iterate(model(clust))
	if clust[0].([]float64)[0] != 4 {
		t.Fatal("pushed data not used", clust)
	}
}
'''
