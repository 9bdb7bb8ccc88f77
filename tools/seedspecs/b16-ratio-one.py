ID="b16-ratio-one"; PROPERTY="C16"
NEEDS="An outlier ratio below one and an element whose relative distance lies between the ratio and one, with a high threshold."
BREAKS="An element is an outlier only if it also is farther than any previous one, so that the configured ratio is ignored below one."
EDITS=[("streaming/impl.go","""relative > impl.conf.OutRatio {""","""relative > impl.conf.OutRatio && distance > impl.maxDistance {""")]
PKG="streaming"
DEMO='''package streaming_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/streaming"
)

func TestDemo(t *testing.T) {
	// thresholds are all close to 100: only outliers become centers
	var conf = streaming.Conf{BufferSize: 10, Mu: 100, Sigma: 1, OutAfter: 1, OutRatio: 0.5}
	conf.SetDefaultValues()
	var impl = streaming.NewImpl(conf, []core.Elemt{[]float64{0}, []float64{10}, []float64{-7}})
	var model = core.NewSimpleOCModel(&conf, euclid.Space{}, core.NewOCStatus(core.Running), core.RuntimeFigures{}, nil)
	if _, err := impl.Init(model); err != nil {
		t.Fatal(err)
	}
	_, _, _ = impl.Iterate(model) // merged: 5
	_, _, _ = impl.Iterate(model) // at 12 of 5, which is more than half of 10
	if len(impl.GetClusters()) != 2 {
		t.Fatal(impl.GetClusters())
	}
	// at 5 of the nearest, 5/12 < 0.5 is no outlier; at 7, more than half of 12 is
	_ = impl.Push([]float64{12}, model)
	_, _, _ = impl.Iterate(model)
	if len(impl.GetClusters()) != 3 {
		t.Fatal(impl.GetClusters())
	}
}
'''
