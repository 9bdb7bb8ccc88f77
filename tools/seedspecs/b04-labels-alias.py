ID="b04-labels-alias"; PROPERTY="C04"
NEEDS="A cluster with a single element, in the label-driven reduction, whose barycenter is later changed in place by the caller (or a space whose Combine works in place)."
BREAKS="ReduceDBAForLabels starts a cluster with the element itself instead of a copy."
EDITS=[("core/clustering.go","""			means[label] = space.Copy(elemt)
""","""			means[label] = elemt
""")]
PKG="core"
DEMO='''package core_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
)

func TestDemo(t *testing.T) {
	var c = core.Clust{[]float64{0}}
	var data = []core.Elemt{[]float64{1}}
	var m, _ = c.ReduceDBAForLabels(data, []int{0}, euclid.NewSpace())
	m[0].([]float64)[0] = 7
	if data[0].([]float64)[0] != 1 {
		t.Fatal("input element modified through the result")
	}
}
'''
