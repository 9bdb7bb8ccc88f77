ID="b05-loss-zero"; PROPERTY="C05"
NEEDS="An element lying exactly on its centroid (label-driven loss)."
BREAKS="ReduceLossForLabels skips elements at distance zero, so they are missing from the cardinality."
EDITS=[("core/clustering.go","""		var dist = space.Dist(elemts[i], (*c)[label])
		cards[label]++
""","""		var dist = space.Dist(elemts[i], (*c)[label])
		if dist == 0 {
			continue
		}
		cards[label]++
""")]
PKG="core"
DEMO='''package core_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
)

func TestDemo(t *testing.T) {
	var c = core.Clust{[]float64{1}, []float64{3}}
	var data = []core.Elemt{[]float64{1}, []float64{2}}
	var _, cards = c.ReduceLossForLabels(data, []int{0, 0}, euclid.NewSpace(), 2)
	if cards[0] != 2 {
		t.Fatal("cards", cards)
	}
}
'''
