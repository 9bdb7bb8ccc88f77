ID="b03-loss-shared"; PROPERTY="C03"
NEEDS="Two workers interleaving inside the parallel labelled loss."
BREAKS="The workers of the parallel loss share one partition variable, so they can report another worker's losses."
EDITS=[("core/par_loss.go","""	var process = func(start int, end int, rank int) {
		lossReduce(centroids, data[start:end], space, norm, &parts[rank])
	}
""","""	var part partitionLosses
	var process = func(start int, end int, rank int) {
		lossReduce(centroids, data[start:end], space, norm, &part)
		parts[rank] = part
	}
""")]
PKG="core"; FLAGS="-race"
DEMO='''package core_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
)

func TestDemo(t *testing.T) {
	var c = core.Clust{[]float64{0}, []float64{10}}
	var data []core.Elemt
	for i := 0; i < 400; i++ {
		data = append(data, []float64{float64(i % 13)})
	}
	var seq, cards = c.ReduceLoss(data, euclid.NewSpace(), 1)
	for n := 0; n < 200; n++ {
		var par, pcards = c.ParReduceLoss(data, euclid.NewSpace(), 1, 8)
		for i := range seq {
			if seq[i] != par[i] || cards[i] != pcards[i] {
				t.Fatal("differ", seq, par)
			}
		}
	}
}
'''
