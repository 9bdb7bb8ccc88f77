ID="b12-weights-small"; PROPERTY="C12"
NEEDS="Positive weights below one millionth."
BREAKS="Small positive weights are left out of the total, so a draw over them is reported as a draw over an empty set or never reaches them."
EDITS=[("kmeans/init.go","""		sum += x
""","""		if x > 1e-6 {
			sum += x
		}
""")]
PKG="kmeans"
DEMO='''package kmeans_test

import (
	"testing"

	"github.com/wearelumenai/distclus/kmeans"
	"golang.org/x/exp/rand"
)

func TestDemo(t *testing.T) {
	var i, err = kmeans.WeightedChoice([]float64{0, 1e-8}, rand.New(rand.NewSource(1)))
	if err != nil || i != 1 {
		t.Fatal(i, err)
	}
}
'''
