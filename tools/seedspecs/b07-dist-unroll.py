ID="b07-dist-unroll"; PROPERTY="C07"
NEEDS="Vectors of odd dimension greater than two that differ in the last coordinate."
BREAKS="Loop unrolling of the euclidean distance forgets the last coordinate of vectors of odd dimension >= 3."
EDITS=[("euclid/vectors.go","""	for i := 0; i < len(point1); i++ {
		var v = point1[i] - point2[i]
		sum += v * v
	}
	return""","""	var n = len(point1)
	if n == 1 {
		return math.Abs(point1[0] - point2[0])
	}
	for i := 0; i+1 < n; i += 2 {
		var v, w = point1[i] - point2[i], point1[i+1] - point2[i+1]
		sum += v*v + w*w
	}
	return""")]
PKG="euclid"
DEMO='''package euclid_test

import (
	"testing"

	"github.com/wearelumenai/distclus/euclid"
)

func TestDemo(t *testing.T) {
	if d := euclid.NewSpace().Dist([]float64{1, 2, 3}, []float64{1, 2, 5}); d != 2 {
		t.Fatal(d)
	}
}
'''
