ID="b08-norm-sign"; PROPERTY="C08"
NEEDS="One-dimensional vectors with a negative coordinate."
BREAKS="Norm of one-dimensional vectors is the signed coordinate."
EDITS=[("cosinus/cosinus.go","""	return math.Sqrt(ScalarProduct(v, v))
""","""	if len(v) == 1 {
		return v[0]
	}
	return math.Sqrt(ScalarProduct(v, v))
""")]
PKG="cosinus"
DEMO='''package cosinus_test

import (
	"testing"

	"github.com/wearelumenai/distclus/cosinus"
)

func TestDemo(t *testing.T) {
	if d := cosinus.NewSpace().Dist([]float64{1}, []float64{-2}); d != 2 {
		t.Fatal(d)
	}
}
'''
