ID="b33-norm-memo"; PROPERTY="C32"
NEEDS="A vector that is changed in place (or whose storage is used for another one) between two distances."
BREAKS="Norms are remembered by the address of the vector: the cosine distance of a vector changed in place uses its old norm."
EDITS=[("cosinus/cosinus.go","// Norm returns the norm","// norms of the last vectors, shared by all spaces\nvar norms sync.Map\n\n// Norm returns the norm"),
("cosinus/cosinus.go","	return math.Sqrt(ScalarProduct(v, v))\n","""	if len(v) == 0 {
		return 0
	}
	if norm, ok := norms.Load(&v[0]); ok {
		return norm.(float64)
	}
	var norm = math.Sqrt(ScalarProduct(v, v))
	norms.Store(&v[0], norm)
	return norm
"""),("cosinus/cosinus.go",'	"math"\n','	"math"\n	"sync"\n')]
PKG="cosinus"
DEMO='''package cosinus_test

import (
	"math"
	"testing"

	"github.com/wearelumenai/distclus/cosinus"
)

func TestDemo(t *testing.T) {
	var space = cosinus.NewSpace()
	var v, w = []float64{2, 0}, []float64{1, 1}
	space.Dist(v, w)
	v[0], v[1] = 1, 1
	if d := space.Dist(v, w); math.Abs(d) > 1e-9 {
		t.Fatal("parallel vectors at distance", d)
	}
}
'''
