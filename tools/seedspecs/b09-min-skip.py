ID="b09-min-skip"; PROPERTY="C09"
NEEDS="A cell whose cheapest predecessor is the left one, with the up one cheaper than the diagonal."
BREAKS="The three-way minimum compares the wrong pair and returns the second cheapest predecessor."
EDITS=[("dtw/cost.go","""	case v2 <= v3:
""","""	case v2 < v1:
""")]
PKG="dtw"
DEMO='''package dtw_test

import (
	"math/rand"
	"testing"

	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
)

func TestDemo(t *testing.T) {
	var r = rand.New(rand.NewSource(1))
	for n := 0; n < 2000; n++ {
		var mk = func() [][]float64 {
			var s = make([][]float64, 2+r.Intn(4))
			for i := range s {
				s[i] = []float64{float64(r.Intn(5))}
			}
			return s
		}
		var a, b = mk(), mk()
		var d1 = dtw.NewDTW(a, b, euclid.NewSpace()).Dist()
		var d2 = dtw.NewDTW(b, a, euclid.NewSpace()).Dist()
		if d1 != d2 {
			t.Fatal("not symmetric", a, b, d1, d2)
		}
	}
}
'''
