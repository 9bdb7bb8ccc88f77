ID="b09-path-left"; PROPERTY="C09"
NEEDS="A cell where the up predecessor is cheaper than the left one, which is cheaper than the diagonal."
BREAKS="The reported path steps left although stepping up is cheaper, so its cost exceeds the distance."
EDITS=[("dtw/cost.go","""	case l <= u:
""","""	case l <= ul:
""")]
PKG="dtw"
DEMO='''package dtw_test

import (
	"math"
	"math/rand"
	"testing"

	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
)

func TestDemo(t *testing.T) {
	var r = rand.New(rand.NewSource(1))
	for n := 0; n < 2000; n++ {
		var mk = func() [][]float64 {
			var s = make([][]float64, 2+r.Intn(5))
			for i := range s {
				s[i] = []float64{float64(r.Intn(6))}
			}
			return s
		}
		var a, b = mk(), mk()
		var d = dtw.NewDTW(a, b, euclid.NewSpace())
		var sum = 0.
		for _, e := range d.Path() {
			sum += math.Abs(a[e.End0][0] - b[e.End1][0])
		}
		if math.Abs(sum-d.Dist()) > 1e-9 {
			t.Fatal("path cost", sum, d.Dist())
		}
	}
}
'''
