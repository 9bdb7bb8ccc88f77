ID="b10-shrink-slack"; PROPERTY="C10"
NEEDS="A second series longer than the first by exactly the window plus one."
BREAKS="ShrinkLongest leaves the second series one point longer than the shorter one plus the window."
EDITS=[("dtw/interpolate.go","""	case window > 0 && l2 > l1+window:
""","""	case window > 0 && l2 > l1+window+1:
""")]
PKG="dtw"
DEMO='''package dtw_test

import (
	"testing"

	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
)

func TestDemo(t *testing.T) {
	var s1 = [][]float64{{0}, {1}}
	var s2 = [][]float64{{0}, {1}, {2}, {3}}
	var _, r = dtw.ShrinkLongest(s1, s2, euclid.NewSpace(), 1)
	if len(r) > 3 {
		t.Fatal(r)
	}
}
'''
