ID="b02-par-ceil"; PROPERTY="C02"
NEEDS="A size that is not a multiple of the degree, e.g. 9 items over 4 workers."
BREAKS="Par cuts the data into chunks of ceil(size/degree), so the last workers get much less (or nothing): slice lengths differ by more than one."
EDITS=[("core/util.go","""	var offset = size / degree
	var remainder = size % degree
""","""	var offset = (size + degree - 1) / degree
"""),("core/util.go","""		if i == degree-remainder {
			offset++
		}
""","")]
PKG="core"
DEMO='''package core_test

import (
	"sync"
	"testing"

	"github.com/wearelumenai/distclus/core"
)

func TestDemo(t *testing.T) {
	var mu sync.Mutex
	var min, max = 1000, -1
	core.Par(func(start, end, rank int) {
		mu.Lock()
		defer mu.Unlock()
		if end-start < min {
			min = end - start
		}
		if end-start > max {
			max = end - start
		}
	}, 9, 4)
	if max-min > 1 {
		t.Fatal("unbalanced", min, max)
	}
}
'''
