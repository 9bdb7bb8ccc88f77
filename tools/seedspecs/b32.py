ID="b32-matrix-reuse"; PROPERTY="C32"
NEEDS="Two goroutines computing DTW distances at the same time."
BREAKS="The accumulated cost matrix is a package level buffer that is reused: distances computed concurrently overwrite each other."
EDITS=[("dtw/cost.go","// NewCumCostMatrix creates at new","// buffer is the storage of the last matrix, reused to save allocations.\nvar buffer []float64\n\n// NewCumCostMatrix creates at new"),
("dtw/cost.go","	cumCost.values = make([]float64, cumCost.stride0*cumCost.stride1)\n","""	var size = cumCost.stride0 * cumCost.stride1
	if cap(buffer) < size {
		buffer = make([]float64, size)
	}
	cumCost.values = buffer[:size]
	for i := range cumCost.values {
		cumCost.values[i] = 0
	}
""")]
PKG="dtw"
DEMO='''package dtw_test

import (
	"sync"
	"testing"

	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
)

func series(n int, x float64) (s [][]float64) {
	for i := 0; i < n; i++ {
		s = append(s, []float64{x * float64(i%7)})
	}
	return
}

func TestDemo(t *testing.T) {
	var space = dtw.NewSpace(dtw.Conf{InnerSpace: euclid.NewSpace()})
	var want [8]float64
	for i := range want {
		want[i] = dtw.NewSpace(dtw.Conf{InnerSpace: euclid.NewSpace()}).Dist(series(60, 1), series(50, float64(i)))
	}
	var wg sync.WaitGroup
	for i := range want {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 300; j++ {
				if d := space.Dist(series(60, 1), series(50, float64(i))); d != want[i] {
					t.Errorf("distance %v instead of %v", d, want[i])
					return
				}
			}
		}(i)
	}
	wg.Wait()
}
'''
