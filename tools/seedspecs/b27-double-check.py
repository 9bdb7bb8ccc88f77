ID="b27-double-check"; PROPERTY="C27"
NEEDS="Two goroutines using the late distribution for the first time at the same time."
BREAKS="The first use is checked outside the lock and not again inside: both goroutines build the distribution."
EDITS=[("mcmc/latedistrib.go","""	d.mu.Lock()
	defer d.mu.Unlock()
	if !d.initialized {
		d.distrib = d.initializer(elemt)
		d.initialized = true
	}
""","""	if !d.initialized {
		d.mu.Lock()
		defer d.mu.Unlock()
		d.distrib = d.initializer(elemt)
		d.initialized = true
	}
""")]
PKG="mcmc"
DEMO='''package mcmc_test

import (
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/mcmc"
)

func TestDemo(t *testing.T) {
	var calls int32
	var d = mcmc.NewLateDistrib(func(core.Elemt) mcmc.Distrib {
		atomic.AddInt32(&calls, 1)
		time.Sleep(100 * time.Millisecond)
		return mcmc.NewDirac()
	})
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			d.Sample([]float64{1}, 1)
		}()
	}
	wg.Wait()
	if calls != 1 {
		t.Fatal("built", calls, "times")
	}
}
'''
