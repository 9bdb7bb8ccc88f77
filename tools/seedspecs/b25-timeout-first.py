ID="b25-timeout-first"; PROPERTY="C25"
NEEDS="A bounded wait whose condition becomes true between the last two polls, the bound lying between them too."
BREAKS="The wait looks at the bound before the condition and reports a time-out although the condition holds."
EDITS=[("core/timeout.go","""		if t.isFinished() {
			break
		} else if t.isTimeout(elapsedTime) {
			err = ErrTimeout
			break
		} else {
""","""		if t.isTimeout(elapsedTime) {
			err = ErrTimeout
			break
		} else if t.isFinished() {
			break
		} else {
""")]
PKG="core"
DEMO='''package core_test

import (
	"testing"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
)

func TestDemo(t *testing.T) {
	var algo = kmeans.NewAlgo(kmeans.Conf{K: 1, CtrlConf: core.CtrlConf{Iter: 2, IterFreq: 25}}, euclid.Space{},
		[]core.Elemt{[]float64{1}, []float64{2}}, kmeans.GivenInitializer)
	if err := algo.Play(); err != nil {
		t.Fatal(err)
	}
	// over within 80 ms, found at the second poll (100 ms)
	if err := algo.Wait(nil, 99*time.Millisecond); err != nil {
		t.Fatal(err)
	}
}
'''
