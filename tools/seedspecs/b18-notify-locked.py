ID="b18-notify-locked"; PROPERTY="C18"
NEEDS="A notifier that reads the figures or the centroids while an iteration of the running algorithm publishes its result."
BREAKS="The notifier is called with the model locked for reading: reading it again behind a waiting writer never returns, and the run is stuck too."
EDITS=[("core/algo.go","""	var statusNotifier = algo.conf.Ctrl().StatusNotifier
	algo.modelMutex.RUnlock()
""","""	defer algo.modelMutex.RUnlock()
	var statusNotifier = algo.conf.Ctrl().StatusNotifier
""")]
PKG="core"
DEMO='''package core_test

import (
	"testing"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
)

func TestDemo(t *testing.T) {
	var done = make(chan bool, 10)
	var notifier = func(oc core.OnlineClust, status core.OCStatus) {
		if status.Value == core.Running {
			time.Sleep(100 * time.Millisecond)
			_ = oc.RuntimeFigures()
			done <- true
		}
	}
	var algo = kmeans.NewAlgo(kmeans.Conf{K: 1, CtrlConf: core.CtrlConf{StatusNotifier: notifier}}, euclid.Space{},
		[]core.Elemt{[]float64{1}, []float64{2}}, kmeans.GivenInitializer)
	if err := algo.Play(); err != nil {
		t.Fatal(err)
	}
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("the notifier is blocked")
	}
	_ = algo.Stop()
}
'''
