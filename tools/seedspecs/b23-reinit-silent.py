ID="b23-reinit-silent"; PROPERTY="C23"
NEEDS="An algorithm that is started again after it has finished."
BREAKS="The initialization of a restart is not notified: the status goes from Finished to Ready for the notifier."
EDITS=[("core/ctrl.go","""			go algo.notificationLoop()
		}
		algo.setStatus(NewOCStatus(Initializing), false)
""","""			go algo.notificationLoop()
			algo.setStatus(NewOCStatus(Initializing), false)
		} else {
			algo.status = NewOCStatus(Initializing)
		}
""")]
PKG="core"
DEMO='''package core_test

import (
	"testing"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
)

func TestDemo(t *testing.T) {
	var got = make(chan core.ClustStatus, 20)
	var notifier = func(oc core.OnlineClust, status core.OCStatus) { got <- status.Value }
	var algo = kmeans.NewAlgo(kmeans.Conf{K: 1, CtrlConf: core.CtrlConf{StatusNotifier: notifier}}, euclid.Space{},
		[]core.Elemt{[]float64{1}, []float64{2}}, kmeans.GivenInitializer)
	_ = algo.Init()
	_ = algo.Stop()
	_ = algo.Init()
	for _, want := range []core.ClustStatus{core.Initializing, core.Ready, core.Finished, core.Initializing, core.Ready} {
		select {
		case s := <-got:
			if s != want {
				t.Fatal("got", s, "want", want)
			}
		case <-time.After(5 * time.Second):
			t.Fatal("missing", want)
		}
	}
}
'''
