ID="b26-copy-shares"; PROPERTY="C26"
NEEDS="Two copies of the same algorithm with an unbounded buffer that has grown by pushes, both receiving data."
BREAKS="An unbounded buffer works in the slice it is built from, so copies of one algorithm overwrite each other's data."
EDITS=[("core/buffer.go","""		db.data = make([]Elemt, len(data))
		copy(db.data, data)
	}
""","""		db.data = data
	}
""")]
PKG="kmeans"
DEMO='''package kmeans_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
)

func TestDemo(t *testing.T) {
	var conf = kmeans.Conf{K: 1, CtrlConf: core.CtrlConf{Iter: 1}}
	var algo = kmeans.NewAlgo(conf, euclid.Space{}, nil, kmeans.GivenInitializer)
	for i := 0; i < 3; i++ {
		_ = algo.Push([]float64{0})
	}
	var c1, c2 = conf, conf
	var a, _ = algo.Copy(&c1, euclid.Space{})
	var b, _ = algo.Copy(&c2, euclid.Space{})
	_ = a.Push([]float64{4})
	_ = b.Push([]float64{8})
	if err := a.Batch(); err != nil {
		t.Fatal(err)
	}
	if c := a.Centroids()[0].([]float64)[0]; c != 1 {
		t.Fatal("the data of the other copy was used", c)
	}
}
'''
