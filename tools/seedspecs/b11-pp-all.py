ID="b11-pp-all"; PROPERTY="C11"
NEEDS="k equal to the number of elements, with repeated elements."
BREAKS="kmeans++ takes all elements when k equals their number, even repeated ones, instead of failing."
EDITS=[("kmeans/init.go","""	err = check(k, elemts)

	if err == nil {
		centroids = make(core.Clust, k)
		var draw""","""	err = check(k, elemts)

	if err == nil && k == len(elemts) {
		return GivenInitializer(k, elemts, space, src)
	}

	if err == nil {
		centroids = make(core.Clust, k)
		var draw""")]
PKG="kmeans"
DEMO='''package kmeans_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"golang.org/x/exp/rand"
)

func TestDemo(t *testing.T) {
	var data = []core.Elemt{[]float64{1}, []float64{2}, []float64{2}, []float64{3}}
	var c, err = kmeans.PPInitializer(4, data, euclid.NewSpace(), rand.New(rand.NewSource(1)))
	if err == nil {
		t.Fatal("no error", c)
	}
}
'''
