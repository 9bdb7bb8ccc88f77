package h

import (
	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/mcmc"

	"verifharness/vk"
)

type built struct{ by *Mem }

func (b *built) Sample(mu core.Elemt, time int) core.Elemt { return &Mem{W: mu.(*Mem).ID*10 + time} }
func (b *built) Pdf(x, mu core.Elemt, time int) float64 {
	return float64(x.(*Mem).ID*100 + mu.(*Mem).ID*10 + time)
}

// C27Late: several goroutines use a late distribution for the first time.
func C27Late() {
	n, uses := vk.Param("n"), vk.Param("uses")
	kinds := make([]int, n)
	for i := range kinds {
		kinds[i] = vk.Concrete(vk.Int("kind", 0, 1))
	}
	builds := 0
	busy := false
	var made *built
	d := mcmc.NewLateDistrib(func(e core.Elemt) mcmc.Distrib {
		vk.Assert(!busy, "one builder at a time")
		busy = true
		if vk.Param("yield") == 1 {
			vk.Yield()
		}
		builds++
		made = &built{e.(*Mem)}
		busy = false
		return made
	})
	done := make(chan bool, n)
	use := func(i int) {
		for j := 1; j <= uses; j++ {
			mu := &Mem{ID: i + 1}
			if kinds[i] == 0 {
				got, ok := d.Sample(mu, j).(*Mem)
				vk.Assert(ok && got.W == 10*(i+1)+j, "the sample is drawn from the built distribution")
			} else {
				vk.Assert(d.Pdf(mu, &Mem{ID: i + 2}, j) == float64(100*(i+1)+10*(i+2)+j) || d.Pdf(&Mem{ID: i + 2}, mu, j) == 0, "the density is that of the built distribution")
			}
		}
		done <- true
	}
	for i := 1; i < n; i++ {
		i := i
		go use(i)
	}
	use(0)
	for i := 0; i < n; i++ {
		<-done
	}
	vk.Assert(builds == 1, "the builder is called exactly once")
	id := made.by.ID
	vk.Assert(1 <= id && id <= n+1, "with an element given by a caller")
	vk.Cover("done")
}
