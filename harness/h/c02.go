package h

import (
	"time"

	"github.com/wearelumenai/distclus/core"

	"verifharness/vk"
)

// C02Par: Par over n items (any n) with the given degree.
func C02Par() {
	d := vk.Param("degree")
	n := vk.Int("n", 0, 1<<40)
	if rem := vk.Param("rem"); rem >= 0 {
		n = vk.Int("q", 0, 1<<30)*d + rem
	}
	calls := make([]int, d)
	starts := make([]int, d)
	ends := make([]int, d)
	done := make([]bool, d)
	core.Par(func(start, end, rank int) {
		vk.Assert(rank >= 0 && rank < d, "rank in range")
		calls[rank]++
		starts[rank], ends[rank] = start, end
		time.Sleep(time.Duration(1+rank) * time.Millisecond)
		done[rank] = true
	}, n, d)
	pos := 0
	lo, hi := n, 0
	for r := 0; r < d; r++ {
		vk.Assert(done[r], "Par returns after every call has returned")
		vk.Assert(calls[r] == 1, "one call per rank")
		vk.Assert(starts[r] == pos, "slices are consecutive")
		vk.Assert(ends[r] >= starts[r], "slices are ordered")
		pos = ends[r]
		l := ends[r] - starts[r]
		lo = vk.IteInt(l < lo, l, lo)
		hi = vk.IteInt(l > hi, l, hi)
	}
	vk.Assert(pos == n, "the slices cover all the items")
	vk.Assert(hi-lo <= 1, "the lengths differ by at most one")
	vk.Cover("done")
	vk.Observe("pos", pos)
	vk.Observe("first", ends[0])
}
