package h

import (
	"math"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/dtw"

	"verifharness/vk"
)

// ptTable is a point space with arbitrary distances between numbered points.
type ptTable struct{ table }

func (t *ptTable) Dist(a, b core.Elemt) float64 {
	return t.PointDist(a.([]float64), b.([]float64))
}
func (t *ptTable) PointDist(a, b []float64) float64 { return t.at(int(a[0]), int(b[0])) }
func (t *ptTable) PointCombine(a []float64, w1 int, b []float64, w2 int) []float64 {
	return cp(a)
}
func (t *ptTable) PointCopy(a []float64) []float64 { return cp(a) }

func series(from, n int) [][]float64 {
	s := make([][]float64, n)
	for i := range s {
		s[i] = []float64{float64(from + i)}
	}
	return s
}

func inWin(i, j, w int) bool { return w == 0 || (i-j <= w && j-i <= w) }

// best enumerates every admissible alignment and asserts that none is
// cheaper than d; found tells whether one costs d.
func alignments(sp *ptTable, s1, s2 [][]float64, i, j, w int, sum float64, f func(total float64)) {
	if !inWin(i, j, w) {
		return
	}
	sum += sp.PointDist(s1[i], s2[j])
	if i == len(s1)-1 && j == len(s2)-1 {
		f(sum)
		return
	}
	if i+1 < len(s1) {
		alignments(sp, s1, s2, i+1, j, w, sum, f)
	}
	if j+1 < len(s2) {
		alignments(sp, s1, s2, i, j+1, w, sum, f)
	}
	if i+1 < len(s1) && j+1 < len(s2) {
		alignments(sp, s1, s2, i+1, j+1, w, sum, f)
	}
}

// C09DTW: distance and path against all admissible alignments.
func C09DTW() {
	l1, l2, w := vk.Param("l1"), vk.Param("l2"), vk.Param("w")
	sp := &ptTable{*newTable(l1 + l2)}
	for i := 0; i < l1; i++ {
		for j := l1; j < l1+l2; j++ {
			x := vk.Float("d", 0, 100)
			sp.d[i*sp.n+j] = x
			sp.d[j*sp.n+i] = x
		}
	}
	s1, s2 := series(0, l1), series(l1, l2)
	a := dtw.NewDTWWindow(s1, s2, sp, w)
	d := a.Dist()
	vk.Observe("dist", d)
	tight := false
	alignments(sp, s1, s2, 0, 0, w, 0, func(total float64) {
		vk.Assert(total >= d-1e-6, "no admissible alignment is cheaper")
		tight = vk.Any(tight, vk.All(total-d <= 1e-6, d-total <= 1e-6))
	})
	vk.Assert(tight, "an admissible alignment costs the distance")
	// the path
	path := a.Path()
	vk.Assert(len(path) >= 1, "there is a path")
	vk.Assert(path[0] == dtw.Ends{End0: l1 - 1, End1: l2 - 1}, "the path starts at both ends")
	vk.Assert(path[len(path)-1] == dtw.Ends{}, "the path ends at both beginnings")
	sum := 0.
	for i, p := range path {
		vk.Assert(p.End0 >= 0 && p.End0 < l1 && p.End1 >= 0 && p.End1 < l2, "inside the series")
		vk.Assert(inWin(p.End0, p.End1, w), "inside the window")
		sum += sp.PointDist(s1[p.End0], s2[p.End1])
		if i > 0 {
			d0, d1 := path[i-1].End0-p.End0, path[i-1].End1-p.End1
			vk.Assert(d0 >= 0 && d0 <= 1 && d1 >= 0 && d1 <= 1 && d0+d1 > 0, "steps back by at most one")
			if d0+d1 == 1 {
				vk.Cover("single step")
			}
		}
	}
	vk.Assert(near(sum, d), "the path costs the distance")
	vk.Cover("done")
}

// C09Symmetric: swapping the series; the series space.
func C09Symmetric() {
	l1, l2, w := vk.Param("l1"), vk.Param("l2"), vk.Param("w")
	sp := &ptTable{*newTable(l1 + l2)}
	for i := 0; i < l1; i++ {
		for j := l1; j < l1+l2; j++ {
			x := vk.Float("d", 0, 100)
			sp.d[i*sp.n+j] = x
			sp.d[j*sp.n+i] = x
		}
	}
	s1, s2 := series(0, l1), series(l1, l2)
	ss := dtw.NewSpace(dtw.Conf{InnerSpace: sp, Window: w})
	a, b := ss.Dist(s1, s2), ss.Dist(s2, s1)
	vk.Assert(near(a, b), "unchanged when the series are swapped")
	c := dtw.NewDTWWindow(s1, s2, sp, w)
	vk.Assert(near(c.Dist(), a), "the space reports the distance of the alignment")
	vk.Observe("d", a)
	vk.Cover("done")
}

// C09Self: zero against itself.
func C09Self() {
	l, w := vk.Param("l1"), vk.Param("w")
	sp := &ptTable{*newTable(l)}
	for i := 0; i < l; i++ {
		for j := 0; j < i; j++ {
			x := vk.Float("d", 0, 100)
			sp.d[i*sp.n+j] = x
			sp.d[j*sp.n+i] = x
		}
	}
	s := series(0, l)
	ss := dtw.NewSpace(dtw.Conf{InnerSpace: sp, Window: w})
	vk.Assert(ss.Dist(s, s) == 0, "zero against itself")
	vk.Cover("done")
}

// C09Outside: accumulated costs outside the window are infinite.
func C09Outside() {
	l1, l2, w := vk.Param("l1"), vk.Param("l2"), vk.Param("w")
	sp := &ptTable{*newTable(l1 + l2)}
	for i := 0; i < l1; i++ {
		for j := l1; j < l1+l2; j++ {
			sp.d[i*sp.n+j] = vk.Float("d", 0, 100)
		}
	}
	s1, s2 := series(0, l1), series(l1, l2)
	m := dtw.NewCumCostMatrix(s1, s2, sp, w)
	for i := 0; i < l1; i++ {
		for j := 0; j < l2; j++ {
			c := m.Get(i, j)
			if inWin(i, j, w) {
				vk.Assert(!math.IsInf(c, 0), "finite inside the window")
				// the cost of the cheapest alignment of the prefixes
				tight := false
				alignments(sp, s1[:i+1], s2[:j+1], 0, 0, w, 0, func(total float64) {
					vk.Assert(total >= c-1e-6, "no alignment of the prefixes is cheaper")
					tight = vk.Any(tight, vk.All(total-c <= 1e-6, c-total <= 1e-6))
				})
				vk.Assert(tight, "an alignment of the prefixes costs the accumulated cost")
			} else {
				vk.Assert(math.IsInf(c, 1), "infinite outside the window")
				vk.Cover("outside")
			}
		}
	}
}
