package h

import (
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"

	"verifharness/vk"
)

func realSeries(name string, n, dim int) [][]float64 {
	s := make([][]float64, n)
	for i := range s {
		s[i] = vec(name, dim, 100)
	}
	return s
}

func cpSeries(s [][]float64) [][]float64 {
	r := make([][]float64, len(s))
	for i := range s {
		r[i] = cp(s[i])
	}
	return r
}

func sameSeries(a, b [][]float64) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vk.All(ok, same(a[i], b[i]))
	}
	return ok
}

func nearVec(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vk.All(ok, near(a[i], b[i]))
	}
	return ok
}

// C10Resize: resizing by linear interpolation.
func C10Resize() {
	n, size, dim := vk.Param("n"), vk.Param("size"), vk.Param("dim")
	s := realSeries("s", n, dim)
	keep := cpSeries(s)
	r := dtw.Resize(s, size, euclid.NewSpace())
	vk.Assert(len(r) == size, "the new size")
	vk.Assert(nearVec(r[0], s[0]), "the first point is kept")
	vk.Assert(nearVec(r[size-1], s[n-1]), "the last point is kept")
	for i := range r {
		// position i*(n-1)/(size-1)
		x := i * (n - 1)
		lo, rest := x/(size-1), x%(size-1)
		for c := 0; c < dim; c++ {
			want := keep[lo][c]
			if rest > 0 {
				f := float64(rest) / float64(size-1)
				want = keep[lo][c]*(1-f) + keep[lo+1][c]*f
			}
			vk.Assert(near(r[i][c], want), "linear interpolation between the right neighbours")
			vk.Observe("r", r[i][c])
		}
	}
	vk.Assert(sameSeries(s, keep), "the series is not modified")
	vk.Cover("done")
}

// C10Shrink: the longer series is shrunk to the shorter plus the window.
func C10Shrink() {
	n1, n2, w := vk.Param("n1"), vk.Param("n2"), vk.Param("w")
	s1, s2 := realSeries("s", n1, 1), realSeries("t", n2, 1)
	k1, k2 := cpSeries(s1), cpSeries(s2)
	r1, r2 := dtw.ShrinkLongest(s1, s2, euclid.NewSpace(), w)
	want1, want2 := n1, n2
	if w > 0 && n1 > n2+w {
		want1 = n2 + w
		vk.Cover("shrunk")
	}
	if w > 0 && n2 > n1+w {
		want2 = n1 + w
		vk.Cover("shrunk")
	}
	vk.Assert(len(r1) == want1 && len(r2) == want2, "the longest is shrunk to the shortest plus the window")
	vk.Assert(vk.All(sameSeries(s1, k1), sameSeries(s2, k2)), "the series are not modified")
	if want1 == n1 {
		vk.Assert(sameSeries(r1, k1), "the first series is unchanged")
	} else {
		vk.Assert(vk.All(nearVec(r1[0], k1[0]), nearVec(r1[want1-1], k1[n1-1])), "the ends are kept")
	}
	if want2 == n2 {
		vk.Assert(sameSeries(r2, k2), "the second series is unchanged")
	} else {
		vk.Assert(vk.All(nearVec(r2[0], k2[0]), nearVec(r2[want2-1], k2[n2-1])), "the ends are kept")
	}
	vk.Cover("done")
}

// C10Average: the weighted average of two series.
func C10Average() {
	n1, n2, w1, w2, w := vk.Param("n1"), vk.Param("n2"), vk.Param("w1"), vk.Param("w2"), vk.Param("w")
	s1, s2 := realSeries("s", n1, 1), realSeries("t", n2, 1)
	if vk.Param("equal") == 1 {
		s2 = cpSeries(s1)
	}
	k1, k2 := cpSeries(s1), cpSeries(s2)
	ss := dtw.NewSpace(dtw.Conf{InnerSpace: euclid.NewSpace(), Window: w})
	r := ss.Combine(s1, w1, s2, w2).([][]float64)
	if vk.Param("equal") == 1 {
		vk.Assert(len(r) == n1, "the average of a series with itself has its length")
		for i := range r {
			vk.Assert(nearVec(r[i], k1[i]), "the average of a series with itself is itself")
		}
		vk.Cover("done")
		return
	}
	l1, l2 := n1, n2
	if w > 0 && l1 > l2+w {
		l1 = l2 + w
	}
	if w > 0 && l2 > l1+w {
		l2 = l1 + w
	}
	lo, hi := l1, l2
	if lo > hi {
		lo, hi = hi, lo
	}
	vk.Assert(len(r) >= lo && len(r) <= hi, "length between the shorter and the longer")
	span := (l1-1)*w1 + (l2-1)*w2
	vk.Assert(len(r) == span/(w1+w2)+1, "length is the weighted mean of the lengths, rounded down")
	mean := func(a, b []float64) float64 {
		return (a[0]*float64(w1) + b[0]*float64(w2)) / float64(w1+w2)
	}
	vk.Assert(near(r[0][0], mean(k1[0], k2[0])), "starts at the mean of the starts")
	if span%(w1+w2) == 0 {
		vk.Assert(near(r[len(r)-1][0], mean(k1[n1-1], k2[n2-1])), "ends at the mean of the ends")
		vk.Cover("exact end")
	}
	min, max := 100., -100.
	for i := range k1 {
		min, max = fmin(min, k1[i][0]), fmax(max, k1[i][0])
	}
	for i := range k2 {
		min, max = fmin(min, k2[i][0]), fmax(max, k2[i][0])
	}
	for i := range r {
		vk.Assert(vk.All(r[i][0] >= min-1e-6, r[i][0] <= max+1e-6), "stays within the values of the series")
		vk.Observe("r", r[i][0])
	}
	vk.Assert(vk.All(sameSeries(s1, k1), sameSeries(s2, k2)), "the series are not modified")
	for i := range r {
		r[i][0] = 7
	}
	vk.Assert(vk.All(sameSeries(s1, k1), sameSeries(s2, k2)), "the average shares no point with the series")
	vk.Cover("done")
}

// C10Copy: copies of series are equal and independent.
func C10Copy() {
	n, dim := vk.Param("n"), vk.Param("dim")
	s := realSeries("s", n, dim)
	keep := cpSeries(s)
	ss := dtw.NewSpace(dtw.Conf{InnerSpace: euclid.NewSpace()})
	c := ss.Copy(s).([][]float64)
	vk.Assert(sameSeries(c, keep), "a copy is equal")
	for i := range c {
		for j := range c[i] {
			c[i][j] += 1
		}
	}
	vk.Assert(sameSeries(s, keep), "a copy is independent")
	vk.Cover("done")
}
