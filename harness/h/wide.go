package h

import (
	"math"

	"golang.org/x/exp/rand"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"

	"verifharness/vk"
)

// Harnesses on larger sizes: most values are fixed numbers (with ties), some
// are arbitrary, so that the number of paths stays small.

// lcg is a sequence of fixed numbers.
type lcg struct{ x int }

func (l *lcg) next(n int) int {
	l.x = (l.x*1103515245 + 12345) & 0x7fffffff
	return l.x >> 8 % n
}

// num is one of 64 numbers of [lo,hi).
func (l *lcg) num(lo, hi float64) float64 { return lo + (hi-lo)*float64(l.next(64))/64 }

// rough fills distances with fixed numbers, sym of them are arbitrary.
func (t *table) rough(r0, r1, c0, c1, sym int, lo, hi float64) {
	l := &lcg{12345}
	for i := r0; i < r1; i++ {
		for j := c0; j < c1; j++ {
			t.d[i*t.n+j] = l.num(lo, hi)
		}
	}
	total := (r1 - r0) * (c1 - c0)
	for s := 0; s < sym && s < total; s++ {
		p := total - 1 - s*(total-1)/sym
		t.d[(r0+p/(c1-c0))*t.n+c0+p%(c1-c0)] = vk.Float("d", lo, hi)
	}
}

// scan is the first index of the minimal distance.
func (t *table) scan(row, k int) int {
	best := 0
	for j := 1; j < k; j++ {
		if t.at(row, j) < t.at(row, best) {
			best = j
		}
	}
	return best
}

// Bag is an element that remembers what it was combined from.
type Bag struct {
	ID   int
	W    int
	A, B *Bag
}

func (b *Bag) count(n []int) {
	if b.A == nil {
		n[b.ID]++
		return
	}
	b.A.count(n)
	b.B.count(n)
}

// bagSpace has distances between elements (rows) and centroids.
type bagSpace struct{ table }

func (s *bagSpace) Dist(a, b core.Elemt) float64 { return s.at(a.(*Bag).ID, b.(*Bag).ID) }

func (s *bagSpace) Combine(a core.Elemt, w1 int, b core.Elemt, w2 int) core.Elemt {
	x, y := a.(*Bag), b.(*Bag)
	vk.Assert(w1 == x.W, "the first weight is the weight gathered so far")
	vk.Assert(w2 == y.W, "the second weight is the weight of the combined element")
	return &Bag{-1, x.W + y.W, x, y}
}

func (s *bagSpace) Copy(a core.Elemt) core.Elemt {
	x := *a.(*Bag)
	return &x
}

func bags(k, n, sym int) (*bagSpace, core.Clust, []core.Elemt) {
	sp := &bagSpace{*newTable(k + n)}
	sp.rough(k, k+n, 0, k, sym, 0, 1000)
	clust := make(core.Clust, k)
	for i := range clust {
		clust[i] = &Bag{ID: i, W: 1}
	}
	elemts := make([]core.Elemt, n)
	for i := range elemts {
		elemts[i] = &Bag{ID: k + i, W: 1}
	}
	return sp, clust, elemts
}

// groups checks that each result gathers the elements with its label once.
func groups(res []core.Elemt, cards []int, clust core.Clust, elemts []core.Elemt, labels []int, kept bool) {
	k := len(clust)
	vk.Assert(len(res) == k && (cards == nil || len(cards) == k), "one result per cluster")
	for i := 0; i < k; i++ {
		card := 0
		for j := range labels {
			if labels[j] == i {
				card++
			}
		}
		vk.Assert(cards == nil || cards[i] == card, "cardinality is the number of members")
		if card == 0 {
			if kept {
				vk.Assert(res[i] == clust[i], "a cluster without elements keeps its centroid")
			} else {
				vk.Assert(res[i] == nil, "no barycenter for an empty cluster")
			}
			continue
		}
		b := res[i].(*Bag)
		vk.Assert(b.W == card, "the barycenter weighs the number of members")
		in := make([]int, k+len(elemts))
		b.count(in)
		for j := range elemts {
			want := 0
			if labels[j] == i {
				want = 1
			}
			vk.Assert(in[k+j] == want, "the barycenter combines exactly the members, once each")
			vk.Assert(res[i] != elemts[j], "the barycenter is not an element itself")
		}
	}
	for i := range elemts {
		vk.Assert(*elemts[i].(*Bag) == Bag{ID: k + i, W: 1}, "elements are not modified")
	}
	for i := range clust {
		vk.Assert(*clust[i].(*Bag) == Bag{ID: i, W: 1}, "centroids are not modified")
	}
}

// C01Wide: many centroids and elements.
func C01Wide() {
	k, n := vk.Param("k"), vk.Param("n")
	sp := newTable(k + n)
	sp.rough(k, k+n, 0, k, vk.Param("sym"), -1000, 1000)
	clust, elemts := core.Clust(points(k)), points(k + n)[k:]
	var labels []int
	var dists []float64
	switch d := vk.Param("degree"); d {
	case -1:
		a := core.NewAlgo(&conf{}, &fixed{clust}, sp)
		vk.Assert(a.Init() == nil, "init")
		for _, e := range elemts {
			c, label, dist := a.Predict(e)
			vk.Assert(c == clust[label], "the centroid is the labelled one")
			labels, dists = append(labels, label), append(dists, dist)
		}
	case 0:
		labels, dists = clust.MapLabel(elemts, sp)
	default:
		labels, dists = clust.ParMapLabel(elemts, sp, d)
	}
	vk.Assert(len(labels) == n && len(dists) == n, "one label and one distance per element")
	for i := range elemts {
		c01check(sp, k, k+i, labels[i], dists[i])
		vk.Observe("label", labels[i])
	}
	vk.Cover("done")
}

// C03Wide: the parallel forms on many elements.
func C03Wide() {
	k, n, degree := vk.Param("k"), vk.Param("n"), vk.Param("degree")
	sp, clust, elemts := bags(k, n, vk.Param("sym"))
	labels := make([]int, n)
	for i := range labels {
		labels[i] = sp.scan(k+i, k)
	}
	given := append([]int(nil), labels...)
	l, d := clust.ParMapLabel(elemts, sp, degree)
	for i := range labels {
		vk.Assert(l[i] == labels[i] && d[i] == sp.at(k+i, labels[i]), "same labels and distances")
	}
	res, cards := clust.ParReduceDBA(elemts, sp, degree)
	groups(res, cards, clust, elemts, labels, true)
	means, cards := clust.ParReduceDBAForLabels(elemts, labels, sp, degree)
	groups(means, cards, clust, elemts, given, false)
	lo, c1 := clust.ParReduceLoss(elemts, sp, 2, degree)
	ll, c2 := clust.ParReduceLossForLabels(elemts, labels, sp, 2, degree)
	total := 0.
	for i := range clust {
		sum, card := 0., 0
		for j := range elemts {
			if given[j] == i {
				x := sp.at(k+j, i)
				sum += x * x
				card++
			}
		}
		total += sum
		vk.Assert(vk.All(nearRel(lo[i], sum, 1e9), nearRel(ll[i], sum, 1e9)), "same losses")
		vk.Assert(c1[i] == card && c2[i] == card, "same cardinalities")
		vk.Observe("card", card)
	}
	vk.Assert(nearRel(clust.ParTotalLoss(elemts, sp, 2, degree), total, 1e9), "same total loss")
	vk.Cover("done")
}

// C04Wide: the sequential reductions on many elements.
func C04Wide() {
	k, n := vk.Param("k"), vk.Param("n")
	sp, clust, elemts := bags(k, n, vk.Param("sym"))
	labels := make([]int, n)
	for i := range labels {
		labels[i] = sp.scan(k+i, k)
	}
	given := append([]int(nil), labels...)
	res, cards := clust.ReduceDBA(elemts, sp)
	groups(res, cards, clust, elemts, labels, false)
	means, cards := clust.ReduceDBAForLabels(elemts, labels, sp)
	groups(means, cards, clust, elemts, given, false)
	one, in := make([]int, n), make([]int, k+n)
	dba, err := core.DBA(elemts, sp)
	vk.Assert(err == nil, "no error")
	dba.(*Bag).count(in)
	for i := range elemts {
		vk.Assert(in[k+i] == 1 && *elemts[i].(*Bag) == Bag{ID: k + i, W: 1}, "every element is combined once and none modified")
	}
	vk.Assert(dba.(*Bag).W == n, "the average weighs the number of elements")
	for i := range elemts {
		one[i] = 1 + i%5
		if i%7 == 3 {
			one[i] += 1 << 40
		}
		elemts[i] = &Bag{ID: k + i, W: one[i]}
	}
	dba, err = core.WeightedDBA(elemts, one, sp)
	vk.Assert(err == nil, "no error")
	in = make([]int, k+n)
	dba.(*Bag).count(in)
	w := 0
	for i := range elemts {
		vk.Assert(in[k+i] == 1 && one[i]%(1<<40) == 1+i%5, "every element is combined once")
		w += one[i]
	}
	vk.Assert(dba.(*Bag).W == w, "the average carries the total weight")
	vk.Cover("done")
}

// C05Wide: losses of many elements.
func C05Wide() {
	k, n, norm := vk.Param("k"), vk.Param("n"), vk.Param("norm")
	sp, clust, elemts := bags(k, n, vk.Param("sym"))
	labels := make([]int, n)
	for i := range labels {
		labels[i] = sp.scan(k+i, k)
	}
	lo, c1 := clust.ReduceLoss(elemts, sp, float64(norm))
	ll, c2 := clust.ReduceLossForLabels(elemts, labels, sp, float64(norm))
	total := 0.
	for i := range clust {
		sum, card := 0., 0
		for j := range elemts {
			if labels[j] == i {
				x := sp.at(k+j, i)
				if norm == 2 {
					x *= x
				}
				sum += x
				card++
			}
		}
		total += sum
		vk.Assert(vk.All(nearRel(lo[i], sum, 1e9), nearRel(ll[i], sum, 1e9)), "the loss is the sum of the distance powers")
		vk.Assert(c1[i] == card && c2[i] == card, "cardinality is the number of members")
		vk.Observe("card", card)
	}
	vk.Assert(nearRel(clust.TotalLoss(elemts, sp, float64(norm)), total, 1e9), "the total loss is the sum over the clusters")
	vk.Cover("done")
}

// C06Wide: bursts of pushes on larger buffers.
func C06Wide() {
	size := []int{0, 1, 7, 32, 100}[vk.Concrete(vk.Int("size", 0, 4))]
	n := []int{0, 5, 31, 120}[vk.Concrete(vk.Int("init", 0, 3))]
	burst := []int{1, 8, 40}[vk.Concrete(vk.Int("burst", 0, 2))]
	own := points(n + 3)
	keep := append([]core.Elemt(nil), own...)
	visible := append([]core.Elemt(nil), own[:n]...)
	b := core.NewDataBuffer(own[:n], size)
	check := func() {
		d := b.Data()
		want := visible
		if size > 0 && len(want) > size {
			want = want[len(want)-size:]
		}
		vk.Assert(len(d) == len(want), "the buffer holds the last elements up to its size")
		if size <= 0 {
			for i := range want {
				vk.Assert(d[i] == want[i], "in arrival order")
			}
		} else {
			at := map[int]int{}
			for _, e := range d {
				at[e.(*Pt).ID]++
			}
			for _, e := range want {
				vk.Assert(at[e.(*Pt).ID] == 1, "each of the last elements is held once")
			}
		}
	}
	id := n + 3
	push := func(running bool) core.Elemt {
		e := core.Elemt(&Pt{id})
		id++
		vk.Assert(b.Push(e, running) == nil, "push")
		return e
	}
	check()
	for r := 0; r < vk.Param("rounds"); r++ {
		var staged []core.Elemt
		for i := 0; i < burst; i++ {
			staged = append(staged, push(true))
		}
		check()
		if r%2 == 0 {
			vk.Assert(b.Apply() == nil, "apply")
			visible = append(visible, staged...)
		} else {
			visible = append(append(visible, staged...), push(false))
		}
		check()
		for i := 0; i < burst+r; i++ {
			visible = append(visible, push(false))
		}
		check()
	}
	for i := range own {
		vk.Assert(own[i] == keep[i], "the caller's slice is not written")
	}
	vk.Cover("done")
}

// wideVec is a vector of fixed numbers with an arbitrary one anywhere.
func wideVec(l *lcg, name string, dim, pos int) []float64 {
	v := make([]float64, dim)
	for i := range v {
		v[i] = l.num(-8, 8) + 1./128
	}
	v[pos] = vk.Float(name, -100, 100)
	return v
}

// C07Wide: vectors of higher dimension.
func C07Wide() {
	dim, cos := vk.Param("dim"), vk.Param("cosinus") == 1
	pos := vk.Concrete(vk.Int("pos", 0, dim-1))
	l := &lcg{777}
	x, y := wideVec(l, "x", dim, pos), wideVec(l, "y", dim, pos)
	x0, y0 := cp(x), cp(y)
	var sp core.Space = euclid.NewSpace()
	if cos {
		sp = cosinus.NewSpace()
	}
	xx, yy, xy, sum := 0., 0., 0., 0.
	for i := range x {
		xx += x[i] * x[i]
		yy += y[i] * y[i]
		xy += x[i] * y[i]
		sum += (x[i] - y[i]) * (x[i] - y[i])
	}
	d := sp.Dist(x, y)
	if cos {
		vk.Assert(near(d, fmax(0, fmin(2, 1-xy/(math.Sqrt(xx)*math.Sqrt(yy))))), "one minus the cosine")
	} else {
		vk.Assert(d >= 0, "never negative")
		vk.Assert(vk.All(d*d-sum <= 1e-7*(1+sum), sum-d*d <= 1e-7*(1+sum)), "root of the summed squared differences")
	}
	c := sp.Combine(x, 3, y, 5).([]float64)
	vk.Assert(len(c) == dim, "dimension is kept")
	for i := range c {
		vk.Assert(nearRel(c[i]*8, 3*x0[i]+5*y0[i], 1000), "weighted mean")
		c[i] = 7
	}
	c = sp.Copy(x).([]float64)
	vk.Assert(same(c, x0), "a copy is equal")
	for i := range c {
		c[i] = 7
	}
	vk.Assert(vk.All(same(x, x0), same(y, y0)), "vectors are not modified")
	vk.Assert(sp.Dim([]core.Elemt{x}) == dim, "dimension of the data")
	vk.Cover("done")
}

// C09Wide: longer series, against the recurrence over all alignments.
func C09Wide() {
	l1, l2, w := vk.Param("l1"), vk.Param("l2"), vk.Param("w")
	sp := &ptTable{*newTable(l1 + l2)}
	sp.rough(0, l1, l1, l1+l2, 0, 0, 100)
	for s := 1; s <= vk.Param("sym"); s++ {
		i := s * l1 / (vk.Param("sym") + 2)
		sp.d[i*sp.n+l1+i*l2/l1] = vk.Float("d", 0, 100)
	}
	for i := 0; i < l1; i++ {
		for j := l1; j < l1+l2; j++ {
			sp.d[j*sp.n+i] = sp.at(i, j)
		}
	}
	s1, s2 := series(0, l1), series(l1, l2)
	m := dtw.NewCumCostMatrix(s1, s2, sp, w)
	cost := make([][]float64, l1)
	for i := range cost {
		cost[i] = make([]float64, l2)
		for j := range cost[i] {
			if !inWin(i, j, w) {
				vk.Assert(math.IsInf(m.Get(i, j), 1), "infinite outside the window")
				continue
			}
			best, none := 0., true
			from := func(a, b int) {
				if a >= 0 && b >= 0 && inWin(a, b, w) {
					if none {
						best = cost[a][b]
					} else {
						best = fmin(best, cost[a][b])
					}
					none = false
				}
			}
			from(i-1, j-1)
			from(i-1, j)
			from(i, j-1)
			cost[i][j] = best + sp.at(i, l1+j)
			vk.Assert(near(m.Get(i, j), cost[i][j]), "the accumulated cost is the one of the cheapest alignment")
		}
	}
	a := dtw.NewDTWWindow(s1, s2, sp, w)
	vk.Assert(near(a.Dist(), cost[l1-1][l2-1]), "the distance is the cost of the cheapest alignment")
	ss := dtw.NewSpace(dtw.Conf{InnerSpace: sp, Window: w})
	vk.Assert(near(ss.Dist(s2, s1), a.Dist()), "unchanged when the series are swapped")
	path := a.Path()
	vk.Assert(path[0] == dtw.Ends{End0: l1 - 1, End1: l2 - 1} && path[len(path)-1] == dtw.Ends{}, "the path joins both ends")
	sum := 0.
	for i, p := range path {
		vk.Assert(p.End0 >= 0 && p.End0 < l1 && p.End1 >= 0 && p.End1 < l2 && inWin(p.End0, p.End1, w), "inside the series and the window")
		sum += sp.PointDist(s1[p.End0], s2[p.End1])
		if i > 0 {
			d0, d1 := path[i-1].End0-p.End0, path[i-1].End1-p.End1
			vk.Assert(d0 >= 0 && d0 <= 1 && d1 >= 0 && d1 <= 1 && d0+d1 > 0, "steps back by at most one")
		}
	}
	vk.Assert(near(sum, a.Dist()), "the path costs the distance")
	vk.Observe("d", a.Dist())
	vk.Cover("done")
}

// halfSpace is a point space whose distances depend on the first coordinate.
type halfSpace struct{ euclid.Space }

func (h halfSpace) PointDist(a, b []float64) float64 { return abs(a[0] - b[0]) }

// C10Wide: averages of longer series. The alignment depends on fixed
// coordinates, the other ones are arbitrary.
func C10Wide() {
	n1, n2, w1, w2, w := vk.Param("n1"), vk.Param("n2"), vk.Param("w1"), vk.Param("w2"), vk.Param("w")
	l := &lcg{4242}
	mk := func(name string, n int) [][]float64 {
		s := make([][]float64, n)
		for i := range s {
			s[i] = []float64{l.num(0, 64), vk.Float(name, -100, 100)}
		}
		return s
	}
	s1, s2 := mk("s", n1), mk("t", n2)
	k1, k2 := cpSeries(s1), cpSeries(s2)
	sp := halfSpace{euclid.NewSpace()}
	ss := dtw.NewSpace(dtw.Conf{InnerSpace: sp, Window: w})
	r := ss.Combine(s1, w1, s2, w2).([][]float64)
	l1, l2 := dtw.ShrinkLongest(k1, k2, sp, w)
	span := (len(l1)-1)*w1 + (len(l2)-1)*w2
	vk.Assert(len(r) == span/(w1+w2)+1, "length is the weighted mean of the lengths, rounded down")
	path := dtw.NewDTWWindow(l1, l2, sp, w).Path()
	// pos is the place of an aligned pair, val its weighted mean
	pos := func(i int) int { return path[i].End0*w1 + path[i].End1*w2 }
	val := func(i, c int) float64 {
		return (l1[path[i].End0][c]*float64(w1) + l2[path[i].End1][c]*float64(w2)) / float64(w1+w2)
	}
	for i := range r {
		x, j := i*(w1+w2), len(path)-1
		for pos(j) < x {
			j--
		}
		for c := 0; c < 2; c++ {
			want := val(j, c)
			if pos(j) > x {
				d := float64(pos(j) - pos(j+1))
				want = (want*float64(x-pos(j+1)) + val(j+1, c)*float64(pos(j)-x)) / d
				vk.Cover("between")
			}
			vk.Assert(near(r[i][c], want), "every point lies between the means of consecutive aligned pairs")
		}
	}
	e := ss.Combine(s1, w1, cpSeries(s1), w2).([][]float64)
	vk.Assert(len(e) == n1, "the average of a series with itself has its length")
	for i := range e {
		vk.Assert(nearVec(e[i], k1[i]), "the average of a series with itself is itself")
	}
	vk.Assert(vk.All(sameSeries(s1, k1), sameSeries(s2, k2)), "the series are not modified")
	vk.Cover("done")
}

// fixedDraws is a generator source of fixed words.
type fixedDraws struct{ l lcg }

func (s *fixedDraws) Seed(uint64) {}

func (s *fixedDraws) Uint64() uint64 {
	x := uint64(0)
	for i := 0; i < 4; i++ {
		x = x<<16 | uint64(s.l.next(1<<16))
	}
	return x
}

// C12Wide: draws over many weights.
func C12Wide() {
	n := vk.Param("n")
	l := &lcg{99}
	w := make([]float64, n)
	for i := range w {
		if w[i] = l.num(0, 16); i%5 == 3 {
			w[i] = 0
		}
	}
	for s := 0; s < vk.Param("sym"); s++ {
		w[n-1-s*(n-1)/vk.Param("sym")] = vk.Float("w", 0, 16)
	}
	keep := cp(w)
	sum := 0.
	for i := range w {
		sum += w[i]
	}
	src := vk.NewSource("r")
	idx, err := kmeans.WeightedChoice(w, rand.New(src))
	vk.Assert(err == nil, "no error")
	vk.Assert(idx >= 0 && idx < n && w[idx] > 0, "a valid index of positive weight")
	cursor, below := src.Last()*sum, 0.
	for i := 0; i < idx; i++ {
		below += w[i]
	}
	vk.Assert(vk.All(cursor >= below-1e-6, cursor <= below+w[idx]+1e-6), "where the drawn fraction falls")
	vk.Assert(same(w, keep), "the weights are not modified")
	vk.Observe("idx", idx)
	vk.Cover("done")
}

// C11Wide: many centers, any number of them, with fixed draws.
func C11Wide() {
	n := vk.Param("n")
	k := vk.Concrete(vk.Int("k", 1, n))
	data := points(n)
	keep := append([]core.Elemt(nil), data...)
	sp := newTable(n)
	sp.rough(0, n, 0, n, 0, 1, 65)
	for i := 0; i < n; i++ {
		for j := 0; j < i; j++ {
			sp.d[i*n+j] = sp.at(j, i)
		}
		sp.d[i*n+i] = 0
	}
	for s := 0; s < vk.Param("sym"); s++ {
		i, j := n-1-2*s, n-2-2*s
		x := vk.Float("d", 1, 100)
		sp.d[i*n+j], sp.d[j*n+i] = x, x
	}
	var c core.Clust
	var err error
	src := rand.New(&fixedDraws{lcg{5}})
	switch vk.Param("kind") {
	case 0:
		c, err = kmeans.GivenInitializer(k, data, sp, nil)
	case 1:
		c, err = kmeans.PPInitializer(k, data, sp, src)
	default:
		c, err = kmeans.RandInitializer(k, data, sp, src)
	}
	vk.Assert(err == nil && len(c) == k, "k centers")
	for i := range c {
		id := c[i].(*Pt).ID
		vk.Assert(id >= 0 && id < n, "centers are data elements")
		vk.Assert(vk.Param("kind") != 0 || id == i, "the first k elements in order")
		for j := 0; j < i; j++ {
			vk.Assert(c[j].(*Pt).ID != id, "different elements")
		}
		vk.Observe("c", id)
	}
	c11data(data, keep)
	vk.Cover("done")
}

// C13Wide: Lloyd steps over many elements, pushed before and between.
func C13Wide() {
	k, n, p := vk.Param("k"), vk.Param("n"), vk.Param("p")
	sp, clust, all := bags(k, n+p, vk.Param("sym"))
	sp2 := &stepSpace{*sp, k}
	cf := kmeans.Conf{K: k, Par: vk.Param("par") == 1, NumCPU: vk.Param("degree"), FrameSize: vk.Param("frame"), RGen: rand.New(vk.NewSource("r"))}
	a := kmeans.NewAlgo(cf, sp2, append([]core.Elemt(nil), all[:n]...), clust.Initializer)
	impl := a.Impl()
	model := func(st core.ClustStatus, c core.Clust) core.OCModel {
		return core.NewSimpleOCModel(a.Conf(), sp2, core.NewOCStatus(st), nil, c)
	}
	cur, err := impl.Init(model(core.Initializing, nil))
	vk.Assert(err == nil && len(cur) == k, "initialized")
	visible := append([]core.Elemt(nil), all[:n]...)
	for it := 0; it < 3; it++ {
		m := model(core.Running, cur)
		for i := n + it*p/2; i < n+(it+1)*p/2 && i < n+p; i++ {
			vk.Assert(impl.Push(all[i], m) == nil, "a push succeeds")
		}
		used := visible
		if f := vk.Param("frame"); f > 0 && len(used) > f {
			used = used[len(used)-f:]
		}
		keep := append(core.Clust(nil), cur...)
		got, _, err := impl.Iterate(m)
		vk.Assert(err == nil && len(got) == k, "the number of clusters is kept")
		labels := make([]int, len(used))
		for i, e := range used {
			for j := 1; j < k; j++ {
				if sp2.Dist(e, keep[j]) < sp2.Dist(e, keep[labels[i]]) {
					labels[i] = j
				}
			}
		}
		for j := 0; j < k; j++ {
			in, card := make([]int, k+n+p), 0
			for i := range labels {
				if labels[i] == j {
					card++
				}
			}
			if card == 0 {
				vk.Assert(got[j] == keep[j], "a centroid without elements is kept")
				continue
			}
			got[j].(*Bag).count(in)
			for i, e := range used {
				if labels[i] == j {
					in[e.(*Bag).ID]--
				} else {
					vk.Assert(in[e.(*Bag).ID] == 0, "a centroid is the barycenter of its elements only")
				}
			}
			for i := range in {
				vk.Assert(in[i] == 0, "a centroid is the barycenter of its elements, once each")
			}
			vk.Assert(got[j].(*Bag).W == card, "each element counts once")
		}
		for i := range keep {
			vk.Assert(cur[i] == keep[i], "the previous centroids are not modified")
		}
		if it < 2 {
			visible = append(visible, all[n+it*p/2:n+(it+1)*p/2]...)
		}
		cur = got
	}
	vk.Cover("done")
}

// stepSpace gives barycenters distances of their own.
type stepSpace struct {
	bagSpace
	k int
}

func (s *stepSpace) Dist(a, b core.Elemt) float64 {
	x, c := a.(*Bag), b.(*Bag)
	if c.A == nil && c.ID < s.k {
		return s.at(x.ID, c.ID)
	}
	in := make([]int, s.n)
	c.count(in)
	h := x.ID * 7
	for i, m := range in {
		h += m * (i + 1) * (i + 3)
	}
	return float64(h % 61)
}

// C15Wide: many centers.
func C15Wide() {
	n, k := vk.Param("n"), vk.Param("k")
	sp := newTable(n)
	sp.rough(0, n, 0, n, 0, 1, 65)
	for i := 0; i < n; i++ {
		sp.d[i*n+i] = 0
	}
	data := points(n)
	prev := core.Clust(points(k))
	src := vk.NewSource("r")
	st := mcmc.NewCenterStore(rand.New(src))
	for _, m := range []int{k, k + 1, k - 1} {
		got, err := st.GetCenters(data, sp, m, prev)
		vk.Assert(err == nil && len(got) == m, "the number of centers asked")
		switch {
		case m > k:
			id := got[k].(*Pt).ID
			vk.Assert(id >= k && id < n && got[k] != data[id], "a copy of an element at positive distance is added")
			for i := 0; i < k; i++ {
				vk.Assert(got[i].(*Pt).ID == i && got[i] != prev[i], "copies of all the centers")
			}
			vk.Observe("id", id)
		case m < k:
			j := 0
			for i := 0; i < k; i++ {
				if j < m && got[j].(*Pt).ID == i {
					vk.Assert(got[j] != prev[i], "copies of the centers")
					j++
				}
			}
			vk.Assert(j == m, "all but one in unchanged order")
		default:
			for i := range got {
				vk.Assert(got[i] == prev[i], "the centers themselves")
			}
		}
	}
	for c := 1; c <= k+2; c++ {
		st.SetCenters(core.Clust(points(c)))
	}
	for c := 1; c <= k+2; c++ {
		got, err := st.GetCenters(data, sp, c, prev)
		vk.Assert(err == nil && len(got) == c, "those last stored")
		for i := range got {
			vk.Assert(got[i].(*Pt).ID == i && got[i] != prev[i%k], "those last stored")
		}
	}
	// storing again replaces what was stored for that number, nothing else
	again := map[int]core.Clust{}
	for c := k + 2; c >= 1; c -= 2 {
		again[c] = points(c)
		st.SetCenters(again[c])
	}
	for c := 1; c <= k+2; c++ {
		got, err := st.GetCenters(data, sp, c, prev)
		vk.Assert(err == nil && len(got) == c, "those last stored")
		for i := range got {
			vk.Assert(got[i].(*Pt).ID == i && (again[c] == nil || got[i] == again[c][i]), "those last stored")
		}
	}
	for i := range prev {
		vk.Assert(prev[i].(*Pt).ID == i, "the previous centers are not modified")
	}
	c11data(data, data)
	vk.Cover("done")
}

// C16Wide: a longer stream of numbers; the elements of fixed values lie either
// close to a center or far away, those of arbitrary value anywhere.
func C16Wide() {
	n, sym, after := vk.Param("n"), vk.Param("sym"), vk.Param("after")
	l := &lcg{31}
	x := make([]float64, n)
	for i := range x {
		x[i] = float64(i%6)*100 + l.num(0, 2)
		if i == 1 {
			x[i] = 1000
		}
		if vk.Param("def") == 1 {
			// the default configuration: centers far from each other
			x[i] = float64(i%6)*1000 + l.num(0, 2)
			if i%7 == 6 {
				x[i] = 20000 * float64(i)
			}
		}
	}
	for s := 0; s < sym; s++ {
		x[n-1-s*(n-1)/(sym+1)] = vk.Float("x", -3000, 3000)
	}
	var first []core.Elemt
	for i := 0; i < n; i++ {
		first = append(first, []float64{x[i]})
	}
	// a draw within 3.3 standard deviations of a half
	src := vk.NewSource("r")
	mu, sigma, ratio, size := .05, .01, 1.5, n
	cf := streaming.Conf{BufferSize: n, Mu: mu, Sigma: sigma, OutRatio: 1.5, OutAfter: after, RGen: rand.New(src)}
	if vk.Param("def") == 1 {
		mu, sigma, ratio, after, size = .5, .1, 2, 5, 100
		cf = streaming.Conf{RGen: rand.New(src)}
	}
	sp := euclid.NewSpace()
	a := streaming.NewAlgo(cf, sp, first)
	impl := a.Impl()
	cur, err := impl.Init(core.NewSimpleOCModel(a.Conf(), sp, core.NewOCStatus(core.Initializing), nil, nil))
	vk.Assert(err == nil && len(cur) == 1, "the first element is the first center")
	model := core.NewSimpleOCModel(a.Conf(), sp, core.NewOCStatus(core.Running), nil, nil)
	for i := n; i <= size; i++ {
		vk.Assert(impl.Push([]float64{0}, model) == nil, "a push succeeds as long as the buffer is not full")
	}
	vk.Assert(impl.Push([]float64{0}, model) != nil, "a push fails when the buffer is full")
	mean, weight := []float64{x[0]}, []int{1}
	max := 0.
	for i := 1; i < n; i++ {
		got, fig, err := impl.Iterate(model)
		vk.Assert(err == nil, "no error")
		best, d := 0, 0.
		for j := range mean {
			if e := abs(x[i] - mean[j]); j == 0 || e < d {
				best, d = j, e
			}
		}
		if max == 0 {
			max = d
		}
		if i > after && d > ratio*max {
			mean, weight = append(mean, x[i]), append(weight, 1)
			vk.Cover("outlier")
		} else {
			isNew := (mu+sigma*src.Norm())*max < d
			if d > max {
				max = d
			}
			if isNew {
				mean, weight = append(mean, x[i]), append(weight, 1)
			} else {
				w := float64(weight[best])
				mean[best] = (mean[best]*w + x[i]) / (w + 1)
				weight[best]++
			}
		}
		vk.Assert(len(got) == len(mean), "the number of centers follows the rule")
		for j := range got {
			vk.Assert(near(got[j].([]float64)[0], mean[j]), "each center is the mean of the elements merged into it")
		}
		vk.Assert(near(fig[streaming.MaxDistance], max), "the maximal distance is the largest one but for outliers")
	}
	vk.Observe("k", len(mean))
	vk.Cover("done")
}
