package h

import (
	"golang.org/x/exp/rand"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/streaming"

	"verifharness/vk"
)

// flow is a space over streamed elements: element e has an arbitrary distance
// to each barycenter of earlier elements.
type flow struct {
	off []int
	d   []float64
}

func newFlow(n int) *flow {
	s := &flow{}
	for e := 0; e < n; e++ {
		s.off = append(s.off, len(s.d))
		for i := 0; i < 1<<uint(e); i++ {
			s.d = append(s.d, vk.Float("d", 0, 1000))
		}
	}
	return s
}

func flat(set int) int {
	m := 0
	for i := 0; set>>uint(3*i) > 0; i++ {
		if set>>uint(3*i)&7 > 0 {
			m |= 1 << uint(i)
		}
	}
	return m
}

func (s *flow) at(e int, set int) float64 { return s.d[s.off[e]+flat(set)] }

func (s *flow) Dist(a, b core.Elemt) float64 {
	x, y := a.(*Mem), b.(*Mem)
	if x.Set < y.Set {
		x, y = y, x
	}
	vk.Assert(x.W == 1 && x.ID >= 0, "distances are taken from an element")
	return s.at(x.ID, y.Set)
}

func (s *flow) Combine(a core.Elemt, w1 int, b core.Elemt, w2 int) core.Elemt {
	x, y := a.(*Mem), b.(*Mem)
	vk.Assert(w1 == x.W && w2 == y.W, "a center is combined with its full weight against one")
	return &Mem{-1, x.Set + y.Set, x.W + y.W}
}

func (s *flow) Copy(a core.Elemt) core.Elemt {
	x := *a.(*Mem)
	return &x
}

func (s *flow) Dim([]core.Elemt) int { return 1 }

// C16Stream: pushes and iterations of streaming in any order.
func C16Stream() {
	n, first, buf, ops := vk.Param("n"), vk.Param("first"), vk.Param("buf"), vk.Param("ops")
	after, ratio := vk.Param("after"), float64(vk.Param("ratio"))/4
	mu, sigma := float64(vk.Param("mu"))/4, float64(vk.Param("sigma"))/4
	sp := newFlow(n)
	elems := make([]core.Elemt, n)
	for i := range elems {
		elems[i] = unit(i)
	}
	src := vk.NewSource("r")
	cf := streaming.Conf{BufferSize: buf, Mu: mu, Sigma: sigma, OutRatio: ratio, OutAfter: after, RGen: rand.New(src)}
	a := streaming.NewAlgo(cf, sp, append([]core.Elemt(nil), elems[:first]...))
	impl := a.Impl()
	model := func(st core.ClustStatus, c core.Clust) core.OCModel {
		return core.NewSimpleOCModel(a.Conf(), sp, core.NewOCStatus(st), nil, c)
	}
	var queue []int
	for i := 0; i < first; i++ {
		queue = append(queue, i)
	}
	next := first
	push := func(m core.OCModel) {
		if next >= n {
			return
		}
		err := impl.Push(elems[next], m)
		vk.Assert((err != nil) == (len(queue) >= buf), "a push fails exactly when the buffer is full")
		if err == nil {
			queue = append(queue, next)
			next++
		} else {
			vk.Cover("full")
		}
	}
	var sets []int // the centers of the oracle
	var weights []int
	max := 0.
	consumed := 0
	var lists []core.Clust
	var kept [][]core.Elemt
	note := func(c core.Clust) {
		lists = append(lists, c)
		kept = append(kept, append([]core.Elemt(nil), c...))
	}
	check := func(c core.Clust) {
		vk.Assert(len(c) == len(sets), "the number of centers follows the rule")
		sum := 0
		for i := range c {
			m := c[i].(*Mem)
			vk.Assert(m.Set == sets[i] && m.W == weights[i], "each center gathers exactly the elements merged into it")
			sum += m.W
		}
		vk.Assert(sum == consumed, "the weights sum to the number of consumed elements")
	}
	if first == 0 && vk.Concrete(vk.Int("early", 0, 1)) == 1 {
		_, err := impl.Init(model(core.Created, nil))
		vk.Assert(err != nil, "no initialization without an element")
		vk.Cover("empty")
		push(model(core.Created, nil))
	}
	if len(queue) == 0 {
		push(model(core.Created, nil))
	}
	cur, err := impl.Init(model(core.Created, nil))
	vk.Assert(err == nil && len(cur) == 1, "the first element is the first center")
	sets, weights = []int{elems[queue[0]].(*Mem).Set}, []int{1}
	queue, consumed = queue[1:], 1
	check(cur)
	note(cur)
	for o := 0; o < ops; o++ {
		m := model(core.Running, cur)
		if vk.Concrete(vk.Int("op", 0, 1)) == 0 {
			push(m)
			continue
		}
		drawn := src.Draws()
		got, fig, err := impl.Iterate(m)
		vk.Assert(err == nil, "no error")
		if len(queue) == 0 {
			vk.Assert(got == nil && src.Draws() == drawn, "without data nothing happens")
			vk.Assert(fig[streaming.MaxDistance] == max, "without data the maximal distance is kept")
			vk.Cover("idle")
			continue
		}
		e := queue[0]
		queue = queue[1:]
		best := 0
		for i := 1; i < len(sets); i++ {
			if sp.at(e, sets[i]) < sp.at(e, sets[best]) {
				best = i
			}
		}
		d := sp.at(e, sets[best])
		if max == 0 {
			max = d
		}
		outlier := consumed > after && d > ratio*max
		isNew := outlier
		if !outlier {
			vk.Assert(src.Draws() == drawn+1, "one threshold is drawn")
			if d > 0 || max > 0 {
				isNew = (mu+sigma*src.Norm())*max < d
			}
			if d > max {
				max = d
			}
		} else {
			vk.Assert(src.Draws() == drawn, "no threshold is drawn for an outlier")
			vk.Cover("outlier")
		}
		if isNew {
			sets = append(sets, elems[e].(*Mem).Set)
			weights = append(weights, 1)
			vk.Cover("new")
		} else {
			sets[best] += elems[e].(*Mem).Set
			weights[best]++
			vk.Cover("merged")
		}
		consumed++
		check(got)
		vk.Assert(fig[streaming.MaxDistance] == max, "the maximal distance is the largest one but for outliers")
		note(got)
		cur = got
	}
	for i, c := range lists {
		for j := range c {
			vk.Assert(c[j] == kept[i][j], "no published list is modified")
		}
	}
	for i := range elems {
		vk.Assert(*elems[i].(*Mem) == *unit(i), "no element is modified")
	}
	vk.Observe("consumed", consumed)
	vk.Cover("done")
}
