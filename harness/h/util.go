package h

import (
	"errors"
	"math"

	"github.com/wearelumenai/distclus/core"

	"verifharness/vk"
)

// Pt is an abstract element; only its identity matters.
type Pt struct{ ID int }

// table is a space given by an arbitrary distance table over identities.
type table struct {
	n int
	d []float64
}

func newTable(n int) *table { return &table{n, make([]float64, n*n)} }

// fill gives every ordered pair of [r0,r1) x [c0,c1) an arbitrary distance.
func (t *table) fill(r0, r1, c0, c1 int, lo, hi float64) {
	for i := r0; i < r1; i++ {
		for j := c0; j < c1; j++ {
			t.d[i*t.n+j] = vk.Float("d", lo, hi)
		}
	}
}

func (t *table) at(a, b int) float64 { return t.d[a*t.n+b] }

func (t *table) Dist(a, b core.Elemt) float64 { return t.d[a.(*Pt).ID*t.n+b.(*Pt).ID] }
func (t *table) Combine(a core.Elemt, w1 int, b core.Elemt, w2 int) core.Elemt {
	return &Pt{a.(*Pt).ID}
}
func (t *table) Copy(a core.Elemt) core.Elemt { return &Pt{a.(*Pt).ID} }
func (t *table) Dim([]core.Elemt) int         { return 1 }

// Mem is an element that remembers what it was combined from: the number of
// occurrences of element i is the i-th octal digit of Set, W is the total
// weight.
type Mem struct {
	ID  int
	Set int
	W   int
}

// unit is the abstract element number i.
func unit(i int) *Mem { return &Mem{i, 1 << uint(3*i), 1} }

// memSpace has arbitrary distances and tracks combinations.
type memSpace struct {
	table
	copies, combines int
}

func newMemSpace(n int) *memSpace { return &memSpace{table: *newTable(n)} }

func (s *memSpace) Dist(a, b core.Elemt) float64 {
	return s.d[a.(*Mem).ID*s.n+b.(*Mem).ID]
}

func (s *memSpace) Combine(a core.Elemt, w1 int, b core.Elemt, w2 int) core.Elemt {
	var x, y = a.(*Mem), b.(*Mem)
	vk.Assert(w1 == x.W, "the first weight is the weight gathered so far")
	vk.Assert(w2 == y.W, "the second weight is the weight of the combined element")
	return &Mem{-1, x.Set + y.Set, x.W + y.W}
}

func (s *memSpace) Copy(a core.Elemt) core.Elemt {
	var x = a.(*Mem)
	return &Mem{x.ID, x.Set, x.W}
}

// set is the member set of a barycenter, 0 when there is none.
func set(e core.Elemt) int {
	if e == nil {
		return 0
	}
	return e.(*Mem).Set
}

func near(a, b float64) bool {
	return vk.All(a-b <= 1e-6, b-a <= 1e-6)
}

func nearRel(a, b, scale float64) bool {
	return vk.All(a-b <= 1e-9*scale, b-a <= 1e-9*scale)
}

func abs(x float64) float64 { return vk.Ite(x < 0, -x, x) }

func fmax(a, b float64) float64 { return vk.Ite(a < b, b, a) }
func fmin(a, b float64) float64 { return vk.Ite(a < b, a, b) }

func isNaN(x float64) bool { return math.IsNaN(x) }

// conf is a plain configuration.
type conf struct{ core.CtrlConf }

func (c *conf) Verify() error     { return c.CtrlConf.Verify() }
func (c *conf) SetDefaultValues() {}

var errInit = errors.New("init failed")
var errIter = errors.New("iteration failed")

// fixed is an implementation that publishes given centroids.
type fixed struct{ clust core.Clust }

func (f *fixed) Init(core.OCModel) (core.Clust, error) { return f.clust, nil }
func (f *fixed) Iterate(core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	return f.clust, nil, nil
}
func (f *fixed) Push(core.Elemt, core.OCModel) error  { return nil }
func (f *fixed) Copy(core.OCModel) (core.Impl, error) { return &fixed{f.clust}, nil }
