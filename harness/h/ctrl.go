package h

import (
	"errors"
	"strings"
	"sync"

	"github.com/wearelumenai/distclus/core"

	"verifharness/vk"
)

// ctl is an implementation that watches how the controller drives it.
type ctl struct {
	max      int  // iterations that produce a result
	allowed  bool // iterations may be executed
	busy     bool
	inits    int
	produced int
	pushes   int
	failInit bool
	failOnce bool // only the first initialization fails
	failIter int  // iteration that fails, 0 none
	doPanic  bool
	kind     int // what a panic is: 0 an error, 1 a string, 2 a runtime error, 3 another value
	yield    bool
	failAt   int    // initialization that fails, 0 none
	empty    []bool // iterations without a result
	calls    int
	reject   []bool // pushes that are refused
	dataPush bool   // pushes are counted under a lock
	mu       sync.Mutex
	last     core.Clust
}

func (c *ctl) Init(m core.OCModel) (core.Clust, error) {
	c.inits++
	vk.Assert(m.Status().Value == core.Initializing, "initializations can ask for the status")
	c.produced = 0
	if c.failInit && (c.inits == 1 || !c.failOnce) {
		return nil, errInit
	}
	if c.failAt == c.inits {
		if c.doPanic {
			c.fail(errInit)
		}
		return nil, errInit
	}
	c.last = core.Clust{100 * c.inits}
	return c.last, nil
}

func (c *ctl) Iterate(m core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	vk.Assert(!c.busy, "iterations do not overlap")
	vk.Assert(c.allowed, "no iteration while idle, stopped or never started")
	if c.yield {
		c.busy = true
		vk.Yield()
		vk.Assert(c.allowed, "no iteration goes on while idle or stopped")
		c.busy = false
	}
	if c.calls < 10 {
		c.calls++
	}
	if c.produced >= c.max || c.calls <= len(c.empty) && c.empty[c.calls-1] {
		return nil, nil, nil
	}
	c.produced++
	if c.failIter == c.produced {
		if c.doPanic {
			c.fail(errIter)
		}
		// what a failed iteration leaves behind is worth nothing
		return core.Clust{-1}, core.RuntimeFigures{"made": -1}, errIter
	}
	c.last = core.Clust{100*c.inits + c.produced}
	return c.last, core.RuntimeFigures{"made": float64(c.produced)}, nil
}

// fail panics.
func (c *ctl) fail(err error) {
	switch c.kind {
	case 0:
		panic(err)
	case 1:
		panic(err.Error())
	case 2:
		var none []int
		none[c.kind]++
	default:
		panic(c.kind)
	}
}

// failure is the error that reports such a panic.
func (c *ctl) failure(err error, got error) bool {
	if got == nil {
		return false
	}
	switch {
	case !c.doPanic || c.kind < 2:
		return got.Error() == err.Error()
	case c.kind == 2:
		return strings.Contains(got.Error(), "index out of range")
	default:
		return strings.Contains(got.Error(), "3")
	}
}

func (c *ctl) Push(core.Elemt, core.OCModel) error {
	if c.dataPush {
		c.mu.Lock()
		defer c.mu.Unlock()
	}
	c.pushes++
	if c.pushes <= len(c.reject) && c.reject[c.pushes-1] {
		return errPush
	}
	return nil
}

func (c *ctl) Copy(core.OCModel) (core.Impl, error) { return &ctl{}, nil }

var errPush = errors.New("push refused")

// intSpace is a plain space of integers.
type intSpace struct{}

func (intSpace) Dist(a, b core.Elemt) float64 {
	d := a.(int) - b.(int)
	if d < 0 {
		d = -d
	}
	return float64(d)
}
func (intSpace) Combine(a core.Elemt, w1 int, b core.Elemt, w2 int) core.Elemt {
	return (a.(int)*w1 + b.(int)*w2) / (w1 + w2)
}
func (intSpace) Copy(a core.Elemt) core.Elemt { return a }
func (intSpace) Dim([]core.Elemt) int         { return 1 }
