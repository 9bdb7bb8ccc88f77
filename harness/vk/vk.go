// Package vk is the harness side of the verification engine. Under the
// engine its functions are intrinsics that create symbolic values and proof
// obligations; compiled natively they replay the values of a counterexample
// against the real code.
package vk

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"
)

type input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"`
}

type replay struct {
	Func   string         `json:"func"`
	Params map[string]int `json:"params"`
	Inputs []input        `json:"inputs"`
}

var (
	mu     sync.Mutex
	vals   = map[string]string{}
	draws  = map[string][]string{}
	used   = map[string]int{}
	params = map[string]int{}
	// Failed tells that an assertion did not hold.
	Failed bool
)

// Load reads the values of a replay and returns the harness name.
func Load(path string) (string, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return "", err
	}
	var r replay
	if err := json.Unmarshal(b, &r); err != nil {
		return "", err
	}
	params = r.Params
	for _, i := range r.Inputs {
		if i.Kind == "draw" {
			// draw.<source>#<n>...
			n := strings.TrimPrefix(i.Name, "draw.")
			n = n[:strings.LastIndex(n, "#")]
			draws[n] = append(draws[n], i.Val)
			continue
		}
		vals[i.Name] = i.Val
	}
	return r.Func, nil
}

func next(name string) (string, bool) {
	mu.Lock()
	defer mu.Unlock()
	n := used[name]
	used[name] = n + 1
	v, ok := vals[fmt.Sprintf("%s#%d", name, n)]
	return v, ok
}

// Int is any integer of [lo,hi].
func Int(name string, lo, hi int) int {
	if v, ok := next(name); ok {
		n, _ := strconv.Atoi(v)
		return n
	}
	return lo
}

// Bool is any boolean.
func Bool(name string) bool {
	v, _ := next(name)
	return v == "1"
}

// Float is any number of [lo,hi].
func Float(name string, lo, hi float64) float64 {
	if v, ok := next(name); ok {
		f, _ := strconv.ParseFloat(v, 64)
		return f
	}
	return lo
}

// Grid is any multiple of 2^-bits in [lo,hi].
func Grid(name string, lo, hi float64, bits int) float64 { return Float(name, lo, hi) }

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		fmt.Println("ASSUMPTION FAILED")
		os.Exit(4)
	}
}

// Assert is a proof obligation.
func Assert(b bool, msg string) {
	if !b {
		Failed = true
		fmt.Println("ASSERTION FAILED:", msg)
		os.Exit(3)
	}
}

// Cover marks a situation that must be reachable.
func Cover(name string) {}

// Observe reports a value that the engine predicts.
func Observe(tag string, x interface{}) {
	switch v := x.(type) {
	case float64:
		fmt.Printf("OBS %s=%.9g\n", tag, v)
	default:
		fmt.Printf("OBS %s=%v\n", tag, v)
	}
}

// Param is a concrete parameter of the harness (sizes).
func Param(name string) int { return params[name] }

// All is the conjunction, evaluated without branching.
func All(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}

// Any is the disjunction, evaluated without branching.
func Any(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

// Ite chooses without branching.
func Ite(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}

// IteInt chooses without branching.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Concrete splits over the values of x.
func Concrete(x int) int { return x }

// Symbolic tells whether the engine runs the harness.
func Symbolic() bool { return false }

// Source is a generator source whose draws are symbolic.
type Source struct {
	name string
	n    int
	last float64
	norm float64
	twin bool
}

// NewSource returns a source with its own draws.
func NewSource(name string) *Source { return &Source{name: name} }

// Twin returns a source that repeats the draws of the only source of that name.
func Twin(name string) *Source { return &Source{name: name, twin: true} }

// Uint64 is the next raw word.
func (s *Source) Uint64() uint64 {
	mu.Lock()
	defer mu.Unlock()
	d := draws[s.name]
	s.last = 0
	if s.n >= len(d) {
		s.n++
		return 0
	}
	v, _ := strconv.ParseUint(d[s.n], 10, 64)
	s.n++
	s.last = float64(v&(1<<53-1)) / (1 << 53)
	s.norm = float64(int32(v>>32)) * float64(float32(1.6030948e-09))
	return v
}

// Last is the last number of [0,1) that was drawn.
func (s *Source) Last() float64 { return s.last }

// Norm is the last number drawn from the standard normal distribution.
func (s *Source) Norm() float64 { return s.norm }

// Draws is the number of draws so far.
func (s *Source) Draws() int { return s.n }

// Seed does nothing.
func (s *Source) Seed(uint64) {}

// Log prints a note in native runs.
func Log(args ...interface{}) { fmt.Println(args...) }

// Flip reverses the order in which maps are iterated and threads are chosen
// (sequential mode; native runs have an order of their own).
func Flip() {}

// Yield is a scheduling point of the harness.
func Yield() { YieldHook() }

// YieldHook is replaced in scheduled replays.
var YieldHook = func() {}
