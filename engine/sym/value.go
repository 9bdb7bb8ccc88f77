// Package sym executes Go SSA symbolically.
package sym

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verifengine/smt"
)

// Value is a register or memory cell content: *smt.Term for booleans and
// numbers, string, Ptr, Slice, MapV, ChanV, Iface, Func, Agg, Tuple, *iter,
// lockState and wgState (only in memory).
type Value interface{}

// Ptr points to a cell; Obj 0 is nil, negative ids are globals.
type Ptr struct{ Obj, Off int }

// Slice: Off in cells, Len and Cap in elements. Obj 0 is nil.
type Slice struct{ Obj, Off, Len, Cap int }

type MapV struct{ Obj int }
type ChanV struct{ Obj int }

// Iface is an interface value; T nil is the nil interface.
type Iface struct {
	T types.Type
	V Value
}

// Func is a function value; Fn nil is nil.
type Func struct {
	Fn  *ssa.Function
	Env []Value
}

// Agg is a flattened struct or array.
type Agg []Value

// Tuple is a multiple result.
type Tuple []Value

type iter struct {
	keys []Value
	vals []Value
	str  string
	pos  int
	isS  bool
}

// lockState is the content of a mutex cell.
type lockState struct {
	writer  int   // thread id holding it exclusively, 0 none
	readers []int // thread ids holding it shared (sorted)
	pending []int // announced writers
	locked  bool  // plain mutex / writer bit (threads may unlock others' mutex)
}

type objKind uint8

const (
	kCells objKind = iota
	kMap
	kChan
)

// Obj is a heap object, copied on write between forked states.
type Obj struct {
	epoch uint64
	kind  objKind
	cells []Value // cells; map: values
	keys  []Value // map keys
	// chan
	cap    int
	closed bool
	sendq  []waiter
	recvq  []waiter
	tag    string // for messages
	ro     bool
}

type waiter struct {
	tid  int
	val  Value
	kase int // select case, -1 for plain
}

func (o *Obj) clone(epoch uint64) *Obj {
	n := *o
	n.epoch = epoch
	n.cells = append([]Value(nil), o.cells...)
	n.keys = append([]Value(nil), o.keys...)
	n.sendq = append([]waiter(nil), o.sendq...)
	n.recvq = append([]waiter(nil), o.recvq...)
	return &n
}

// ---------------------------------------------------------------- layout

type layouts struct {
	size map[types.Type]int
	off  map[*types.Struct][]int
}

func (l *layouts) sizeOf(t types.Type) int {
	if n, ok := l.size[t]; ok {
		return n
	}
	n := 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += l.sizeOf(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * l.sizeOf(u.Elem())
	case *types.Tuple:
		n = u.Len()
	}
	l.size[t] = n
	return n
}

func (l *layouts) fieldOff(u *types.Struct, i int) int {
	o, ok := l.off[u]
	if !ok {
		o = make([]int, u.NumFields()+1)
		for j := 0; j < u.NumFields(); j++ {
			o[j+1] = o[j] + l.sizeOf(u.Field(j).Type())
		}
		l.off[u] = o
	}
	return o[i]
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func intBits(t types.Type) (bits int, signed bool) {
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

func (r *Run) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return r.C.F
		case u.Info()&types.IsInteger != 0:
			return r.C.Int(0)
		case u.Info()&types.IsFloat != 0:
			return r.float(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return Ptr{}
		}
		return r.C.Int(0)
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return ChanV{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return Func{}
	case *types.Struct, *types.Array:
		return Agg(r.zeroCells(t))
	case *types.Tuple:
		out := make(Tuple, u.Len())
		for i := range out {
			out[i] = r.zero(u.At(i).Type())
		}
		return out
	}
	panic(unsupported("zero value of " + t.String()))
}

func (r *Run) zeroCells(t types.Type) []Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var out []Value
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, r.zeroCells(u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		n := int(u.Len())
		if n > 1<<16 {
			panic(unsupported("array too large"))
		}
		e := r.zeroCells(u.Elem())
		out := make([]Value, 0, n*len(e))
		for i := 0; i < n; i++ {
			out = append(out, e...)
		}
		return out
	}
	return []Value{r.zero(t)}
}

// unsupported is thrown (as a Go panic) when the encoder meets something it
// cannot encode; the path is reported as outside the bound.
type unsupported string

// infeasible / stop signals
type killPath struct{ why string }

func describe(v Value) string {
	switch x := v.(type) {
	case *smt.Term:
		return termStr(x, 3)
	case Iface:
		if x.T == nil {
			return "nil"
		}
		return fmt.Sprintf("%s(%s)", x.T, describe(x.V))
	case Agg:
		s := "{"
		for i, e := range x {
			if i > 0 {
				s += " "
			}
			s += describe(e)
		}
		return s + "}"
	}
	return fmt.Sprint(v)
}

func termStr(t *smt.Term, depth int) string {
	switch t.Op {
	case smt.OConst:
		if t.Sort == smt.Bool {
			return fmt.Sprint(t.K == 1)
		}
		if f, ok := t.FloatVal(); ok {
			return fmt.Sprint(f)
		}
		return t.BigVal().String()
	case smt.OVar:
		return t.Name
	}
	if depth == 0 {
		return fmt.Sprintf("t%d", t.ID)
	}
	s := fmt.Sprintf("(op%d", t.Op)
	for _, a := range t.A {
		s += " " + termStr(a, depth-1)
	}
	return s + ")"
}
