package smt

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"math/big"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// PC is a persistent list of asserted formulas.
type PC struct {
	Up *PC
	T  *Term
	N  int
}

func (p *PC) Push(t *Term) *PC {
	n := 1
	if p != nil {
		n = p.N + 1
	}
	return &PC{p, t, n}
}

func (p *PC) List() []*Term {
	var out []*Term
	for q := p; q != nil; q = q.Up {
		out = append(out, q.T)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// Stats are shared counters.
type Stats struct {
	Queries, Sat, Unsat, Unknown, Fallback int64
	Nanos                                  int64
}

// Solver drives one incremental solver process.
type Solver struct {
	Ctx     *Ctx
	Bin     []string
	Timeout int // ms per query
	Stats   *Stats
	Log     io.Writer
	Nonlin  bool

	cmd   *exec.Cmd
	in    *bufio.Writer
	out   *bufio.Reader
	stack []*PC
	defs  [][]int // per scope: ids named there
	named map[int]bool
	dead  bool
}

func NewSolver(c *Ctx, bin []string, timeoutMs int, st *Stats) *Solver {
	return &Solver{Ctx: c, Bin: bin, Timeout: timeoutMs, Stats: st}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.Bin[0], s.Bin[1:]...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.stack = nil
	s.defs = [][]int{nil}
	s.named = map[int]bool{}
	s.dead = false
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n", s.Timeout)
	fmt.Fprintf(s.in, "(set-option :pp.decimal false)\n")
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) emit(str string) {
	if s.Log != nil {
		io.WriteString(s.Log, str)
	}
	s.in.WriteString(str)
}

func (s *Solver) push() {
	s.emit("(push 1)\n")
	s.defs = append(s.defs, nil)
}

func (s *Solver) pop() {
	s.emit("(pop 1)\n")
	for _, id := range s.defs[len(s.defs)-1] {
		delete(s.named, id)
	}
	s.defs = s.defs[:len(s.defs)-1]
}

func sortName(t Sort) string {
	switch t {
	case Bool:
		return "Bool"
	case Int:
		return "Int"
	case Real:
		return "Real"
	case FP:
		return "(_ FloatingPoint 11 53)"
	}
	return "(_ BitVec 64)"
}

func quoteName(n string) string { return "|" + n + "|" }

func ratStr(r *big.Rat) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var s string
	if a.IsInt() {
		s = a.Num().String() + ".0"
	} else {
		s = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		return "(- " + s + ")"
	}
	return s
}

func intStr(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

func fpStr(f float64) string {
	switch {
	case math.IsNaN(f):
		return "(_ NaN 11 53)"
	case math.IsInf(f, 1):
		return "(_ +oo 11 53)"
	case math.IsInf(f, -1):
		return "(_ -oo 11 53)"
	}
	b := math.Float64bits(f)
	return fmt.Sprintf("(fp #b%d #b%011b #b%052b)", b>>63, b>>52&0x7ff, b&(1<<52-1))
}

// ref returns the text naming t, defining it (and what it needs) on the way.
// Constraints attached to variables are asserted when first met.
func (s *Solver) ref(t *Term) string {
	switch t.Op {
	case OConst:
		switch t.Sort {
		case Bool:
			if t.K == 1 {
				return "true"
			}
			return "false"
		case Int:
			return intStr(t.BigVal())
		case Real:
			if t.Special != 0 {
				panic("special real constant in a formula")
			}
			return ratStr(t.R)
		default:
			return fpStr(math.Float64frombits(uint64(t.K)))
		}
	case OVar:
		if !s.named[t.ID] {
			s.mark(t.ID)
			s.emit(fmt.Sprintf("(declare-const %s %s)\n", quoteName(t.Name), sortName(t.Sort)))
			if t.Sort == BV {
				s.emit(fmt.Sprintf("(assert (bvult %s #x0020000000000000))\n", quoteName(t.Name)))
			}
			for _, d := range t.Defs {
				r := s.ref(d)
				s.emit("(assert " + r + ")\n")
			}
		}
		return quoteName(t.Name)
	}
	name := fmt.Sprintf("t%d", t.ID)
	if s.named[t.ID] {
		return name
	}
	args := make([]string, len(t.A))
	for i, a := range t.A {
		args[i] = s.ref(a)
	}
	if s.named[t.ID] { // by a constraint of one of its variables
		return name
	}
	j := strings.Join(args, " ")
	var e string
	switch t.Op {
	case ONot:
		return "(not " + j + ")"
	case OAnd:
		e = "(and " + j + ")"
	case OOr:
		e = "(or " + j + ")"
	case OIte:
		e = "(ite " + j + ")"
	case OEq:
		e = "(= " + j + ")"
	case OLt:
		e = "(< " + j + ")"
	case OLe:
		e = "(<= " + j + ")"
	case OAdd:
		e = "(+ " + j + ")"
	case OMul:
		e = "(* " + j + ")"
	case ODiv:
		if t.Sort == Real {
			e = "(/ " + j + ")"
		} else { // truncated
			a, b := args[0], args[1]
			if t.A[0].Lo >= 0 && t.A[1].Lo >= 0 {
				e = fmt.Sprintf("(div %s %s)", a, b)
			} else {
				e = fmt.Sprintf("(ite (>= %s 0) (div %s %s) (- (div (- %s) %s)))", a, a, b, a, b)
			}
		}
	case OMod:
		a, b := args[0], args[1]
		if t.K == 1 || t.A[0].Lo >= 0 && t.A[1].Lo >= 0 {
			e = fmt.Sprintf("(mod %s %s)", a, b)
		} else {
			e = fmt.Sprintf("(ite (>= %s 0) (mod %s %s) (- (mod (- %s) %s)))", a, a, b, a, b)
		}
	case OI2R:
		e = "(to_real " + j + ")"
	case OFlr:
		e = "(to_int " + j + ")"
	case OFAdd:
		e = "(fp.add RNE " + j + ")"
	case OFSub:
		e = "(fp.sub RNE " + j + ")"
	case OFMul:
		e = "(fp.mul RNE " + j + ")"
	case OFDiv:
		e = "(fp.div RNE " + j + ")"
	case OFNeg:
		e = "(fp.neg " + j + ")"
	case OFAbs:
		e = "(fp.abs " + j + ")"
	case OFSqrt:
		e = "(fp.sqrt RNE " + j + ")"
	case OFRnd:
		e = "(fp.roundToIntegral " + [...]string{"RNE", "RTN", "RTP", "RTZ", "RNA"}[t.K] + " " + j + ")"
	case OFLt:
		e = "(fp.lt " + j + ")"
	case OFLe:
		e = "(fp.leq " + j + ")"
	case OFEq:
		e = "(fp.eq " + j + ")"
	case OFNaN:
		e = "(fp.isNaN " + j + ")"
	case OFInf:
		e = "(fp.isInfinite " + j + ")"
	case OI2F:
		e = "((_ to_fp 11 53) RNE (to_real " + j + "))"
	case OBV2F:
		e = "(fp.mul RNE ((_ to_fp_unsigned 11 53) RNE " + j + ") " + fpStr(math.Ldexp(1, -53)) + ")"
	case OF2R:
		e = "(fp.to_real " + j + ")"
	default:
		panic("unknown op")
	}
	s.mark(t.ID)
	s.emit(fmt.Sprintf("(define-fun %s () %s %s)\n", name, sortName(t.Sort), e))
	return name
}

func (s *Solver) mark(id int) {
	s.named[id] = true
	n := len(s.defs) - 1
	s.defs[n] = append(s.defs[n], id)
}

func (s *Solver) assert(t *Term) {
	r := s.ref(t)
	s.emit("(assert " + r + ")\n")
}

// sync makes the solver's stack equal to pc.
func (s *Solver) sync(pc *PC) {
	var chain []*PC
	n := 0
	if pc != nil {
		n = pc.N
	}
	chain = make([]*PC, n)
	for q := pc; q != nil; q = q.Up {
		chain[q.N-1] = q
	}
	k := 0
	for k < len(chain) && k < len(s.stack) && chain[k].T == s.stack[k].T {
		k++
	}
	for len(s.stack) > k {
		s.pop()
		s.stack = s.stack[:len(s.stack)-1]
	}
	for ; k < len(chain); k++ {
		s.push()
		s.assert(chain[k].T)
		s.stack = append(s.stack, chain[k])
	}
}

// Check decides pc and extra; on Sat the values of vars are returned.
func (s *Solver) Check(pc *PC, extra *Term, vars []*Term) (Result, Model) {
	if s.cmd == nil || s.dead {
		s.Close()
		if err := s.start(); err != nil {
			return Unknown, nil
		}
	}
	t0 := time.Now()
	s.sync(pc)
	s.push()
	if extra != nil {
		s.assert(extra)
	}
	for _, v := range vars {
		s.ref(v)
	}
	s.emit("(check-sat)\n")
	res := Unknown
	line, err := s.readLine()
	if s.Log != nil {
		fmt.Fprintln(s.Log, ";", line, err)
	}
	switch {
	case err != nil:
		s.dead = true
	case line == "sat":
		res = Sat
	case line == "unsat":
		res = Unsat
	case strings.HasPrefix(line, "(error"):
		s.dead = true
		if s.Log != nil {
			fmt.Fprintln(s.Log, "; ", line)
		}
		LastError.Store(line)
	}
	var m Model
	if res == Sat && len(vars) > 0 {
		m = s.values(vars)
	}
	if !s.dead {
		s.pop()
	}
	atomic.AddInt64(&s.Stats.Nanos, int64(time.Since(t0)))
	atomic.AddInt64(&s.Stats.Queries, 1)
	switch res {
	case Sat:
		atomic.AddInt64(&s.Stats.Sat, 1)
	case Unsat:
		atomic.AddInt64(&s.Stats.Unsat, 1)
	default:
		atomic.AddInt64(&s.Stats.Unknown, 1)
	}
	return res, m
}

// LastError keeps the last error line any solver printed.
var LastError atomic.Value

func (s *Solver) readLine() (string, error) {
	if err := s.in.Flush(); err != nil {
		return "", err
	}
	type res struct {
		l string
		e error
	}
	ch := make(chan res, 1)
	go func() {
		for {
			l, e := s.out.ReadString('\n')
			l = strings.TrimSpace(l)
			if l != "" || e != nil {
				ch <- res{l, e}
				return
			}
		}
	}()
	select {
	case r := <-ch:
		return r.l, r.e
	case <-time.After(time.Duration(s.Timeout)*time.Millisecond*2 + 20*time.Second):
		s.cmd.Process.Kill()
		<-ch
		return "", fmt.Errorf("solver stuck")
	}
}

// Model maps variables to concrete values.
type Model map[*Term]*Term

func (s *Solver) values(vars []*Term) Model {
	m := Model{}
	var b strings.Builder
	b.WriteString("(get-value (")
	for _, v := range vars {
		b.WriteString(quoteName(v.Name) + " ")
	}
	b.WriteString("))\n")
	s.emit(b.String())
	s.in.Flush()
	e, err := readSexp(s.out)
	if err != nil {
		s.dead = true
		return nil
	}
	for i, p := range e.list {
		if i >= len(vars) || len(p.list) != 2 {
			break
		}
		if t := s.Ctx.parseVal(vars[i].Sort, p.list[1]); t != nil {
			m[vars[i]] = t
		}
	}
	return m
}

type sexp struct {
	atom string
	list []*sexp
}

func readSexp(r *bufio.Reader) (*sexp, error) {
	skip := func() (byte, error) {
		for {
			b, err := r.ReadByte()
			if err != nil {
				return 0, err
			}
			if b != ' ' && b != '\n' && b != '\t' && b != '\r' {
				return b, nil
			}
		}
	}
	b, err := skip()
	if err != nil {
		return nil, err
	}
	if b == '(' {
		e := &sexp{list: []*sexp{}}
		for {
			b, err := skip()
			if err != nil {
				return nil, err
			}
			if b == ')' {
				return e, nil
			}
			r.UnreadByte()
			x, err := readSexp(r)
			if err != nil {
				return nil, err
			}
			e.list = append(e.list, x)
		}
	}
	var sb strings.Builder
	if b == '|' || b == '"' {
		q := b
		for {
			c, err := r.ReadByte()
			if err != nil {
				return nil, err
			}
			if c == q {
				return &sexp{atom: sb.String()}, nil
			}
			sb.WriteByte(c)
		}
	}
	sb.WriteByte(b)
	for {
		c, err := r.ReadByte()
		if err != nil {
			return nil, err
		}
		if c == '(' || c == ')' || c == ' ' || c == '\n' {
			r.UnreadByte()
			return &sexp{atom: sb.String()}, nil
		}
		sb.WriteByte(c)
	}
}

func (e *sexp) rat() *big.Rat {
	if e.list == nil {
		r, ok := new(big.Rat).SetString(strings.TrimSuffix(e.atom, "?"))
		if !ok {
			return nil
		}
		return r
	}
	if len(e.list) == 2 && e.list[0].atom == "-" {
		r := e.list[1].rat()
		if r == nil {
			return nil
		}
		return r.Neg(r)
	}
	if len(e.list) == 3 && e.list[0].atom == "/" {
		a, b := e.list[1].rat(), e.list[2].rat()
		if a == nil || b == nil || b.Sign() == 0 {
			return nil
		}
		return a.Quo(a, b)
	}
	return nil // algebraic numbers
}

func (c *Ctx) parseVal(s Sort, e *sexp) *Term {
	switch s {
	case Bool:
		return c.Bool(e.atom == "true")
	case Int:
		r := e.rat()
		if r == nil || !r.IsInt() {
			return nil
		}
		return c.BigInt(new(big.Int).Set(r.Num()))
	case Real:
		r := e.rat()
		if r == nil {
			return nil
		}
		return c.Rat(r)
	case FP:
		if len(e.list) == 4 && e.list[0].atom == "fp" {
			var bits uint64
			for _, p := range e.list[1:] {
				a := p.atom
				if strings.HasPrefix(a, "#b") {
					for _, ch := range a[2:] {
						bits = bits<<1 | uint64(ch-'0')
					}
				} else if strings.HasPrefix(a, "#x") {
					for _, ch := range strings.ToLower(a[2:]) {
						d := strings.IndexRune("0123456789abcdef", ch)
						bits = bits<<4 | uint64(d)
					}
				}
			}
			return c.FPF(math.Float64frombits(bits))
		}
		if len(e.list) >= 2 && e.list[0].atom == "_" {
			switch e.list[1].atom {
			case "NaN":
				return c.FPF(math.NaN())
			case "+oo":
				return c.FPF(math.Inf(1))
			case "-oo":
				return c.FPF(math.Inf(-1))
			case "+zero":
				return c.FPF(0)
			case "-zero":
				return c.FPF(math.Copysign(0, -1))
			}
		}
	case BV:
		b := new(big.Int)
		if strings.HasPrefix(e.atom, "#x") {
			b.SetString(e.atom[2:], 16)
		} else if strings.HasPrefix(e.atom, "#b") {
			b.SetString(e.atom[2:], 2)
		}
		return c.BigInt(b)
	}
	return nil
}
