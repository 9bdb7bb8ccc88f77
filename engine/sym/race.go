package sym

import "fmt"

// access is one memory access of the current segment (conc mode).
type access struct {
	p     Ptr
	n     int
	write bool
	rel   int // number of releases of the segment that precede it
	loc   string
}

// relRec is a release operation of the current segment.
type relRec struct {
	kind opKind
	p    Ptr
	tid  int
}

// vclock is a vector clock indexed by thread id.
type vclock []int

func (v vclock) clone() vclock { return append(vclock(nil), v...) }

func (v vclock) at(i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v *vclock) tick(i int) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i]++
}

type shadow struct {
	wtid, wclk int
	wloc       string
	reads      map[int]int
	rloc       string
}

// raceState is the happens-before detector of seq mode.
type raceState struct {
	cells map[Ptr]shadow
	sync  map[Ptr]vclock
}

func newRace() *raceState { return &raceState{map[Ptr]shadow{}, map[Ptr]vclock{}} }

func (r *raceState) clone() *raceState {
	n := newRace()
	for k, v := range r.cells {
		m := make(map[int]int, len(v.reads))
		for a, b := range v.reads {
			m[a] = b
		}
		v.reads = m
		n.cells[k] = v
	}
	for k, v := range r.sync {
		n.sync[k] = v.clone()
	}
	return n
}

func (r *raceState) fork(parent, child *Thread) {
	child.vc = parent.vc.clone()
	child.vc.tick(child.id)
	parent.vc.tick(parent.id)
}

func (r *Run) curThread(st *State) *Thread {
	if st.cur < len(st.threads) {
		return st.threads[st.cur]
	}
	return nil
}

func (r *Run) noteAccess(st *State, p Ptr, n int, write bool) {
	if !r.Cfg.Race || n == 0 {
		return
	}
	th := r.curThread(st)
	if th == nil || len(th.frames) == 0 {
		return
	}
	for _, f := range th.frames { // package initializers run before everything
		if f.isInit {
			return
		}
	}
	loc := r.locOf(th.frames[len(th.frames)-1])
	if r.Cfg.Mode == "conc" {
		st.acc = append(st.acc, access{p, n, write, len(st.rel), loc})
		return
	}
	if st.race == nil || len(st.threads) < 2 {
		return
	}
	for k := 0; k < n; k++ {
		c := Ptr{p.Obj, p.Off + k}
		s := st.race.cells[c]
		if s.wclk > 0 && s.wtid != th.id && s.wclk > th.vc.at(s.wtid) {
			r.raceFound(st, c, s.wloc, loc, true, write)
			return
		}
		if write {
			for t, clk := range s.reads {
				if t != th.id && clk > th.vc.at(t) {
					r.raceFound(st, c, s.rloc, loc, false, true)
					return
				}
			}
			s = shadow{wtid: th.id, wclk: th.vc.at(th.id), wloc: loc}
		} else {
			m := make(map[int]int, len(s.reads)+1)
			for a, b := range s.reads {
				m[a] = b
			}
			m[th.id] = th.vc.at(th.id)
			s.reads = m
			s.rloc = loc
		}
		st.race.cells[c] = s
	}
}

func (r *Run) raceFound(st *State, c Ptr, l1, l2 string, w1, w2 bool) {
	if st.outcome != nil {
		return
	}
	kind := map[bool]string{true: "write", false: "read"}
	st.outcome = &Outcome{Kind: "race", Msg: fmt.Sprintf("unordered %s at %s and %s at %s", kind[w1], l1, kind[w2], l2), Loc: l2}
}

func (r *Run) acquire(st *State, th *Thread, p Ptr) {
	if st.race != nil {
		th.vc.join(st.race.sync[p])
	}
}

func (r *Run) release(st *State, th *Thread, p Ptr, k opKind) {
	if st.race != nil {
		v := st.race.sync[p].clone()
		v.join(th.vc)
		st.race.sync[p] = v
		th.vc.tick(th.id)
	}
	r.noteRelease(st, relRec{kind: k, p: p})
}

// hbChan orders th and the thread it communicates with through ch.
func (r *Run) hbChan(st *State, th *Thread, ch, other int) {
	if st.race != nil {
		o := st.byID(other)
		a, b := th.vc.clone(), o.vc.clone()
		th.vc.join(b)
		o.vc.join(a)
		th.vc.tick(th.id)
		o.vc.tick(o.id)
	}
	r.noteRelease(st, relRec{kind: opSend, p: Ptr{ch, 0}, tid: other})
}

func (r *Run) noteRelease(st *State, rr relRec) {
	if r.Cfg.Mode == "conc" && r.Cfg.Race {
		st.rel = append(st.rel, rr)
		if th := r.curThread(st); th != nil {
			th.mustYield = true
		}
	}
}
