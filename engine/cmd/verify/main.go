// verify decides one property: it executes the harnesses of the property
// symbolically against the current source of /repo, replays every candidate
// counterexample on a native build of the same source, and writes evidence.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifengine/sym"
)

// Job is one symbolic run of one harness.
type Job struct {
	Func    string
	Mode    string
	Float   string
	Params  map[string]int
	Race    bool
	Reverse bool
	Tier    string // q, t or qt (default qt)
	Timeout time.Duration
	QueryMs int
	MaxPath int
	Covers  []string
	Clock   string
	Sleep   string
	Levels  int
	Merge   int
	Wide    int
	Note    string
	// Known: the job demonstrates a listed finding; its violation is not an alarm.
	Known bool
}

func (j *Job) name() string {
	s := j.Func
	var ks []string
	for k := range j.Params {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s += fmt.Sprintf(" %s=%d", k, j.Params[k])
	}
	s += " [" + j.Mode + "," + j.Float
	if j.Race {
		s += ",race"
	}
	if j.Reverse {
		s += ",reverse"
	}
	if j.Mode == "conc" {
		s += "," + j.Clock + "," + j.Sleep
	}
	return s + "]"
}

type finding struct {
	Property string `json:"property"`
	Kind     string `json:"kind"` // finding or fixed
	Func     string `json:"func"`
	Message  string `json:"message"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

type result struct {
	job   *Job
	r     *sym.Run
	wall  time.Duration
	err   string
	known []string
}

var (
	root    string
	nativeB = map[bool]string{}
	nativeE = map[bool]string{}
	nmu     sync.Mutex
)

func main() {
	prop := flag.String("prop", "", "")
	only := flag.String("only", "", "run only the jobs of this harness")
	verbose := flag.Bool("v", false, "")
	par := flag.Int("par", 8, "")
	flag.StringVar(&root, "root", "/verif", "")
	prof := flag.String("cpuprofile", "", "")
	tierF := flag.String("tier", "", "quick or thorough")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	tier := os.Getenv("VERIF_TIER")
	if *tierF != "" {
		tier = *tierF
	}
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(14 << 30)
	t0 := time.Now()
	spec, ok := Specs[*prop]
	if !ok {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	work, err := os.MkdirTemp("", "verif-"+*prop+"-")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	code := run(*prop, spec, tier, seed, *only, *verbose, *par, work, t0)
	os.RemoveAll(work)
	pprof.StopCPUProfile()
	os.Exit(code)
}

func run(prop string, spec *Spec, tier string, seed int, only string, verbose bool, par int, work string, t0 time.Time) int {
	p, err := sym.Load(filepath.Join(root, "harness"), "./h")
	if err != nil {
		fmt.Println("cannot load:", err)
		return 2
	}
	program = p
	loadT := time.Since(t0)
	findings := readFindings(prop)
	var jobs []*Job
	for i := range spec.Jobs {
		j := &spec.Jobs[i]
		if j.Tier == "" {
			j.Tier = "qt"
		}
		if !strings.Contains(j.Tier, tier[:1]) || (only != "" && only != j.Func) {
			continue
		}
		if j.Mode == "" {
			j.Mode = "seq"
		}
		if j.Float == "" {
			j.Float = "real"
		}
		if j.Timeout == 0 {
			j.Timeout = 150 * time.Second
			if tier == "thorough" {
				j.Timeout = 700 * time.Second
			}
		}
		jobs = append(jobs, j)
	}
	results := make([]*result, len(jobs))
	deadline := t0.Add(10 * time.Minute)
	if tier == "thorough" {
		deadline = t0.Add(6 * time.Hour)
	}
	sem := make(chan bool, par)
	var wg sync.WaitGroup
	for i, j := range jobs {
		wg.Add(1)
		go func(i int, j *Job) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			left := time.Until(deadline)
			if left < time.Second {
				results[i] = &result{job: j, err: "not run: the time of the whole check is used up"}
				return
			}
			if j.Timeout > left {
				j.Timeout = left
			}
			results[i] = exec1(p, j)
			if verbose {
				describe(results[i])
			}
		}(i, j)
	}
	wg.Wait()

	// replay
	exit := 0
	violations := 0
	notRepro := []string{}
	validated, mismatches := 0, []string{}
	evdir := filepath.Join(root, "evidence")
	os.MkdirAll(filepath.Join(evdir, "replay"), 0755)
	old, _ := filepath.Glob(filepath.Join(evdir, "replay", prop+"-*"))
	for _, o := range old {
		os.Remove(o)
	}
	knownSeen := map[string]bool{}
	type vres struct {
		path, text string
		known      *finding
		repro      bool
		detail     string
	}
	var all []*vres
	var vwg sync.WaitGroup
	nv, capped := 0, 0
	for _, res := range results {
		if res == nil || res.r == nil {
			continue
		}
		for _, v := range res.r.Violations {
			if nv >= 16 {
				capped++
				continue
			}
			nv++
			path := filepath.Join(evdir, "replay", fmt.Sprintf("%s-%d.json", prop, nv))
			writeReplay(path, res, v)
			x := &vres{path: path, text: fmt.Sprintf("%s: %s: %s (%s)", res.job.name(), v.Kind, v.Msg, v.Loc)}
			for i := range findings {
				f := &findings[i]
				if f.Kind == "finding" && f.Func == res.job.Func && strings.Contains(v.Msg, f.Message) {
					x.known = f
				}
			}
			all = append(all, x)
			vwg.Add(1)
			go func(res *result, v *sym.Outcome) {
				defer vwg.Done()
				sem <- true
				defer func() { <-sem }()
				x.repro, x.detail = replayNative(res, v, path, work)
			}(res, v)
		}
	}
	vwg.Wait()
	for _, x := range all {
		switch {
		case !x.repro:
			notRepro = append(notRepro, x.text+" -- "+x.detail)
			fmt.Println("candidate not reproduced natively:", x.text, "--", x.detail)
		case x.known != nil:
			if !knownSeen[x.known.What] {
				knownSeen[x.known.What] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, x.known.What)
			}
		default:
			violations++
			exit = 1
			fmt.Println(x.text)
			fmt.Println("  replayed:", x.detail)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, x.path)
		}
	}
	if capped > 0 {
		fmt.Println(capped, "more candidates were not replayed")
	}
	// validation of passing traces
	type smp struct {
		res *result
		s   *sym.Sample
	}
	var smps []smp
	for _, res := range results {
		if res != nil && res.r != nil {
			for _, s := range res.r.Samples {
				smps = append(smps, smp{res, s})
			}
		}
	}
	var smu sync.Mutex
	for i, s := range smps {
		vwg.Add(1)
		go func(i int, s smp) {
			defer vwg.Done()
			sem <- true
			defer func() { <-sem }()
			ok, d := validate(s.res, s.s, work, i)
			smu.Lock()
			defer smu.Unlock()
			if ok {
				validated++
			} else {
				mismatches = append(mismatches, s.res.job.name()+": "+d)
			}
		}(i, s)
	}
	vwg.Wait()
	sort.Strings(mismatches)
	for _, m := range mismatches {
		fmt.Println("trace validation mismatch:", m)
	}

	writeEvidence(prop, spec, tier, seed, results, violations, validated, mismatches, notRepro, knownSeen, loadT, time.Since(t0))
	if exit == 0 {
		fmt.Printf("OK property=%s tier=%s wall=%.1fs\n", prop, tier, time.Since(t0).Seconds())
	}
	return exit
}

func exec1(p *sym.Program, j *Job) *result {
	res := &result{job: j}
	t0 := time.Now()
	fn := p.HarnessFunc("verifharness/h", j.Func)
	if fn == nil {
		res.err = "no harness " + j.Func
		return res
	}
	cfg := sym.Config{Mode: j.Mode, Float: j.Float, Race: j.Race, Reverse: j.Reverse, Params: j.Params, Timeout: j.Timeout,
		QueryMs: j.QueryMs, MaxPaths: j.MaxPath, Clock: j.Clock, Sleep: j.Sleep, Levels: j.Levels, Merge: j.Merge, MaxWide: j.Wide, Samples: 2}
	if cfg.Params == nil {
		cfg.Params = map[string]int{}
	}
	res.r = sym.NewRun(p, cfg)
	func() {
		defer func() {
			if x := recover(); x != nil {
				res.err = fmt.Sprintf("engine: %v", x)
			}
		}()
		res.r.Explore(fn)
	}()
	res.wall = time.Since(t0)
	return res
}

func describe(res *result) {
	if res.err != "" {
		fmt.Println(res.job.name(), "ERROR", res.err)
	}
	r := res.r
	if r == nil {
		return
	}
	fmt.Printf("%s: %v states=%d paths=%d branches=%d queries=%d unknown=%d solver=%v obl=%d viol=%d\n", res.job.name(), res.wall.Round(time.Millisecond), r.NStates, r.Paths, r.Branches(),
		r.Stat.Queries, r.Stat.Unknown, time.Duration(r.Stat.Nanos).Round(time.Millisecond), r.Obligations, len(r.Violations))
	for k, n := range r.Reduced {
		fmt.Println("    reduced:", k, n)
	}
	for _, c := range res.job.Covers {
		if !r.Covers[c] {
			fmt.Println("    NOT COVERED:", c)
		}
	}
	for _, v := range r.Violations {
		fmt.Println("    violation:", v.Kind, v.Msg, v.Loc, r.InputsOf(v.St, v.Model))
		for _, s := range v.St.Schedule() {
			fmt.Println("        ", s)
		}
	}
}

func readFindings(prop string) []finding {
	var all, out []finding
	b, err := os.ReadFile(filepath.Join(root, "known_findings.json"))
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &all); err != nil {
		fmt.Println("known_findings.json:", err)
	}
	for _, f := range all {
		if f.Property == prop {
			out = append(out, f)
		}
	}
	return out
}

type replayFile struct {
	Func     string          `json:"func"`
	Params   map[string]int  `json:"params"`
	Inputs   []sym.InputVal  `json:"inputs"`
	Job      string          `json:"job,omitempty"`
	Kind     string          `json:"kind,omitempty"`
	Message  string          `json:"message,omitempty"`
	Location string          `json:"location,omitempty"`
	Schedule []string        `json:"schedule,omitempty"`
	Steps    []sym.SchedStep `json:"steps,omitempty"`
	Race     bool            `json:"race,omitempty"`
	Clock    string          `json:"clock,omitempty"`
	Sleep    string          `json:"sleep,omitempty"`
}

func writeReplay(path string, res *result, v *sym.Outcome) {
	rf := replayFile{Func: res.job.Func, Params: res.job.Params, Inputs: res.r.InputsOf(v.St, v.Model),
		Job: res.job.name(), Kind: v.Kind, Message: v.Msg, Location: v.Loc, Schedule: v.St.Schedule(), Steps: v.St.Steps()}
	if res.job.Mode == "conc" {
		rf.Steps, rf.Schedule = v.Steps, nil
		rf.Race, rf.Clock, rf.Sleep = res.job.Race, res.job.Clock, res.job.Sleep
	}
	b, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(path, b, 0644)
}

// native builds the replay binary (once per kind).
func native(race bool, work string) (string, error) {
	nmu.Lock()
	defer nmu.Unlock()
	if e := nativeE[race]; e != "" {
		return "", fmt.Errorf("%s", e)
	}
	if b := nativeB[race]; b != "" {
		return b, nil
	}
	out := filepath.Join(work, fmt.Sprintf("native-%v", race))
	args := []string{"build", "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./cmd/native")
	c := exec.Command("go", args...)
	c.Dir = filepath.Join(root, "harness")
	if b, err := c.CombinedOutput(); err != nil {
		nativeE[race] = "native build: " + string(b)
		return "", fmt.Errorf("%s", nativeE[race])
	}
	nativeB[race] = out
	return out, nil
}

func runNative(bin, file string, timeout time.Duration, env ...string) (int, string) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	c := exec.CommandContext(ctx, bin, file)
	c.Env = append(os.Environ(), env...)
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	err := c.Start()
	if err != nil {
		return -2, err.Error()
	}
	full, end := make(chan bool, 1), make(chan bool)
	go func() {
		// a run without end may ask for memory without end
		for {
			select {
			case <-end:
				return
			case <-time.After(100 * time.Millisecond):
			}
			var size, rss int64
			if b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", c.Process.Pid)); err == nil {
				fmt.Sscan(string(b), &size, &rss)
			}
			if rss*int64(os.Getpagesize()) > 4<<30 {
				full <- true
				c.Process.Kill()
				return
			}
		}
	}()
	err = c.Wait()
	close(end)
	if ctx.Err() != nil || len(full) > 0 {
		return -1, out.String()
	}
	if err != nil {
		if e, ok := err.(*exec.ExitError); ok {
			return e.ExitCode(), out.String()
		}
		return -2, err.Error()
	}
	return 0, out.String()
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func replayNative(res *result, v *sym.Outcome, path, work string) (bool, string) {
	if res.job.Mode == "conc" {
		return replayConc(res, v, path, work)
	}
	race := v.Kind == "race"
	bin, err := native(race, work)
	if err != nil {
		return false, err.Error()
	}
	last := ""
	for try := 0; try < 6; try++ {
		env := []string{"GOMAXPROCS=" + []string{"8", "1", "2", "4", "8", "8"}[try]}
		code, out := runNative(bin, path, 20*time.Second, env...)
		switch {
		case race && strings.Contains(out, "DATA RACE"):
			return true, "the race detector reports it"
		case code == 3:
			return true, firstLines(out, 3)
		case code == 2 && (strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:")):
			return true, firstLines(out, 2)
		case code == -1 && (v.Kind == "deadlock" || v.Kind == "hang" || v.Kind == "livelock"):
			return true, "does not return"
		case code == 4:
			return false, "the assumption fails natively: " + firstLines(out, 3)
		}
		last = fmt.Sprintf("exit %d: %s", code, firstLines(out, 3))
	}
	return false, last
}

func validate(res *result, s *sym.Sample, work string, i int) (bool, string) {
	if res.job.Mode == "conc" {
		return validateConc(res, s, work, i)
	}
	bin, err := native(false, work)
	if err != nil {
		return false, err.Error()
	}
	file := filepath.Join(work, fmt.Sprintf("s%d.json", i))
	b, _ := json.Marshal(replayFile{Func: res.job.Func, Params: res.job.Params, Inputs: s.Inputs})
	os.WriteFile(file, b, 0644)
	code, out := runNative(bin, file, 20*time.Second)
	if code != 0 || !strings.Contains(out, "PASSED") {
		return false, fmt.Sprintf("exit %d: %s; inputs %v", code, firstLines(out, 3), s.Inputs)
	}
	var obs []string
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "OBS ") {
			obs = append(obs, l[4:])
		}
	}
	if len(obs) != len(s.Obs) {
		return false, fmt.Sprintf("observations %v, predicted %v", obs, s.Obs)
	}
	for k := range obs {
		if !sameObs(obs[k], s.Obs[k]) {
			return false, fmt.Sprintf("observed %s, predicted %s, inputs %v", obs[k], s.Obs[k], s.Inputs)
		}
	}
	return true, ""
}

func sameObs(a, b string) bool {
	if a == b {
		return true
	}
	i, j := strings.Index(a, "="), strings.Index(b, "=")
	if i < 0 || j < 0 || a[:i] != b[:j] {
		return false
	}
	if b[j+1:] == "?" {
		return true
	}
	x, e1 := strconv.ParseFloat(a[i+1:], 64)
	y, e2 := strconv.ParseFloat(b[j+1:], 64)
	if e1 != nil || e2 != nil {
		return false
	}
	d := x - y
	if d < 0 {
		d = -d
	}
	m := 1.0
	if x > m {
		m = x
	}
	if -x > m {
		m = -x
	}
	return d <= 1e-6*m
}

func writeEvidence(prop string, spec *Spec, tier string, seed int, results []*result, violations, validated int, mismatches, notRepro []string, known map[string]bool, loadT, wall time.Duration) {
	type jobEv struct {
		Job         string   `json:"job"`
		Note        string   `json:"note,omitempty"`
		Paths       int      `json:"paths"`
		States      int      `json:"states,omitempty"`
		Branches    int      `json:"branches"`
		Instrs      int      `json:"instructions"`
		Obligations int      `json:"obligations"`
		Queries     int      `json:"queries"`
		Sat         int      `json:"sat"`
		Unsat       int      `json:"unsat"`
		Unknown     int      `json:"unknown"`
		SolverS     float64  `json:"solver_s"`
		WallS       float64  `json:"wall_s"`
		Violations  int      `json:"candidate_violations"`
		Incomplete  []string `json:"incomplete,omitempty"`
		Missing     []string `json:"uncovered,omitempty"`
		Covered     []string `json:"covered,omitempty"`
		Error       string   `json:"error,omitempty"`
	}
	fns := map[string]bool{}
	var evs []jobEv
	states, trans, obl, q := 0, 0, 0, 0
	var solver float64
	samples := []interface{}{}
	complete := true
	for _, res := range results {
		e := jobEv{Job: res.job.name(), Note: res.job.Note, Error: res.err, WallS: res.wall.Seconds()}
		if res.err != "" {
			complete = false
		}
		if res.r != nil {
			r := res.r
			for _, f := range r.FnList() {
				fns[f] = true
			}
			e.Paths, e.Branches, e.Instrs, e.Obligations = r.Paths, r.Branches(), r.Instrs(), r.Obligations
			e.States = r.NStates
			e.Queries, e.Sat, e.Unsat, e.Unknown = int(r.Stat.Queries), int(r.Stat.Sat), int(r.Stat.Unsat), int(r.Stat.Unknown)
			e.SolverS = float64(r.Stat.Nanos) / 1e9
			e.Violations = len(r.Violations)
			for k, n := range r.Reduced {
				e.Incomplete = append(e.Incomplete, fmt.Sprintf("%s (%d)", k, n))
				complete = false
			}
			sort.Strings(e.Incomplete)
			for _, c := range res.job.Covers {
				if r.Covers[c] {
					e.Covered = append(e.Covered, c)
				} else {
					e.Missing = append(e.Missing, c)
				}
			}
			states += r.Paths + r.Branches() + r.NStates
			trans += r.Instrs()
			obl += r.Obligations
			q += e.Queries
			solver += e.SolverS
			for i, s := range r.Samples {
				if i < 1 && len(samples) < 6 {
					samples = append(samples, map[string]interface{}{"job": res.job.name(), "inputs": s.Inputs, "observed": s.Obs})
				}
			}
		}
		evs = append(evs, e)
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var kf []string
	for k := range known {
		kf = append(kf, k)
	}
	sort.Strings(kf)
	if len(samples) == 0 {
		samples = append(samples, "no passing path was sampled in this run")
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states":                        states,
			"transitions":                   trans,
			"states_meaning":                "symbolic path ends and symbolic branch points (each stands for all inputs satisfying its path condition)",
			"transitions_meaning":           "SSA instructions of the real code executed symbolically",
			"traces_validated_against_impl": validated,
			"trace_mismatches":              mismatches,
			"samples":                       samples,
			"functions_encoded":             fl,
			"obligations":                   obl,
			"queries":                       q,
			"solver_s":                      solver,
			"load_s":                        loadT.Seconds(),
			"bounds":                        spec.Bounds,
			"outside":                       spec.Outside,
			"jobs":                          evs,
			"complete_within_bounds":        complete,
			"candidates_not_reproduced":     notRepro,
			"known_findings_seen":           kf,
		},
		"assumptions": spec.Assume,
		"wall_s":      wall.Seconds(),
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0644)
}
