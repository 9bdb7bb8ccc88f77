// vrun executes one harness symbolically and prints what it found (for
// development; the checks use cmd/verify).
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"verifengine/sym"
)

func main() {
	dir := flag.String("dir", "/verif/harness", "")
	mode := flag.String("mode", "seq", "")
	fl := flag.String("float", "real", "")
	race := flag.Bool("race", false, "")
	rev := flag.Bool("rev", false, "")
	trace := flag.Bool("trace", false, "")
	params := flag.String("p", "", "k=v,...")
	to := flag.Int("t", 120, "")
	prof := flag.String("prof", "", "")
	levels := flag.Int("levels", 60, "")
	clock := flag.String("clock", "frozen", "")
	sleep := flag.String("sleep", "free", "")
	merge := flag.Int("merge", 1, "")
	samples := flag.Int("samples", 0, "")
	flag.Parse()
	t0 := time.Now()
	p, err := sym.Load(*dir, "./h")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Println("loaded in", time.Since(t0))
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	for _, name := range flag.Args() {
		cfg := sym.Config{Mode: *mode, Float: *fl, Race: *race, Reverse: *rev, Trace: *trace, Params: map[string]int{},
			Timeout: time.Duration(*to) * time.Second, Levels: *levels, Clock: *clock, Sleep: *sleep, Merge: *merge, Samples: *samples}
		for _, kv := range strings.Split(*params, ",") {
			if i := strings.Index(kv, "="); i > 0 {
				cfg.Params[kv[:i]], _ = strconv.Atoi(kv[i+1:])
			}
		}
		fn := p.HarnessFunc("verifharness/h", name)
		if fn == nil {
			fmt.Println("no function", name)
			continue
		}
		t0 = time.Now()
		r := sym.NewRun(p, cfg)
		r.Explore(fn)
		fmt.Printf("%s: %v paths=%d branches=%d instrs=%d queries=%d (sat %d unsat %d unknown %d) solver=%v obligations=%d\n", name, time.Since(t0).Round(time.Millisecond), r.Paths, r.Branches(), r.Instrs(),
			r.Stat.Queries, r.Stat.Sat, r.Stat.Unsat, r.Stat.Unknown, time.Duration(r.Stat.Nanos).Round(time.Millisecond), r.Obligations)
		for k, n := range r.Reduced {
			fmt.Println("  reduced:", k, n)
		}
		var cov []string
		for k := range r.Covers {
			cov = append(cov, k)
		}
		sort.Strings(cov)
		fmt.Println("  covers:", cov)
		for _, l := range r.Logs() {
			fmt.Println("  log:", l)
		}
		for _, v := range r.Violations {
			fmt.Println("  VIOLATION", v.Kind, v.Msg, v.Loc)
			fmt.Println("    inputs", r.InputsOf(v.St, v.Model))
			for _, s := range v.St.Schedule() {
				fmt.Println("    ", s)
			}
		}
		for _, s := range r.Samples {
			fmt.Println("  sample", s.Inputs, s.Obs)
		}
	}
}
