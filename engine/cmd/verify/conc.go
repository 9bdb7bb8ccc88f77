package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"verifengine/sym"
)

// replayConc runs the instrumented real code under the schedule of a
// counterexample; when the schedule cannot be followed to the end, or ends
// differently, it tries random continuations and random schedules with the
// same inputs. Whatever fails is a failure of the real code.
func replayConc(res *result, v *sym.Outcome, path, work string) (bool, string) {
	race := v.Kind == "race"
	bin, err := nativeConc(race, work)
	if err != nil {
		return false, err.Error()
	}
	last := ""
	for try := 0; try < 60; try++ {
		env := []string{fmt.Sprintf("VKRT_SEED=%d", try+1), "GORACE=exitcode=0"}
		if try >= 10 {
			env = append(env, "VKRT_FREE=1")
		}
		code, out := runNative(bin, path, 20*time.Second, env...)
		how := "schedule followed"
		if strings.Contains(out, "DIVERGED") {
			how = "schedule followed in part"
		}
		if try >= 10 {
			how = "random schedule"
		}
		how = fmt.Sprintf("%s (try %d): ", how, try+1)
		switch {
		case race && raceIn(out):
			return true, how + "the race detector reports it"
		case code == 3, code == 5, code == 6:
			return true, how + firstLines(clean(out), 3)
		case code == 2 && (strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:")):
			return true, how + firstLines(clean(out), 3)
		case code == -1 && v.Kind == "hang":
			return true, how + "does not return"
		case code == 4:
			return false, "the assumption fails natively: " + firstLines(out, 3)
		case code == 7:
			return false, firstLines(out, 3)
		}
		last = fmt.Sprintf("exit %d: %s", code, firstLines(out, 3))
	}
	return false, last
}

func clean(out string) string {
	var l []string
	for _, s := range strings.Split(out, "\n") {
		if !strings.HasPrefix(s, "SCHEDULE FOLLOWED") && !strings.HasPrefix(s, "DIVERGED") && s != "" {
			l = append(l, s)
		}
	}
	return strings.Join(l, "\n")
}

// raceIn looks for a reported race with an access in the code under test.
func raceIn(out string) bool {
	for _, b := range strings.Split(out, "WARNING: DATA RACE")[1:] {
		if i := strings.Index(b, "\n=========="); i >= 0 {
			b = b[:i]
		}
		repo, rt := 0, 0
		lines := strings.Split(b, "\n")
		for i, l := range lines {
			l = strings.TrimSpace(l)
			if !strings.HasPrefix(l, "Read at") && !strings.HasPrefix(l, "Write at") && !strings.HasPrefix(l, "Previous ") {
				continue
			}
			for _, f := range lines[i+1:] {
				f = strings.TrimSpace(f)
				if f == "" {
					break
				}
				if strings.HasPrefix(f, "/") || strings.HasPrefix(f, "runtime.") {
					continue
				}
				if strings.Contains(f, "wearelumenai/distclus") {
					repo++
				}
				if strings.HasPrefix(f, "verifharness/vk") {
					rt++
				}
				break
			}
		}
		if repo > 0 && rt == 0 {
			return true
		}
	}
	return false
}

func validateConc(res *result, s *sym.Sample, work string, i int) (bool, string) {
	bin, err := nativeConc(false, work)
	if err != nil {
		return false, err.Error()
	}
	file := filepath.Join(work, fmt.Sprintf("s%d.json", i))
	b, _ := json.Marshal(replayFile{Func: res.job.Func, Params: res.job.Params, Inputs: s.Inputs, Steps: s.Sched,
		Race: res.job.Race, Clock: res.job.Clock, Sleep: res.job.Sleep})
	os.WriteFile(file, b, 0644)
	code, out := runNative(bin, file, 30*time.Second)
	if code != 0 || !strings.Contains(out, "PASSED") || strings.Contains(out, "DIVERGED") {
		return false, fmt.Sprintf("exit %d: %s; inputs %v", code, firstLines(out, 3), s.Inputs)
	}
	return true, ""
}
