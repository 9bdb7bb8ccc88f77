package main

// cjob is a job that explores schedules.
func cjob(f string, p P, covers ...string) Job {
	return Job{Func: f, Mode: "conc", Clock: "frozen", Sleep: "free", Params: p, Covers: covers}
}

// cl is a job with two clients, with default parameters.
func cl(f string, p P, covers ...string) Job {
	q := P{"iter": 1, "max": 1, "n1": 1, "n2": 1, "lo": 0, "hi": 8, "first": -1, "dpi": 0, "timeout": 0, "notif": 0,
		"failIter": 0, "failInit": 0, "failOnce": 0, "panic": 0, "yield": 0, "prefix": 0, "tail": 0}
	for k, v := range p {
		q[k] = v
	}
	return cjob(f, q, covers...)
}

func init() {
	Specs["C17"] = &Spec{
		Bounds:  "every sequence of 4 commands of one client (Init, Play, Pause, Stop, Wait, Push, Batch) with an iteration budget of 0..2 and of 3 commands with iterations that are interrupted half way; all interleavings of the client with the run and notification goroutines (merged states, no bound on context switches)",
		Outside: "longer sequences; more than 2 productive iterations per run; sleeps return at any moment (no clock)",
		Jobs: jobs(
			each(cjob("C17Commands", P{"iter": 2, "max": 3, "yield": 0, "n": 4}, "done"), "first", 0, 1, 2, 3, 4, 5, 6),
			each(cjob("C17Commands", P{"iter": 1, "max": 2, "yield": 1, "n": 3}, "done"), "first", 0, 1, 2, 3, 4, 5, 6),
		),
	}
}

func init() {
	Specs["C18"] = &Spec{
		Bounds:  "one client issuing any of 9 calls and a second one issuing any of 9 calls (1 or 2 each) against an algorithm that is created, ready, running, idle or finished, with and without failing initialization, failing or panicking iteration, run time-out, notifier that reads or drives the algorithm; all interleavings of all goroutines incl. run, timer, notifier; a call that cannot return is a deadlock (nothing can go on) or a state from which no schedule returns",
		Outside: "more than 3 concurrent calls; more than 2 iterations per run; starvation by an unfair scheduler",
		Jobs: jobs(
			each(cl("C18Clients", P{}, "done"), "prefix", 0, 1, 2, 3, 4),
			each(cl("C18Clients", P{"timeout": 1, "n2": 0}, "done"), "prefix", 1, 2, 3),
			each(cl("C18Clients", P{"iter": 0, "lo": 2, "hi": 5}, "done"), "prefix", 2, 3),
			each(cl("C18Clients", P{"timeout": 1, "lo": 3, "hi": 3}, "done"), "prefix", 1, 2),
			eachJ(each(cl("C18Clients", P{"n2": 0}, "done"), "prefix", 0, 1, 2, 3), "notif", 1, 2, 3),
			eachJ(each(cl("C18Clients", P{"failIter": 1, "lo": 2, "hi": 5, "tail": 1}, "done"), "panic", 0, 1), "prefix", 1, 2),
			eachJ(each(cl("C18Clients", P{"failInit": 1, "lo": 0, "hi": 6, "tail": 1}, "done"), "failOnce", 0, 1), "prefix", 0, 2),
			each(cl("C18Clients", P{"lo": 5, "hi": 5, "n1": 1, "n2": 2, "dpi": 1}, "done"), "prefix", 1, 2),
			only("t", jobs(
				each(cl("C18Clients", P{"timeout": 1, "n1": 2, "n2": 0}, "done"), "prefix", 1, 2, 3),
				each(cl("C18Clients", P{"timeout": 1, "lo": 2, "hi": 5}, "done"), "prefix", 1, 2, 3, 4),
				each(cl("C18Clients", P{"iter": 0, "lo": 0, "hi": 8}, "done"), "prefix", 1, 2, 3),
				each(cl("C18Clients", P{"iter": 2, "max": 2, "tail": 1}, "done"), "prefix", 1, 2, 3),
				each(cl("C18Clients", P{"lo": 1, "hi": 3, "n1": 2, "n2": 1}, "done"), "prefix", 2, 3),
				each(cl("C18Clients", P{"lo": 3, "hi": 5, "n1": 2, "n2": 1}, "done"), "prefix", 2, 3),
				eachJ(each(cl("C18Clients", P{"n1": 2, "n2": 0}, "done"), "prefix", 1, 2, 3), "notif", 1, 2, 3),
			)),
		),
	}
}

func init() {
	Specs["C19"] = &Spec{
		Bounds:  "Iter 0..2, IterPerData 0..2, 0..2 pushes before and 0..1 after a run, the first 1..2 iterations productive or not, pushes by a second goroutine during the run, every finishing condition kind; And/Or/status/iteration conditions over all inputs up to 3 operands",
		Outside: "larger budgets",
		Jobs: jobs(
			cjob("C19Budget", P{"iter": 2, "ipd": 1, "before": 1, "after": 1, "empty": 2, "restart": 0}, "done"),
			cjob("C19Budget", P{"iter": 1, "ipd": 2, "before": 2, "after": 1, "empty": 0, "restart": 0}, "done"),
			cjob("C19Budget", P{"iter": 2, "ipd": 1, "before": 1, "after": 0, "empty": 1, "restart": 1}, "done"),
			each(cjob("C19Push", P{"iter": 1, "n": 2}, "done"), "ipd", 0, 1),
			cjob("C19Push", P{"iter": 0, "n": 2, "ipd": 2}, "done"),
			each(cjob("C19Finishing", P{"iter": 2}, "done"), "kind", 0, 1, 2, 3),
			each(cjob("C19Endless", P{"n": 3}, "done"), "max", 0, 2),
			each(Job{Func: "C19Conditions", Covers: []string{"done"}}, "kind", 0, 1, 2, 3, 4),
		),
	}
	Specs["C20"] = &Spec{
		Bounds:  "an initialization or one of the first two iterations fails, by error or panic (of an error, a string, a number, or by the runtime), after 0..1 pauses, by Play+Wait and Batch, followed by any restart; all interleavings",
		Outside: "failures deeper in a run",
		Jobs: jobs(
			eachJ(each(cjob("C20Init", P{}, "done"), "again", 0, 1), "panic", 0, 1, 2, 3, 4),
			eachJ(eachJ(each(cjob("C20Iter", P{"k": 2, "pauses": 0}, "done"), "panic", 0, 1), "batch", 0, 1), "endless", 0),
			eachJ(each(cjob("C20Iter", P{"k": 1, "pauses": 0, "endless": 0}, "done"), "panic", 2, 3, 4), "batch", 0, 1),
			each(cjob("C20Iter", P{"k": 2, "pauses": 0, "batch": 0, "endless": 1}, "done"), "panic", 0, 1),
			each(cjob("C20Iter", P{"k": 2, "pauses": 1, "endless": 0, "batch": 0}, "done", "paused", "waited"), "panic", 0, 1),
		),
	}
}

func init() {
	Specs["C21"] = &Spec{
		Bounds:  "2..4 pushes by one or two goroutines, each accepted or refused, concurrent with one command from every prefix state, real k-means buffer with window 0 or 2; data thresholds 0..3",
		Outside: "more pushes; other implementations' buffers (C06, C16 cover them sequentially)",
		Jobs: jobs(
			each(cjob("C21Count", P{"n1": 2, "n2": 0}, "done"), "prefix", 0, 1, 2, 3),
			each(cjob("C21Count", P{"n1": 1, "n2": 1}, "done"), "prefix", 1, 2, 3),
			each(cjob("C21Data", P{"n1": 2, "n2": 0, "cmds": 1, "par": 0, "iter": 1, "ipd": 0, "frame": 0}, "done"), "prefix", 0, 1, 2, 3),
			each(cjob("C21Data", P{"n1": 3, "n2": 0, "cmds": 1, "par": 0, "iter": 1, "ipd": 0, "frame": 2}, "done"), "prefix", 0, 1, 2, 3),
			each(cjob("C21Data", P{"n1": 1, "n2": 1, "cmds": 1, "par": 0, "iter": 1, "ipd": 1, "frame": 0}, "done"), "prefix", 1, 2),
			each(cjob("C21Data", P{"n1": 2, "n2": 2, "cmds": 0, "par": 0, "iter": 1, "ipd": 0, "frame": 2}, "done"), "prefix", 1, 2),
			each(cjob("C21Threshold", P{"n": 5}, "done"), "dpi", 0),
			each(cjob("C21Threshold", P{"n": 6}, "done", "restarted", "run"), "dpi", 1, 2),
			only("t", each(cjob("C21Threshold", P{"n": 8}, "done", "restarted", "run"), "dpi", 2, 3)),
			each(cjob("C21Restart", P{"n1": 2, "n2": 1}, "done"), "dpi", 1, 2, 3),
		),
	}
}

func raced(js []Job) []Job {
	for i := range js {
		js[i].Race = true
	}
	return js
}

func init() {
	Specs["C22"] = &Spec{
		Bounds:  "race detection with vector clocks over all interleavings of one reader, pusher or waiter and one command with the run, for a recording implementation and for kmeans (seq, par), streaming and mcmc; results taken at any moment compared after later pushes, iterations, restarts; 2 readings of figures and centroids against 2 iterations and a push",
		Outside: "more concurrent readers; more iterations",
		Jobs: jobs(
			raced(each(cjob("C22Race", P{"iter": 1, "timeout": 0, "lo": 0, "hi": 5}, "done"), "prefix", 0, 1)),
			raced(each(cjob("C22Race", P{"iter": 1, "timeout": 0, "lo": 0, "hi": 2}, "done"), "prefix", 2, 3)),
			raced(each(cjob("C22Race", P{"iter": 1, "timeout": 0, "lo": 3, "hi": 5}, "done"), "prefix", 2, 3)),
			raced(each(cjob("C22Real", P{"iter": 1, "prefix": 2, "cmds": 0, "lo": 0, "hi": 4, "numcpu": 1}, "done"), "kind", 0, 1, 2, 3, 4)),
			raced(each(cjob("C22Real", P{"iter": 1, "prefix": 2, "cmds": 1, "lo": 0, "hi": 4, "numcpu": 1}, "done"), "kind", 0, 2)),
			only("t", raced(each(cjob("C22Real", P{"iter": 1, "prefix": 2, "cmds": 1, "lo": 0, "hi": 4, "numcpu": 1}, "done"), "kind", 1, 3, 4))),
			only("t", raced(each(cjob("C22Race", P{"iter": 2, "timeout": 1000000000, "lo": 0, "hi": 5}, "done"), "prefix", 0, 1, 2, 3))),
			only("t", eachJ(each(cjob("C22Snapshot", P{"iter": 2, "numcpu": 1}, "done"), "kind", 0, 1, 2, 3), "prefix", 1, 2, 3)),
			only("t", each(cjob("C22Consistent", P{"iter": 3, "pushes": 2}, "done"), "reads", 3)),
			each(cjob("C22Snapshot", P{"iter": 1, "prefix": 2, "numcpu": 1}, "done"), "kind", 0, 2, 3),
			each(cjob("C22Consistent", P{"iter": 2, "pushes": 1}, "done"), "reads", 2),
		),
	}
}

// timed jobs have a virtual clock that moves on when nothing else can happen.
func timed(js []Job) []Job {
	for i := range js {
		js[i].Clock, js[i].Sleep = "virtual", "maxprogress"
	}
	return js
}

func init() {
	n := P{"iter": 1, "max": 1, "n1": 2, "n2": 0, "lo": 0, "first": -1, "timeout": 0, "failIter": 0, "failInit": 0, "failOnce": 0, "panic": 0, "yield": 0}
	nj := func(p P, cov ...string) Job {
		q := P{}
		for k, v := range n {
			q[k] = v
		}
		for k, v := range p {
			q[k] = v
		}
		return cjob("C23Order", q, cov...)
	}
	Specs["C23"] = &Spec{
		Bounds:  "3 commands of one client, or 2 and 1 of a second one, from Created, with failures by error or panic; notifier that never returns; all interleavings",
		Outside: "longer sequences",
		Jobs: jobs(
			each(nj(P{"n1": 3}, "done"), "first", 0, 1, 2, 3),
			nj(P{"n1": 2, "n2": 1, "first": 0}, "done"),
			nj(P{"n1": 2, "n2": 1, "first": 1, "lo": 3}, "done"),
			only("t", each(nj(P{"n1": 2, "n2": 1, "first": 1}, "done"), "lo", 2)),
			each(nj(P{"n1": 2, "failIter": 1}, "done", "error"), "panic", 0, 1),
			each(cjob("C23Exact", P{"fail": 0, "panic": 0}, "done"), "n", 2),
			only("t", each(cjob("C23Exact", P{"fail": 0, "panic": 0}, "done"), "n", 3)),
			each(cjob("C23Failure", P{}, "done"), "panic", 0, 1),
			each(cjob("C23Blocked", P{"n": 1}, "done"), "iter", 0, 1),
		),
	}
	Specs["C25"] = &Spec{
		Bounds:  "virtual clock moving when nothing else can happen; every iteration length (2 iterations of up to 150 ms, thorough 3 of up to 200 ms), bound (up to 250, 400 ms), limit and moment of the commands, to the nanosecond; also around 12 s and 5 min; all orders of simultaneous events",
		Outside: "longer durations; more iterations; delays of the operating system",
		Jobs: timed(jobs(
			each(cjob("C25Wait", P{"base": 0, "n": 2, "took": 150, "bound": 250}, "done", "timeout"), "fail", 0, 2),
			cjob("C25Cond", P{"took": 70, "bound": 300}, "done"),
			cjob("C25Refused", P{}, "done"),
			cjob("C25Run", P{"base": 0, "n": 2, "took": 150, "limit": 250}, "done", "in time", "late"),
			eachJ(each(cjob("C25Wait", P{"n": 1, "took": 150, "bound": 250}, "done", "timeout"), "fail", 0, 1), "base", 12, 300),
			cjob("C25Run", P{"base": 12, "n": 2, "took": 150, "limit": 250}, "done", "in time", "late"),
			cjob("C25Later", P{}, "done"),
			cjob("C25Paused", P{"took": 0}, "done"),
			only("t", jobs(
				each(cjob("C25Wait", P{"base": 0, "n": 3, "took": 200, "bound": 400}, "done", "timeout"), "fail", 0, 1, 2, 3),
				cjob("C25Cond", P{"took": 150, "bound": 600}, "done"),
				cjob("C25Run", P{"base": 0, "n": 3, "took": 150, "limit": 300}, "done", "in time", "late"),
				cjob("C25Paused", P{"took": 40}, "done"),
			)),
		)),
	}
	Specs["C29"] = &Spec{
		Bounds:  "virtual clock moving when nothing else can happen; frequencies none, 0.5, 3, 10, 2500 per second; 3 iterations of any length up to 150 ms (some without result), a pause at any moment; two runs of 2 iterations, read at any moment; 3 pushes at any moments; all to the nanosecond",
		Outside: "other frequencies; more iterations; delays of the operating system",
		Jobs: timed(jobs(
			each(cjob("C29Pace", P{"n": 3, "took": 150, "empty": 0, "pause": 0}, "done"), "mhz", 0, 500, 3000, 10000, 2500000),
			cjob("C29Pace", P{"n": 2, "took": 150, "empty": 2, "pause": 0, "mhz": 10000}, "done"),
			cjob("C29Pace", P{"n": 3, "took": 150, "empty": 0, "pause": 300, "mhz": 10000}, "done", "paused"),
			cjob("C29Duration", P{"n": 2, "took": 60, "at": 120, "at2": 0, "fail": 0, "panic": 0}, "done", "during"),
			cjob("C29Duration", P{"n": 2, "took": 60, "at": 0, "at2": 120, "fail": 0, "panic": 0}, "done", "during2"),
			each(cjob("C29Duration", P{"n": 2, "took": 60, "at": 120, "at2": 0, "fail": 2}, "done", "failed"), "panic", 0, 1),
			cjob("C29Paused", P{"took": 60}, "done", "resumed", "stopped", "while"),
			cjob("C29Data", P{"n": 3}, "done"),
		)),
	}
	vj := func(p P) Job {
		q := P{"iter": 2, "dpi": 0, "most": 2, "fails": 0}
		for k, v := range p {
			q[k] = v
		}
		return cjob("C30View", q, "done")
	}
	km := Job{Func: "C30Kmeans", Params: P{"k": 2, "n": 2, "p": 1, "iters": 2}, Covers: []string{"done"}}
	Specs["C30"] = &Spec{
		Bounds:  "sequences of 3 commands (thorough 4) of one client after each life cycle prefix, with 2 iterations and one failing, all interleavings with the run; a batch of k-means: 2 clusters, 2 elements and 1 pushed between iterations, 2 iterations (thorough 3), any distances",
		Outside: "longer sequences",
		Jobs: jobs(
			each(vj(P{"n": 3}), "prefix", 0, 1, 2, 3, 4),
			each(vj(P{"n": 3, "prefix": 1}), "fails", 1, 2),
			vj(P{"n": 4, "prefix": 1, "dpi": 1}),
			vj(P{"n": 3, "prefix": 1, "most": 1}),
			vj(P{"n": 3, "prefix": 2, "most": 1}),
			only("t", each(vj(P{"n": 4}), "prefix", 0, 2, 3, 4)),
			only("t", each(vj(P{"n": 4, "iter": 3, "most": 3}), "prefix", 1)),
			each(km, "par", 0, 1),
			only("t", each(Job{Func: "C30Kmeans", Params: P{"k": 2, "n": 2, "p": 1, "iters": 3}, Covers: []string{"done"}}, "par", 0, 1)),
		),
	}
	Specs["C27"] = &Spec{
		Bounds:  "2 goroutines with 2 uses each, 3 with one, Sample or Pdf, all interleavings, with vector clock race detection",
		Outside: "more goroutines",
		Jobs: jobs(
			raced(each(cjob("C27Late", P{"n": 2, "uses": 2}, "done"), "yield", 0, 1)),
			raced(each(cjob("C27Late", P{"n": 3, "uses": 1}, "done"), "yield", 0, 1)),
		),
	}
}
