package main

// Specs of the algorithms.
func init() {
	Specs["C13"] = &Spec{
		Bounds:  "k = 2 and n = 2..3 initial elements plus 1..2 pushed ones (thorough: k = 3), two iterations (three thorough) driven through Impl.Init, Push and Iterate, pushes before, between and after iterations of a run or of an algorithm at rest, window sizes 0 and 2, parallel degree 1..3 (5 thorough) in two thread orders with race detection, any distances in [0,1000] between elements and every possible barycenter; loss: k = 2, n <= 3 (4 thorough), dimension 1 (2 thorough), coordinates in [-1000,1000], exact real arithmetic; three iterations over 30 elements and 20..40 pushed ones with fixed distances but for 3..4 arbitrary ones",
		Outside: "more clusters, elements or iterations; rounding in the loss comparison",
		Jobs: jobs(
			both(each(Job{Func: "C13Step", Params: P{"k": 2, "n": 2, "p": 1, "iters": 2, "frame": 0, "par": 1}, Covers: []string{"done", "kept", "many"}}, "degree", 1, 2, 3)),
			each(Job{Func: "C13Step", Params: P{"k": 2, "n": 2, "p": 1, "iters": 2, "degree": 1, "frame": 0}, Covers: []string{"done", "kept", "many"}}, "par", 0),
			each(Job{Func: "C13Step", Params: P{"k": 2, "n": 2, "p": 2, "iters": 2, "degree": 2, "frame": 2}, Covers: []string{"done", "kept", "many", "frame"}}, "par", 0, 1),
			each(Job{Func: "C13Step", Params: P{"k": 2, "n": 3, "p": 1, "iters": 2, "degree": 2, "frame": 0}, Covers: []string{"done", "kept", "many"}}, "par", 0, 1),
			only("t", each(Job{Func: "C13Step", Params: P{"k": 3, "n": 2, "p": 1, "iters": 2, "degree": 2, "frame": 0}, Covers: []string{"done", "kept", "many"}}, "par", 0, 1)),
			only("t", each(Job{Func: "C13Step", Params: P{"k": 2, "n": 2, "p": 2, "iters": 3, "degree": 5, "frame": 0}, Covers: []string{"done", "kept", "many"}}, "par", 0, 1)),
			eachJ(each(Job{Func: "C13Loss", Params: P{"k": 2, "dim": 1, "degree": 2}, Float: "realx", QueryMs: 5000, Covers: []string{"done"}}, "par", 0, 1), "n", 2, 3),
			only("t", each(Job{Func: "C13Loss", Params: P{"k": 2, "n": 4, "dim": 1, "degree": 3}, Float: "realx", QueryMs: 5000, Covers: []string{"done"}}, "par", 0, 1)),
			only("t", each(Job{Func: "C13Loss", Params: P{"k": 2, "n": 2, "dim": 2, "degree": 2}, Float: "realx", QueryMs: 5000, Covers: []string{"done"}}, "par", 0, 1)),
			each(Job{Func: "C13Wide", Params: P{"k": 4, "n": 30, "p": 20, "sym": 4, "frame": 0, "degree": 5}, Covers: []string{"done"}}, "par", 0, 1),
			each(Job{Func: "C13Wide", Params: P{"k": 5, "n": 2, "p": 2, "sym": 2, "frame": 0, "degree": 3}, Covers: []string{"done"}}, "par", 0, 1),
			each(Job{Func: "C13Wide", Params: P{"k": 3, "n": 30, "p": 40, "sym": 3, "frame": 35, "degree": 4}, Covers: []string{"done"}}, "par", 0, 1),
		),
	}
	c14 := func(tier string, p P, covers ...string) Job {
		j := Job{Func: "C14Step", Float: "realx", Tier: tier, Covers: append([]string{"accepted", "rejected"}, covers...),
			Params: P{"n": 2, "k": 1, "maxk": 2, "norm": 1, "iters": 1, "move": 3, "p": 0, "dim": 1, "amp": 2, "b": 3, "degree": 1, "par": 0}}
		for k, v := range p {
			j.Params[k] = v
		}
		return j
	}
	Specs["C14"] = &Spec{
		Bounds:  "n = 1..3 elements, 1..3 current clusters, MaxK 1..3, weights of the moves (1,0,0), (0,1,0), (0,0,1) and (1,2,1), 1..3 iterations driven through Impl.Init, Push and Iterate, sequential and parallel (degree 1..3), norm 1 and 2, dimension 1..3, 7 and 300, Amp 0..2, B 1..3; any distances in [0,1000] between elements and all centers that can arise, any log-densities in [-1000,1000], any random draws; exp and log are monotone functions tight at the points where a model disagrees",
		Outside: "more initial centers than elements, other sizes, rounding of the ratio (exact real arithmetic), MaxK above the number of elements plus two",
		Jobs: jobs(
			c14("qt", P{}, "more"),
			c14("qt", P{"n": 1, "maxk": 3, "move": 2}),
			c14("qt", P{"k": 2, "maxk": 3, "move": 2}),
			c14("qt", P{"k": 2, "maxk": 3, "move": 0}, "less"),
			c14("qt", P{"k": 2, "maxk": 3, "move": 1}),
			c14("t", P{"n": 3, "k": 2, "maxk": 3, "move": 2, "dim": 2, "amp": 1, "b": 1}, "more"),
			c14("qt", P{"n": 3, "k": 2, "maxk": 3, "move": 0, "dim": 2, "amp": 1, "b": 1}, "less"),
			c14("qt", P{"n": 3, "k": 2, "maxk": 3, "move": 1, "dim": 2, "amp": 1, "b": 1}),
			c14("qt", P{"n": 2, "k": 1, "maxk": 2, "move": 1, "iters": 2, "p": 1}),
			c14("qt", P{"n": 2, "k": 1, "maxk": 1, "move": 3, "iters": 3, "p": 1, "dim": 3}),
			c14("qt", P{"n": 2, "k": 1, "maxk": 2, "move": 2, "iters": 2, "norm": 1}, "more", "stored"),
			c14("qt", P{"n": 2, "k": 1, "maxk": 2, "move": 2, "iters": 2, "norm": 1, "par": 1, "degree": 3}, "more", "stored"),
			c14("qt", P{"n": 2, "k": 1, "maxk": 2, "move": 2, "iters": 1, "norm": 2}, "more"),
			c14("qt", P{"n": 2, "k": 2, "maxk": 2, "move": 0, "iters": 2, "norm": 2}, "less"),
			c14("t", P{"n": 2, "k": 1, "maxk": 2, "move": 3, "iters": 2}, "more", "less"),
			c14("qt", P{"n": 2, "k": 1, "maxk": 2, "move": 2, "dim": 7, "b": 5}, "more"),
			c14("qt", P{"n": 2, "k": 2, "maxk": 2, "move": 0, "dim": 300, "amp": 0}, "less"),
		),
	}
	Specs["C15"] = &Spec{
		Bounds:  "n = 1..2 data elements, up to 4 requests, storings and changes of the current centers in any order, up to 3 centers, any distances in [0,1000], any random draws; 20 elements and 2..17 centers with fixed distances, any draws",
		Outside: "longer histories, more centers; use by several goroutines",
		Jobs: jobs(
			Job{Func: "C15Store", Params: P{"n": 2, "ops": 2, "maxk": 3}, Float: "realx", Covers: []string{"done", "stored", "less", "more", "none"}},
			Job{Func: "C15Store", Params: P{"n": 1, "ops": 4, "maxk": 2}, Float: "realx", Covers: []string{"done", "stored", "less", "more", "none"}},
			Job{Func: "C15Store", Params: P{"n": 2, "ops": 3, "maxk": 2}, Tier: "t", Covers: []string{"done", "stored", "less", "more", "none"}},
			each(Job{Func: "C15Wide", Float: "realx", Params: P{"n": 20}, Covers: []string{"done"}}, "k", 2, 9, 17),
		),
	}
	c16 := func(tier string, n, first, buf, ops, after, ratio int, covers ...string) Job {
		return Job{Func: "C16Stream", Float: "realx", Tier: tier, Covers: append([]string{"done"}, covers...),
			Params: P{"n": n, "first": first, "buf": buf, "ops": ops, "after": after, "ratio": ratio, "mu": 2, "sigma": 1}}
	}
	Specs["C16"] = &Spec{
		Bounds:  "3..4 elements (5 thorough), buffers of 1..4 (5 thorough), up to 6 pushes and iterations in any order before and after the initialization (8 thorough), OutAfter 2..3, OutRatio 1/2 and 3/2, Mu 1/2, Sigma 1/4 (1/2 and 1 thorough), any distance in [0,1000] between an element and each barycenter of earlier ones, any threshold drawn within 3.2 standard deviations; streams of 30..60 fixed numbers (an arbitrary one in one of them) that no threshold can confuse, with several configurations, the default one included",
		Outside: "longer streams, larger delays; the tail of the normal distribution; rounding of the relative distance; initialization of an algorithm that was already finished",
		Jobs: jobs(
			c16("qt", 4, 4, 4, 3, 2, 6, "new", "merged", "outlier"),
			c16("qt", 3, 0, 1, 5, 2, 6, "new", "merged", "full", "empty", "idle"),
			c16("qt", 4, 1, 2, 6, 2, 2, "new", "merged", "full", "outlier", "idle"),
			c16("t", 5, 5, 5, 4, 3, 6, "new", "merged", "outlier"),
			c16("t", 5, 2, 2, 7, 2, 2, "new", "merged", "full", "outlier", "idle"),
			c16("t", 4, 0, 3, 7, 2, 6, "new", "merged", "outlier", "idle", "empty"),
			each(Job{Func: "C16Wide", Float: "realx", Params: P{"n": 30, "after": 3, "def": 0}, Covers: []string{"done"}}, "sym", 0, 1),
			Job{Func: "C16Wide", Float: "realx", Params: P{"n": 40, "after": 25, "sym": 0, "def": 0}, Covers: []string{"done"}},
			Job{Func: "C16Wide", Float: "realx", Params: P{"n": 60, "after": 5, "sym": 0, "def": 1}, Covers: []string{"done", "outlier"}},
		),
	}
	Specs["C24"] = &Spec{
		Bounds:  "any controller configuration with values in [-1000,1000]; K, InitK, MaxK, OutAfter in [-100,100], NumCPU in [-4,64], B, Amp, R, Norm, OutRatio, Sigma in [0,100], Mu in [-100,100], FrameSize in [-1,2], BufferSize in [-1,3], 0..3 weights of moves, with and without a generator, 0..3 initial elements, sequential and parallel",
		Outside: "values that are not numbers",
		Jobs: eachJ(jobs(
			Job{Func: "C24Plain", Covers: []string{"done", "valid", "invalid"}},
			each(Job{Func: "C24Kmeans", Covers: []string{"done", "valid", "invalid", "complete"}}, "par", 0, 1),
			each(Job{Func: "C24Mcmc", Covers: []string{"done", "valid", "invalid", "complete"}}, "par", 0, 1),
			each(Job{Func: "C24Streaming", Covers: []string{"done", "valid", "invalid", "complete"}}, "n", 0, 1, 3),
		), "finishing", 0, 1),
	}
	Specs["C26"] = &Spec{
		Bounds:  "k-means and mcmc, sequential and parallel, with 2 initial and 1..2 pushed elements, window 0, 2 and 3, copied before, after the initialization, after a run and after a stop, then up to 2 pushes and two iterations of the copy and one of the original; streaming with 2..3 elements; also copies with another window; runs of 24 iterations over 16..40 fixed points, with fixed draws, with and without copies made and run on the way; every interleaving of a copy with a run of one iteration and a push from another goroutine, with race detection (k-means, streaming)",
		Outside: "longer histories, generators and distributions shared by the caller",
		Jobs: jobs(
			each(Job{Func: "C26Copy", Params: P{"frame": 0, "frame2": 0, "pushed": 1}, Covers: []string{"done"}}, "kind", 0, 1, 3, 4),
			each(Job{Func: "C26Copy", Params: P{"frame": 2, "frame2": 2, "pushed": 1}, Covers: []string{"done"}}, "kind", 0, 3),
			each(Job{Func: "C26Copy", Params: P{"frame": 3, "frame2": 3, "pushed": 2}, Covers: []string{"done"}}, "kind", 1, 4),
			each(Job{Func: "C26Copy", Params: P{"frame": 0, "frame2": 2, "pushed": 2}, Covers: []string{"done"}}, "kind", 0, 3),
			each(Job{Func: "C26Copy", Params: P{"frame": 2, "frame2": 3, "pushed": 1}, Covers: []string{"done"}}, "kind", 0, 3),
			each(Job{Func: "C26Copy", Params: P{"frame": 2, "frame2": 0, "pushed": 1}, Covers: []string{"done"}}, "kind", 1, 4),
			each(Job{Func: "C26Alone", Float: "realx", Params: P{"n": 16, "iters": 8, "degree": 3}, Covers: []string{"done"}}, "kind", 0, 1, 2, 3, 4),
			each(Job{Func: "C26Stream", Float: "realx", Covers: []string{"done", "many", "empty"}}, "n", 2, 3),
			each(Job{Func: "C26Race", Mode: "conc", Race: true, Params: P{"prefix": 2, "iter": 1}, Covers: []string{"done"}}, "kind", 0, 2),
		),
	}
	Specs["C28"] = &Spec{
		Bounds:  "dimension 1..3, 3 degrees of freedom (1..4 thorough; 40..400 for the density), amounts of data 1 and 8 (also 1000 thorough), any coordinates in [-1000,1000], up to 8 draws from the main strip of the normal, exponential and uniform generators; the gonum code behind is executed too (its portable variant, tag noasm) in exact real arithmetic",
		Outside: "higher dimensions, longer rejection loops, rounding",
		Jobs: jobs(
			each(Job{Func: "C28Sample", Float: "realx", Params: P{"nu": 3, "time": 8, "times": 1, "maxdraws": 8}, Covers: []string{"done"}}, "dim", 1, 2, 3),
			Job{Func: "C28Sample", Float: "realx", Params: P{"nu": 3, "time": 8, "times": 2, "dim": 1, "maxdraws": 8}, Covers: []string{"done"}},
			eachJ(each(Job{Func: "C28Pdf", Float: "realx", Params: P{"nu": 3}, Covers: []string{"done"}}, "dim", 1, 2), "time", 1, 8),
			only("t", eachJ(each(Job{Func: "C28Sample", Float: "realx", Params: P{"dim": 2, "times": 1, "maxdraws": 8}, Covers: []string{"done"}}, "nu", 2, 3, 4), "time", 1, 1000)),
			only("t", each(Job{Func: "C28Sample", Float: "realx", Params: P{"time": 5, "nu": 2, "times": 2, "maxdraws": 12}, Covers: []string{"done"}}, "dim", 2)),
			only("t", eachJ(each(Job{Func: "C28Pdf", Float: "realx", Params: P{"time": 1000}, Covers: []string{"done"}}, "dim", 1, 2, 3), "nu", 1, 2, 3, 4)),
			each(Job{Func: "C28Pdf", Float: "realx", Params: P{"dim": 1, "time": 8}, Covers: []string{"done"}}, "nu", 40, 342, 400),
			each(Job{Func: "C28Pdf", Float: "realx", Params: P{"dim": 2, "time": 8}, Covers: []string{"done"}}, "nu", 341, 342),
			Job{Func: "C28Dirac", Covers: []string{"done"}},
		),
	}
	rep := func(tier string, kinds []int, n, iters, degree, fixed int) []Job {
		return only(tier, each(Job{Func: "C31Repeat", Float: "realx", Params: P{"n": n, "iters": iters, "degree": degree, "fixed": fixed}, Covers: []string{"done"}}, "kind", kinds...))
	}
	Specs["C31"] = &Spec{
		Bounds:  "two runs of 1..2 iterations over 4..7 fixed points in the plane, another run between them, maps iterated and threads chosen in opposite orders: k-means and MCMC (sequential, parallel), the initializers, any draws; with fixed draws 20 points, 4..6 iterations, alteration by the t distribution, streaming",
		Outside: "durations and dates; rounding (parallel sums may be rounded differently); more orders of the parallel workers than two opposite ones",
		Jobs: jobs(
			rep("qt", []int{0, 1}, 5, 2, 3, 0),
			rep("qt", []int{4, 5}, 4, 2, 3, 0),
			rep("qt", []int{0, 1, 2, 4, 5, 6, 7, 8}, 60, 15, 4, 1),
			rep("qt", []int{8}, 5, 4, 1, 0),
			eachJ(each(Job{Func: "C31Sample", Float: "realx", Params: P{"n": 4, "fixed": 1}, Covers: []string{"done"}}, "kind", 0, 1), "dim", 1, 2, 4),
			each(Job{Func: "C31Sample", Float: "realx", Params: P{"n": 1, "dim": 2, "fixed": 0, "maxdraws": 12}, Covers: []string{"done"}}, "kind", 0, 1),
			rep("t", []int{4, 5}, 5, 3, 3, 0),
		),
	}
	Specs["C32"] = &Spec{
		Bounds:  "every space (euclidean, cosine, DTW over both, with and without window) asked about elements of dimension 1..4 with an arbitrary coordinate (series: fixed numbers), before and after other elements of other dimensions, changes in place and changes of its answers; 2..3 goroutines using one space on shared elements with race detection over all their interleavings",
		Outside: "more goroutines",
		Jobs: jobs(
			eachJ(each(Job{Func: "C32Seq", Float: "realx", Covers: []string{"done"}}, "kind", 0, 1, 2, 3), "dim", 1, 2, 4),
			raced(eachJ(each(Job{Func: "C32Shared", Float: "realx", Mode: "conc", Clock: "frozen", Sleep: "free", Covers: []string{"done"}}, "kind", 0, 1, 2, 3), "n", 2, 3)),
		),
	}
}
