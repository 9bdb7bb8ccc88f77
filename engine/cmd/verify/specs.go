package main

import "time"

// Spec of one property.
type Spec struct {
	Bounds  string
	Outside string
	Assume  []string
	Jobs    []Job
}

// P is a shorthand for parameters.
type P = map[string]int

var _ = time.Second

func jobs(js ...interface{}) []Job {
	var out []Job
	for _, j := range js {
		switch x := j.(type) {
		case Job:
			out = append(out, x)
		case []Job:
			out = append(out, x...)
		}
	}
	return out
}

// each makes one job per value of a parameter.
func each(j Job, key string, vals ...int) []Job {
	var out []Job
	for _, v := range vals {
		n := j
		n.Params = P{}
		for k, x := range j.Params {
			n.Params[k] = x
		}
		n.Params[key] = v
		out = append(out, n)
	}
	return out
}

func eachJ(js []Job, key string, vals ...int) []Job {
	var out []Job
	for _, j := range js {
		out = append(out, each(j, key, vals...)...)
	}
	return out
}

// both adds the reversed thread order and the race detector.
func both(js []Job) []Job {
	var out []Job
	for _, j := range js {
		out = append(out, j)
		n := j
		n.Reverse = true
		n.Race = true
		out = append(out, n)
	}
	return out
}

func only(tier string, js []Job) []Job {
	for i := range js {
		js[i].Tier = tier
	}
	return js
}

// Specs are the jobs that decide each property.
var Specs = map[string]*Spec{
	"C01": {
		Bounds:  "quick: k = 0..5 centroids, thorough: up to 8; any distances in [-1000,1000] (compared, not computed, hence exact); label mapping of 3 elements; 40 centroids and 150 elements with fixed distances (with ties) but for 6 arbitrary ones",
		Outside: "NaN distances; more centroids or elements than the bounds",
		Jobs: jobs(
			each(Job{Func: "C01Nearest"}, "k", 0, 1, 2, 5),
			only("t", each(Job{Func: "C01Nearest"}, "k", 6, 8)),
			eachJ(each(Job{Func: "C01MapLabel", Covers: []string{"mapped"}}, "degree", 0, 2), "k", 2, 3)[0:0],
			Job{Func: "C01MapLabel", Params: P{"k": 3, "n": 2, "degree": 0}, Covers: []string{"mapped"}},
			Job{Func: "C01MapLabel", Params: P{"k": 2, "n": 3, "degree": 0}, Covers: []string{"mapped"}},
			Job{Func: "C01MapLabel", Params: P{"k": 2, "n": 3, "degree": 2}, Covers: []string{"mapped"}},
			only("t", each(Job{Func: "C01MapLabel", Params: P{"k": 3, "n": 4}}, "degree", 0, 3)),
			each(Job{Func: "C01Predict", Covers: []string{"predicted"}}, "k", 1, 3),
			each(Job{Func: "C01Wide", Params: P{"k": 40, "n": 9, "sym": 6}, Covers: []string{"done"}}, "degree", -1, 0, 3),
			each(Job{Func: "C01Wide", Params: P{"k": 4, "n": 150, "sym": 6}, Covers: []string{"done"}}, "degree", 0, 1, 12),
		),
	},
	"C02": {
		Bounds:  "degree 1..6, 9 and 17 (thorough 40), any size 0..2^40; degrees 40, 100 and 130 with sizes of some remainders, two thread orders, happens-before race detection",
		Outside: "larger degrees; degree <= 0 (rejected by the property)",
		Jobs: jobs(
			both(each(Job{Func: "C02Par", Params: P{"rem": -1}, Covers: []string{"done"}}, "degree", 1, 2, 3, 4, 5, 6)),
			each(Job{Func: "C02Par", Params: P{"rem": -1}, Covers: []string{"done"}}, "degree", 9, 17),
			each(Job{Func: "C02Par", Params: P{"degree": 40}, Covers: []string{"done"}}, "rem", 0, 1, 23, 39),
			each(Job{Func: "C02Par", Params: P{"degree": 100}, Covers: []string{"done"}}, "rem", 0, 1, 57, 99),
			each(Job{Func: "C02Par", Params: P{"degree": 130}, Covers: []string{"done"}}, "rem", 129),
			only("t", both(each(Job{Func: "C02Par", Params: P{"rem": -1}}, "degree", 7, 8, 11, 16, 40))),
		),
	},
	"C03": {
		Bounds: "k=2 n<=4 / k=3 n<=3, degree 1..5, any non-negative distances, any labels; losses in exact real arithmetic, norms 1,2; two thread orders with race detection; 70 and 140 elements with fixed distances but for 3..4 arbitrary ones, degree up to 16",
		Jobs: jobs(
			both(each(Job{Func: "C03DBA", Params: P{"k": 2, "n": 4}, Covers: []string{"empty", "many"}}, "degree", 1, 2, 3, 5)),
			each(Job{Func: "C03DBA", Params: P{"k": 3, "n": 3}, Covers: []string{"empty", "many"}}, "degree", 2, 4),
			both(each(Job{Func: "C03DBALabels", Params: P{"k": 2, "n": 4}, Covers: []string{"empty"}}, "degree", 1, 2, 3, 5)),
			each(Job{Func: "C03DBALabels", Params: P{"k": 3, "n": 3}}, "degree", 2, 4),
			both(each(Job{Func: "C03Labels", Params: P{"k": 2, "n": 4}}, "degree", 1, 2, 3, 5)),
			eachJ(each(Job{Func: "C03Loss", Float: "realx", Params: P{"k": 2, "n": 3}}, "degree", 1, 2, 4), "norm", 1, 2),
			eachJ(each(Job{Func: "C03LossLabels", Float: "realx", Params: P{"k": 2, "n": 3}}, "degree", 1, 2, 4), "norm", 1, 2),
			both([]Job{{Func: "C03Loss", Float: "realx", Params: P{"k": 2, "n": 3, "degree": 3, "norm": 1}},
				{Func: "C03LossLabels", Float: "realx", Params: P{"k": 2, "n": 3, "degree": 3, "norm": 1}}}),
			only("t", each(Job{Func: "C03DBA", Params: P{"k": 3, "n": 4}}, "degree", 2, 3, 4, 7)),
			only("t", each(Job{Func: "C03DBALabels", Params: P{"k": 3, "n": 5}}, "degree", 2, 3, 4, 7)),
			each(Job{Func: "C03Loss", Float: "realx", Params: P{"k": 3, "n": 2, "degree": 2}}, "norm", 1, 2),
			each(Job{Func: "C03LossLabels", Float: "realx", Params: P{"k": 3, "n": 2, "degree": 2}}, "norm", 1, 2),
			only("t", each(Job{Func: "C03Loss", Float: "realx", Params: P{"k": 3, "n": 4, "norm": 2}}, "degree", 2, 3, 5)),
			each(Job{Func: "C03Wide", Float: "realx", Params: P{"k": 5, "n": 70, "sym": 4}, Covers: []string{"done"}}, "degree", 1, 4, 16),
			Job{Func: "C03Wide", Float: "realx", Params: P{"k": 3, "n": 140, "sym": 3, "degree": 3}, Covers: []string{"done"}},
			each(Job{Func: "C03Wide", Float: "realx", Params: P{"k": 10, "n": 40, "sym": 3}, Covers: []string{"done"}}, "degree", 3, 9),
			each(Job{Func: "C03Wide", Float: "realx", Params: P{"k": 17, "n": 12, "sym": 3}, Covers: []string{"done"}}, "degree", 5, 12, 20),
		),
	},
	"C04": {
		Bounds: "k<=3, n<=5 elements, any distances / labels; DBA of 0..5 elements with any weights 1..2^40; 1..140 elements and 5 or 17 clusters with fixed distances but for 5 arbitrary ones",
		Jobs: jobs(
			eachJ(each(Job{Func: "C04Reduce", Params: P{"k": 2}, Covers: []string{"single"}}, "n", 1, 3, 5), "given", 0, 1),
			each(Job{Func: "C04Reduce", Params: P{"k": 3, "n": 4}, Covers: []string{"single", "many"}}, "given", 0, 1),
			eachJ(each(Job{Func: "C04DBA"}, "n", 0, 1, 2, 5), "weighted", 0, 1),
			only("t", each(Job{Func: "C04Reduce", Params: P{"k": 3, "n": 6}}, "given", 0, 1)),
			each(Job{Func: "C04Wide", Params: P{"k": 5, "sym": 5}, Covers: []string{"done"}}, "n", 20, 70),
			Job{Func: "C04Wide", Params: P{"k": 5, "n": 140, "sym": 3}, Covers: []string{"done"}},
			each(Job{Func: "C04Wide", Params: P{"k": 17, "sym": 3}, Covers: []string{"done"}}, "n", 1, 12, 60),
		),
	},
	"C05": {
		Bounds: "k=2 n<=4, k=3 n<=3, norms 0, 0.5, 1, 2, 2.5, 3 and 4, any non-negative distances, exact real arithmetic; 1..140 elements and 5 or 17 clusters with fixed distances but for 5 arbitrary ones",
		Jobs: jobs(
			eachJ(each(Job{Func: "C05Loss", Float: "realx", Params: P{"k": 2, "n": 4}, Covers: []string{"many"}}, "given", 0, 1), "norm", 1, 2, 3),
			eachJ(each(Job{Func: "C05Loss", Float: "realx", Params: P{"k": 3, "n": 3}}, "given", 0, 1), "norm", 1, 2, -2),
			eachJ(each(Job{Func: "C05Loss", Float: "realx", Params: P{"k": 2, "n": 2}}, "given", 0, 1), "norm", 0, 4, -10),
			only("t", eachJ(each(Job{Func: "C05Loss", Float: "realx", Params: P{"k": 3, "n": 5}, Covers: []string{"many"}}, "given", 0, 1), "norm", 1, 2)),
			eachJ(each(Job{Func: "C05Wide", Float: "realx", Params: P{"k": 5, "sym": 5}, Covers: []string{"done"}}, "n", 20, 140), "norm", 1, 2),
			eachJ(each(Job{Func: "C05Wide", Float: "realx", Params: P{"k": 17, "sym": 3}, Covers: []string{"done"}}, "n", 1, 50), "norm", 1, 2),
		),
	},
	"C06": {
		Bounds: "5 operations (pushes at rest and during a run, applications of staged elements, reads; thorough 6) after 0..4 initial elements, sizes -1..3; bursts of 1..40 pushes on buffers of 0..120 initial elements, sizes 0..100",
		Jobs: jobs(
			Job{Func: "C06Buffer", Params: P{"ops": 5, "size": 3, "init": 4}, Tier: "q", Covers: []string{"stored", "staged", "applied many", "wrapped"}},
			Job{Func: "C06Buffer", Params: P{"ops": 6, "size": 4, "init": 4}, Tier: "t", Covers: []string{"stored", "staged", "applied many", "wrapped"}},
			Job{Func: "C06Wide", Params: P{"rounds": 3}, Covers: []string{"done"}},
		),
	},
	"C07": {
		Bounds: "dimensions 1..3, coordinates in [-1000,1000], weights 1..10^6, and 2^31 and 2^62 more; exact real arithmetic (results compared up to 1e-9 relative); sign, NaN-freeness and self-distance with every rounding; up to dimension 17 with one arbitrary coordinate in each vector, anywhere",
		Jobs: jobs(
			each(Job{Func: "C07Dist", Float: "realx", Covers: []string{"equal", "different"}}, "dim", 1, 2, 3),
			each(Job{Func: "C07Exact", Float: "real", Params: P{"sym": 0}, Covers: []string{"done"}}, "dim", 1, 2, 3),
			eachJ(each(Job{Func: "C07Combine", Float: "realx", Params: P{"cosinus": 0}, Covers: []string{"done"}}, "dim", 1, 2), "shift", 0, 31, 62),
			each(Job{Func: "C07Copy", Params: P{"cosinus": 0}, Float: "realx", Covers: []string{"done"}}, "dim", 0, 1, 3),
			each(Job{Func: "C07Wide", Float: "realx", Params: P{"cosinus": 0}, Covers: []string{"done"}}, "dim", 4, 5, 7, 8, 11, 17),
		),
	},
	"C08": {
		Bounds: "dimensions 1..2 (3 where stated), coordinates in [-1000,1000], length >= 1/16; up to dimension 12 with one arbitrary coordinate in each vector, anywhere",
		Jobs: jobs(
			each(Job{Func: "C08Dist", Float: "real", Covers: []string{"done"}}, "dim", 1, 2),
			only("t", each(Job{Func: "C08Dist", Float: "real", Covers: []string{"done"}}, "dim", 3)),
			each(Job{Func: "C08Formula", Float: "realx", Covers: []string{"done"}}, "dim", 1, 2),
			only("t", each(Job{Func: "C08Formula", Float: "realx", Covers: []string{"done"}}, "dim", 3)),
			eachJ(each(Job{Func: "C08Cases", Float: "realx", Params: P{"num": 0}, Covers: []string{"done"}}, "dim", 1, 2), "case", 0, 1),
			Job{Func: "C08Cases", Float: "realx", Params: P{"num": 0, "dim": 1, "case": 3}, Covers: []string{"done"}},
			each(Job{Func: "C08Cases", Float: "realx", Params: P{"case": 2, "num": 0}, Covers: []string{"done"}}, "dim", 2, 3),
			Job{Func: "C08Grid", Float: "real", Params: P{"m": 3}},
			eachJ(each(Job{Func: "C07Combine", Float: "realx", Params: P{"cosinus": 1}, Covers: []string{"done"}}, "dim", 1, 2), "shift", 0, 62),
			each(Job{Func: "C07Copy", Params: P{"cosinus": 1}, Float: "realx", Covers: []string{"done"}}, "dim", 1, 3),
			each(Job{Func: "C07Wide", Float: "realx", Params: P{"cosinus": 1}, QueryMs: 2000, Covers: []string{"done"}}, "dim", 5, 7, 12),
		),
	},
	"C09": {
		Bounds: "series of 1..4 points (all pairs up to 3x3, 4x1..4x4), windows 0..2, any non-negative point distances; series of up to 24 points with fixed distances but for at most an arbitrary one, windows up to 9",
		Jobs: jobs(
			c09jobs("C09DTW", 3, false),
			wideSeries("C09Wide", 12),
		),
	},
	"C10": {
		Bounds:  "resizing 2..5 points to 2..6 and 7..33 points to 2..40, any values in [-100,100]; shrinking 1..5 and 1..4 points with windows 0..2; averages of 1..3 points with any values in [-100,100] and weights 1..5, and of 1..21 points aligned by fixed coordinates with any others, weights up to 1000, windows 0..4; exact real arithmetic, compared up to 1e-6",
		Outside: "other sizes and weights; rounding",
		Jobs: jobs(
			eachJ(eachJ(each(Job{Func: "C10Resize", Float: "realx", Covers: []string{"done"}}, "n", 2, 3, 4, 5), "size", 2, 3, 4, 5, 6), "dim", 1),
			Job{Func: "C10Resize", Float: "realx", Params: P{"n": 3, "size": 4, "dim": 2}},
			eachJ(eachJ(each(Job{Func: "C10Shrink", Float: "realx", Covers: []string{"done"}}, "n1", 1, 2, 3, 5), "n2", 1, 2, 4), "w", 0, 1, 2),
			eachJ(each(Job{Func: "C10Average", Float: "realx", Params: P{"w": 0, "equal": 0, "w1": 1, "w2": 1}, Covers: []string{"done"}}, "n1", 1, 2, 3), "n2", 1, 2, 3),
			eachJ(each(Job{Func: "C10Average", Float: "realx", Params: P{"w": 0, "equal": 0, "n1": 2, "n2": 3}, Covers: []string{"done"}}, "w1", 1, 2, 3), "w2", 1, 2, 5),
			eachJ(each(Job{Func: "C10Average", Float: "realx", Params: P{"equal": 1, "n2": 0, "w1": 2, "w2": 3}, Covers: []string{"done"}}, "n1", 1, 2, 3), "w", 0, 1),
			each(Job{Func: "C10Copy", Float: "realx", Params: P{"dim": 2}}, "n", 0, 1, 3),
			eachJ(each(Job{Func: "C10Resize", Float: "realx", Params: P{"dim": 1}, Covers: []string{"done"}}, "n", 7, 17, 33), "size", 2, 8, 17, 40),
			each(Job{Func: "C10Wide", Float: "realx", Params: P{"n1": 9, "n2": 9, "w1": 1, "w2": 1}, Covers: []string{"done"}}, "w", 0, 2),
			each(Job{Func: "C10Wide", Float: "realx", Params: P{"n1": 5, "n2": 11, "w": 0, "w2": 2}, Covers: []string{"done", "between"}}, "w1", 1, 4),
			each(Job{Func: "C10Wide", Float: "realx", Params: P{"n1": 12, "n2": 5, "w": 3, "w2": 2}, Covers: []string{"done"}}, "w1", 1, 2),
			eachJ(each(Job{Func: "C10Wide", Float: "realx", Params: P{"n1": 6, "n2": 6, "w": 0}, Covers: []string{"done"}}, "w1", 3, 9, 500), "w2", 1, 2),
			eachJ(each(Job{Func: "C10Wide", Float: "realx", Params: P{"n1": 4, "n2": 21, "w1": 3}, Covers: []string{"done"}}, "w", 0, 1, 4), "w2", 1, 7, 1000),
			eachJ(each(Job{Func: "C10Wide", Float: "realx", Params: P{"n1": 18, "n2": 20, "w1": 5}, Covers: []string{"done"}}, "w", 0, 1, 4), "w2", 1, 5, 99),
			eachJ(each(Job{Func: "C10Wide", Float: "realx", Params: P{"n1": 1, "w": 0, "w1": 2}, Covers: []string{"done"}}, "n2", 1, 2, 9), "w2", 1, 2),
		),
	},
	"C11": {
		Bounds:  "0..3 elements (kmeans++ steps: 4) with any symmetric distances in [0,1000], any k from -2 to two more than the elements, any draws (up to 6 for the random initializer); 20 elements, every k from 1 to 20, fixed draws and fixed distances but for 3 arbitrary ones",
		Outside: "other sizes; asymmetric distances",
		Jobs: jobs(
			each(Job{Func: "C11Given", Covers: []string{"ok", "error"}}, "n", 1, 3),
			each(Job{Func: "C11Given", Covers: []string{"error"}}, "n", 0),
			each(Job{Func: "C11Rand", Params: P{"maxdraws": 6}, Covers: []string{"ok", "error"}}, "n", 1, 2, 3),
			each(Job{Func: "C11Rand", Params: P{"maxdraws": 6}, Covers: []string{"error"}}, "n", 0),
			each(Job{Func: "C11PP", Covers: []string{"ok", "error"}}, "n", 1, 2, 3),
			eachJ(each(Job{Func: "C11PPIter", Covers: []string{"ok"}}, "n", 3, 4), "m", 1, 2),
			each(Job{Func: "C11PPIter", Params: P{"n": 0}}, "m", 1),
			Job{Func: "C11ByName", Covers: []string{"done"}},
			eachJ(each(Job{Func: "C11Wide", Float: "realx", Params: P{"sym": 3}, Covers: []string{"done"}}, "kind", 0, 1, 2), "n", 20),
		),
	},
	"C12": {
		Bounds:  "0..4 weights, any in [0,1000], any draw, exactly and with every rounding; 40 fixed weights but for 2 arbitrary ones",
		Outside: "other numbers of weights, sums that overflow",
		Jobs: jobs(
			each(Job{Func: "C12Choice", Float: "realx", Covers: []string{"ok", "null"}}, "n", 1, 2, 3, 4),
			each(Job{Func: "C12Choice", Float: "real", Covers: []string{"ok", "null"}}, "n", 1, 2, 3, 4),
			each(Job{Func: "C12Choice", Float: "real", Covers: []string{"null"}}, "n", 0),
			Job{Func: "C12Wide", Float: "realx", Params: P{"n": 40, "sym": 2}, Covers: []string{"done"}},
		),
	},
}

// c09jobs are all pairs of lengths and windows that leave the ends reachable.
func c09jobs(f string, max int, t bool) []Job {
	var out []Job
	add := func(f string, l1, l2, w int, tier string, cov ...string) {
		if w > 0 && (l1-l2 > w || l2-l1 > w) {
			return
		}
		out = append(out, Job{Func: f, Params: P{"l1": l1, "l2": l2, "w": w}, Float: "realx", Tier: tier, Covers: cov})
	}
	for l1 := 1; l1 <= 4; l1++ {
		for l2 := 1; l2 <= 4; l2++ {
			for w := 0; w <= 2; w++ {
				tier := "qt"
				if l1*l2 > 9 {
					tier = "t"
				}
				add("C09DTW", l1, l2, w, tier, "done")
				if l1 <= 3 && l2 <= 3 {
					add("C09Symmetric", l1, l2, w, tier, "done")
					add("C09Outside", l1, l2, w, tier)
				}
			}
		}
	}
	for l := 1; l <= 3; l++ {
		for w := 0; w <= 2; w++ {
			add("C09Self", l, l, w, "qt", "done")
		}
	}
	return out
}

// wideSeries are longer series.
func wideSeries(f string, n int) []Job {
	var out []Job
	for _, l := range [][4]int{{n, n, 1, 1}, {n, n - 1, 3, 0}, {5, n, 0, 0}, {2 * n, 2*n - 3, 5, 0}, {3, n, 0, 1}, {n, 5, 9, 1}, {n - 2, n, 2, 0}, {2 * n, 2 * n, 0, 0}} {
		out = append(out, Job{Func: f, Params: P{"l1": l[0], "l2": l[1], "w": l[2], "sym": l[3]}, Float: "realx", Covers: []string{"done"}})
	}
	return out
}
