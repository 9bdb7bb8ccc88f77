#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                  "observe_at": observe or [], "hook_needed": hook}})

prop("C01", "Elements go to the first nearest centroid",
 "For any non-empty list of centroids, any element and any space whose distances are numbers, assigning, predicting or label-mapping the element yields the lowest index among the centroids at minimal distance, together with that centroid and exactly that distance. With no centroid at all the answer is: no centroid, index -1.",
 ["inputs"], "every centroid count, element count and every assignment of (non-NaN, also negative, zero, infinite) distances",
 "the tests assign eight fixed vectors to three well separated centroids; ties, zero, negative-by-rounding and infinite distances and the order of centroids are not exercised",
 ["core/clustering.go", "core/ctrl.go"], [("nearest", "core/clustering.go"), ("Predict", "core/ctrl.go")], ["Clust.Assign", "Clust.MapLabel", "Algo.Predict"])

prop("C02", "Parallel partitioning covers every item exactly once",
 "Running a process over n items with degree d >= 1 calls it exactly once for each rank 0..d-1 with consecutive slices [start,end) that are disjoint, stay inside 0..n and together cover every item exactly once, differing in length by at most one. It returns only after every call has returned.",
 ["inputs", "schedules"], "all sizes n >= 0 (up to the integer range), all degrees including d > n, all goroutine schedules",
 "one test checks a single size and degree on one processor",
 ["core/util.go"], [("Par", "core/util.go")], ["core.Par"])

prop("C03", "Parallel reductions agree with sequential ones",
 "For every degree of parallelism the parallel forms of label mapping, loss and barycenter reduction (with or without given labels) report the same labels, distances, cardinalities and losses as the sequential form, and each cluster's barycenter is the weighted combination of exactly the elements of that cluster. Clusters that receive no element keep the previous centroid where the sequential form reports none, and the workers never touch each other's results.",
 ["inputs", "schedules"], "all data sizes, centroid counts and degrees, all distances, all worker schedules",
 "the tests compare one data set with one degree, on a single processor",
 ["core/par_assign.go", "core/par_loss.go", "core/par_dba.go", "core/util.go"],
 [("parMapLabel", "core/par_assign.go"), ("lossAggregate", "core/par_loss.go"), ("dbaCombine/buildResult", "core/par_dba.go")],
 ["ParMapLabel", "ParReduceLoss", "ParReduceLossForLabels", "ParReduceDBA", "ParReduceDBAForLabels", "ParTotalLoss"])

prop("C04", "Cluster reduction averages exactly the members",
 "Reducing elements over centroids counts each element once, in its nearest (or given) cluster; each cluster's barycenter combines exactly its members, each with its own weight and with the running weight equal to the number (or total weight) of members combined so far, starting from a copy. Input elements, labels and centroids are never modified, and averaging an empty list is an error.",
 ["inputs"], "all numbers of elements and centroids, all labels, weights and distances",
 "tests use a few fixed vectors whose means are compared approximately, which hides a wrong running weight for later members and aliasing",
 ["core/clustering.go"], [("ReduceDBA", "core/clustering.go"), ("ReduceDBAForLabels", "core/clustering.go"), ("DBA/WeightedDBA", "core/clustering.go")],
 ["ReduceDBA", "ReduceDBAForLabels", "DBA", "WeightedDBA"])

prop("C05", "Loss is the per-cluster sum of distance powers",
 "For each cluster the reported loss is the sum, over exactly the elements nearest to it (or labelled with it), of their distance to that centroid raised to the given norm, and the cardinality is the number of those elements. The total loss is the sum over the clusters.",
 ["inputs"], "all elements, centroids, labels, norms 1 and 2",
 "tests check one data set and norm",
 ["core/clustering.go", "core/par_loss.go"], [("ReduceLoss", "core/clustering.go"), ("ReduceLossForLabels", "core/clustering.go"), ("TotalLoss", "core/clustering.go")],
 ["ReduceLoss", "ReduceLossForLabels", "TotalLoss", "ParTotalLoss"])

prop("C06", "The data buffer keeps exactly the configured window",
 "A buffer of size s > 0 always holds exactly the last min(s, pushed) elements ever given to it, and an unbounded one (s <= 0) holds all of them in arrival order, whether they came at construction, directly, or staged. Elements pushed while the algorithm runs become visible only when staged data is applied (or when a later element is stored directly), and then all of them, in arrival order; the caller's own slice is never written.",
 ["inputs", "histories"], "all initial data, sizes, and interleavings of direct pushes, staged pushes and applies",
 "tests push one long run of one kind; mixtures of staged and direct pushes around the wrap-around point and sizes equal to the initial data are not reached",
 ["core/buffer.go"], [("fixedSizeStrategy.push", "core/buffer.go"), ("applyNext", "core/buffer.go"), ("NewDataBuffer", "core/buffer.go")],
 ["Buffer.Data after each operation"])

prop("C07", "Euclidean space is a metric with a true weighted mean",
 "Euclidean distance is never negative, is zero between equal vectors and (underflow aside) only between equal vectors, is the same in both directions, and equals the root of the summed squared coordinate differences up to rounding. Combining two vectors yields coordinate-wise their weighted mean (up to rounding, hence between them), independent of argument order, as a fresh vector; copies are equal and independent, and inputs are never modified.",
 ["inputs"], "all vectors of equal dimension on a dyadic grid, all positive weights",
 "tests check four fixed pairs",
 ["euclid/vectors.go"], [("PointDist", "euclid/vectors.go"), ("PointCombine", "euclid/vectors.go"), ("PointCopy", "euclid/vectors.go")],
 ["Space.Dist", "Space.Combine", "Space.Copy", "Space.Dim"])

prop("C08", "Cosine distance ranks by angle and is never negative",
 "For non-zero vectors the cosine distance is one minus the cosine of their angle up to rounding: never negative, at most 2, (numerically) zero for a vector against itself or a positive multiple of itself, one for orthogonal vectors, two for opposite ones, and unchanged when the arguments are swapped or rescaled. Combination and copy behave as in the underlying vector space.",
 ["inputs"], "all pairs of non-zero vectors on a grid, all positive scalings",
 "tests check a handful of fixed pairs",
 ["cosinus/cosinus.go"], [("Cosinus", "cosinus/cosinus.go"), ("PointDist", "cosinus/cosinus.go")],
 ["Space.Dist", "Space.Combine"])

prop("C09", "DTW distance is the cheapest admissible warping",
 "The DTW distance of two non-empty series equals the smallest total point distance over all monotone alignments that start at both beginnings, end at both ends, advance by at most one in each series per step and stay inside the window (window zero: unconstrained; otherwise the lengths differ by at most the window); it is unchanged when the series are swapped and zero for a series against itself. The reported path is such an alignment, runs from the ends to the beginnings, and its cost is the reported distance; accumulated costs outside the window are infinite.",
 ["inputs"], "all series lengths, windows wide enough to admit an alignment, and all point distances",
 "the tests compute two fixed matrices with windows 0 and 1",
 ["dtw/cost.go", "dtw/dtw.go", "dtw/series.go"], [("computeCumCost", "dtw/cost.go"), ("computePath", "dtw/cost.go"), ("ravel", "dtw/cost.go")],
 ["NewDTWWindow(...).Dist/Path", "CumCostMatrix.Get", "Space.Dist"])

prop("C10", "Series resampling and averaging preserve shape",
 "Resizing a series of two or more points to a size of two or more gives exactly that many points, keeps the first and last point, places every point by linear interpolation between the right neighbours, and is the identity when the size is unchanged. The weighted average of two series starts at the weighted mean of their starts, ends at the weighted mean of their ends whenever the weighted mean of their lengths is a whole number (equal lengths for instance), has between the shorter and the longer length, places every point on the line between the weighted means of the consecutive aligned pairs around it, equals the series when both are equal, and no input is modified; shrinking the longer series never leaves more than the shorter length plus the window.",
 ["inputs"], "all lengths, sizes, weights, windows and point values in bounds",
 "tests resize two fixed series and average one pair with weights 1 and 2",
 ["dtw/interpolate.go", "dtw/dtw.go", "dtw/series.go"], [("Interpolate", "dtw/interpolate.go"), ("Resize/ShrinkLongest", "dtw/interpolate.go"), ("DBA", "dtw/dtw.go")],
 ["dtw.Resize", "dtw.ShrinkLongest", "Space.Combine", "dtw.Interpolate"])

prop("C11", "Initializers pick k legitimate starting centers",
 "Each initializer returns exactly k centers and no error when 1 <= k <= number of elements (kmeans++ also needs enough distinct elements), otherwise an error and never a crash. The given initializer takes the first k elements in order, the random one k different positions, and kmeans++ only elements at positive distance from the centers already drawn; the centers equal data elements and the data is never modified.",
 ["inputs"], "every k (also zero and negative), every data set size, every distance and every outcome of the random generator",
 "tests draw with one time-based seed from fourteen distinct points",
 ["kmeans/init.go"], [("check", "kmeans/init.go"), ("PPIter", "kmeans/init.go"), ("RandInitializer", "kmeans/init.go"), ("GivenInitializer", "kmeans/init.go")],
 ["kmeans.GivenInitializer", "kmeans.PPInitializer", "kmeans.RandInitializer", "kmeans.PPIter"])

prop("C12", "Weighted draws return an index of positive weight",
 "For non-negative finite weights that are not all zero, a weighted draw always returns, for every value of the random generator, a valid index whose weight is positive, chosen by where the drawn fraction of the total falls in the cumulative weights. If all weights are zero (or there are none) it reports the empty-set error and does not crash.",
 ["inputs"], "all weight vectors in bounds (IEEE double semantics) and all generator outputs in [0,1) including 0",
 "the test draws 100000 times from one weight vector; the failing draws (fraction exactly 0, rounding left-overs) have probability around 1e-16",
 ["kmeans/init.go"], [("WeightedChoice", "kmeans/init.go")], ["kmeans.WeightedChoice"])

prop("C13", "One k-means iteration is one Lloyd step",
 "One k-means iteration, sequential or parallel, keeps the number of clusters, replaces each centroid by the barycenter of the buffered elements nearest to it, keeps centroids without elements, never increases the total squared loss in euclidean space (beyond rounding), and leaves the previous centroids and the data untouched. Data pushed meanwhile is used from the following iteration on.",
 ["inputs", "histories"], "all data, centroids, degrees and interleavings of pushes with iterations",
 "tests run to convergence on eight fixed vectors and compare the final centroids approximately",
 ["kmeans/seq.go", "kmeans/par.go", "kmeans/impl.go"], [("SeqStrategy.Iterate", "kmeans/seq.go"), ("ParStrategy.Iterate", "kmeans/par.go"), ("Impl.Iterate", "kmeans/impl.go")],
 ["Impl.Iterate", "Impl.Init", "Impl.Push"])

prop("C14", "MCMC steps respect the cluster bounds and the acceptance rule",
 "In every MCMC iteration the proposed number of clusters is the current one moved by the drawn step (-1, 0 or +1, of positive weight in ProbaK), limited to 1, the configured maximum and the amount of data (and unchanged if no such centers can be derived), and the published centroids always number exactly the current count. A proposal is accepted exactly when the uniform draw is below exp of (lambda times the loss decrease plus the dimension penalty plus the density difference); on rejection the published centroids, loss and count are unchanged and on acceptance they are the proposal's, the acceptance counter counting exactly the acceptances.",
 ["inputs", "histories"], "all losses, densities, random outcomes, configurations and sequences of iterations in bounds",
 "tests run thousands of random iterations and check only that the final count is plausible",
 ["mcmc/impl.go", "mcmc/seq.go", "mcmc/par.go"], [("nextK", "mcmc/impl.go"), ("accept", "mcmc/impl.go"), ("doIter", "mcmc/impl.go")],
 ["Impl.Init", "Impl.Iterate", "runtime figures"])

prop("C15", "Proposal centers are derived from neighbours without side effects",
 "Asking for k centers returns those last stored for k if there are any; otherwise, from k-1 centers, copies of all of them plus a copy of one data element at positive distance from all (an error if there is none), from k+1 centers, copies of all but one in unchanged order, and from k centers those. Neither the previous centers, the stored ones nor the data are modified, and only storing changes what is stored.",
 ["inputs", "histories"], "all k, center lists, random outcomes and sequences of get/set",
 "one test walks a single fixed sequence",
 ["mcmc/store.go"], [("genCenters", "mcmc/store.go"), ("delCenter/addCenter", "mcmc/store.go")], ["CenterStore.GetCenters", "CenterStore.SetCenters"])

prop("C16", "Streaming conserves mass and creates clusters by the rule",
 "The streaming algorithm consumes pushed elements in arrival order, one per iteration; each consumed element either becomes a new center of weight one or is merged into its nearest center with that center's full weight against one, so the weights always sum to the number of consumed elements. A new center appears exactly when the relative distance exceeds the outlier ratio (once enough elements were seen) or the drawn threshold; the maximal distance starts with the first positive distance, is the largest distance of the elements consumed other than outliers, and so never decreases and is not changed by later outliers; a push fails exactly when the buffer is full, losing nothing that was accepted.",
 ["inputs", "histories"], "all element sequences, distances, threshold draws and buffer sizes in bounds",
 "tests check loose bounds on the number of clusters of random data",
 ["streaming/impl.go"], [("Process", "streaming/impl.go"), ("UpdateCenter/AddCenter/AddOutlier", "streaming/impl.go"), ("GetRelativeDistance", "streaming/impl.go")],
 ["Impl.Iterate", "Impl.Push", "GetClusters", "GetMaxDistance"])

prop("C17", "Controller commands follow the documented life cycle",
 "For every sequence of Init, Play, Pause, Stop, Wait, Push and Batch issued by one client, at every moment of the running algorithm, each command either takes effect and leaves the algorithm in the documented status (Ready after Init, Running or already finished after Play, Idle after Pause, Finished after Stop) or returns the documented error and changes nothing: Init only from Created or Finished, Play not while Running, Pause only while Running, Stop only while Ready, Running or Idle. While Idle or after Finished no iteration is executed.",
 ["histories", "schedules"], "all command sequences in bounds and all interleavings of the client with the running algorithm",
 "tests run a few fixed scenarios; several of them are flaky or deadlock depending on the scheduler",
 ["core/ctrl.go", "core/algo.go", "core/status.go"], [("Play/Pause/Stop/Init", "core/ctrl.go"), ("run/recover", "core/ctrl.go"), ("sendStatus/receiveStatus", "core/algo.go")],
 ["return values", "Algo.Status"], [("status", "current life-cycle status", "core/algo.go")])

prop("C18", "Every controller call returns",
 "Whatever the schedule, every call of Init, Play, Pause, Stop, Wait (with a bound), Push, Predict, Batch and every reader returns, also when the call races with the algorithm finishing by itself, failing or timing out, with other goroutines pushing, reading or stopping concurrently, or after a failed start.",
 ["schedules", "histories"], "all interleavings of a controlling client, one more client (pushing, reading or stopping), the run goroutine, the timer and the notifier",
 "deadlocks need a particular interleaving; the existing tests run on one processor in one order",
 ["core/ctrl.go", "core/algo.go", "core/timeout.go"], [("statusMutex/modelMutex order", "core/ctrl.go"), ("statusChannel/ackChannel handshake", "core/algo.go")],
 ["return of each call"])

prop("C19", "The iteration budget is respected exactly",
 "A run started with an iteration budget executes iterations until, and never beyond, the point where the number of iterations reaches Iter plus IterPerData times the number of pushed data, or the configured finishing condition holds, and then becomes Ready without error; with no budget and no finishing condition it does not end by itself. The iterations figure counts exactly the iterations that produced a result, and And/Or/status/iteration conditions combine as their names say.",
 ["inputs", "histories", "schedules"], "all budgets, finishing conditions, results of iterations (also empty ones) in bounds",
 "tests use one or two budgets and poll the result",
 ["core/ctrl.go", "core/finish.go"], [("run loop", "core/ctrl.go"), ("IterFinishing", "core/finish.go"), ("saveIterContext", "core/ctrl.go")],
 ["RuntimeFigures", "number of Iterate calls", "status"])

prop("C20", "Failures are contained and reported",
 "If initialization fails, Play, Init and Batch return that very error (the panic as an error if it panics) and the algorithm is Finished with it; if an iteration returns an error or panics, the algorithm becomes Finished with that error, the last good centroids stay published, and Batch, and a Wait that was waiting, report it (a Wait on an algorithm that is already finished returns nil). After any failure the algorithm stays usable: every method still returns and it can be started again.",
 ["fault_sequences", "schedules"], "a failure at any initialization or iteration, by error or panic, in combination with any following command",
 "tests inject one error at the first step and never use the algorithm afterwards",
 ["core/ctrl.go", "core/timeout.go"], [("init error path", "core/ctrl.go"), ("recover", "core/ctrl.go"), ("run error path", "core/ctrl.go")],
 ["returned errors", "Status().Error", "Centroids"])

prop("C21", "Pushed data is accounted for and never lost",
 "Every accepted push, at any moment of the life cycle and from any goroutine, increases the pushed-data figure by one and its element takes part in a later iteration or initialization exactly once, in per-goroutine order; a rejected push changes nothing. With a data threshold configured, pushing to a Ready algorithm restarts it when at least that many pushes were accepted since the previous such restart, and otherwise does not start it.",
 ["histories", "schedules"], "all interleavings of pushes with the run, pause, finish and restart of the algorithm",
 "tests push from the controlling goroutine at quiet moments",
 ["core/ctrl.go", "core/buffer.go", "kmeans/impl.go"], [("Push", "core/ctrl.go"), ("DataBuffer.Push/Apply", "core/buffer.go")],
 ["RuntimeFigures", "data seen by iterations"])

prop("C22", "Published results are stable snapshots",
 "Centroids and runtime figures obtained from an algorithm are never modified afterwards by further iterations, pushes or commands, and they belong to one consistent iteration. Reading them, predicting and pushing from other goroutines while the algorithm runs is free of data races.",
 ["schedules", "histories"], "all interleavings of readers and pushers with the run goroutine; all sequences of iterations after the snapshot",
 "tests read results at the end only and are not run with the race detector",
 ["core/ctrl.go", "core/model.go", "streaming/impl.go", "kmeans/impl.go", "mcmc/impl.go"],
 [("modelMutex", "core/model.go"), ("saveIterContext", "core/ctrl.go"), ("Impl.Iterate results", "streaming/impl.go")],
 ["Algo.Centroids", "Algo.RuntimeFigures", "Algo.Predict"])

prop("C23", "The notifier sees every status change in order",
 "The configured status notifier is called exactly once for every status change (Initializing, Ready, Running, Idle, Finished), with that status and error, in the order in which the changes happen, without delaying a change by more than the calls themselves.",
 ["histories", "schedules"], "all command sequences and interleavings in bounds",
 "one test observes one fixed sequence (and is flaky)",
 ["core/algo.go"], [("setStatus", "core/algo.go"), ("notificationLoop", "core/algo.go")], ["calls of StatusNotifier"])

prop("C24", "Invalid configurations are rejected, valid ones completed",
 "Building an algorithm fails (panics with the error) exactly when its configuration is invalid: a negative iteration count, iteration rate, timeout, data threshold or per-data budget; fewer than one initial cluster; more initial clusters than the maximum; an outlier delay below two; initial data exceeding the streaming buffer. Otherwise every value left unset receives its documented default and every value that was set is kept.",
 ["inputs", "configurations"], "all integer and float configuration values",
 "tests check two or three values per parameter",
 ["core/conf.go", "kmeans/conf.go", "mcmc/conf.go", "streaming/conf.go", "core/algo.go"], [("Verify", "core/conf.go"), ("PrepareConf", "core/conf.go"), ("SetDefaultValues", "mcmc/conf.go")],
 ["core.PrepareConf", "core.NewAlgo", "kmeans/mcmc/streaming.NewAlgo"])

prop("C25", "Waiting and time-outs honour their bounds",
 "Waiting on a running algorithm returns nil as soon as the condition holds (by default: no longer running), the algorithm's error if it failed, and the time-out error only if the given positive duration has elapsed without the condition holding; waiting is refused with the documented error when the algorithm is idle, not started, or could never finish. A run with a configured time-out that has not finished in time is stopped with the time-out error (also when it is found over time at its end), never earlier, and a time-out armed for a previous run does not affect a later one.",
 ["inputs", "schedules"], "all durations, iteration times and finishing moments in bounds (virtual clock)",
 "tests use real sleeps of fixed lengths",
 ["core/timeout.go", "core/ctrl.go"], [("WaitTimeout", "core/timeout.go"), ("InterruptionTimeout", "core/timeout.go"), ("CanNeverFinish/Wait", "core/ctrl.go")],
 ["Algo.Wait", "core.WaitTimeout", "Status().Error"])

prop("C26", "A copy is independent and carries the data",
 "Copying an algorithm yields a new, not yet started algorithm with the given configuration and space that holds the data visible in the buffer of the original, a window keeping its last elements (for streaming, its current centers); afterwards pushing to or running either of them has no effect on the data, centroids, figures or status of the other.",
 ["inputs", "histories"], "all data and all sequences of operations on the two algorithms in bounds",
 "no test exercises a copy after it was made",
 ["core/ctrl.go", "kmeans/impl.go", "mcmc/impl.go", "streaming/impl.go"], [("Copy", "core/ctrl.go"), ("Impl.Copy", "kmeans/impl.go")], ["Algo.Copy"])

prop("C27", "A late distribution is built exactly once",
 "However many goroutines use a late-bound distribution for the first time concurrently, its builder is called exactly once, with an element given by one of them, and every call is answered by the built distribution; there is no data race.",
 ["schedules"], "all interleavings of concurrent first uses",
 "the test calls it from one goroutine after another",
 ["mcmc/latedistrib.go"], [("initialize/tryInitialize", "mcmc/latedistrib.go")], ["LateDistrib.Sample", "LateDistrib.Pdf"])

prop("C28", "Alteration distributions are centred and symmetric",
 "Sampling around a center returns a fresh vector of the same dimension, displaced from the center by an amount independent of the center, and never modifies the center; the log-density is symmetric in its two points, depends only on their difference and does not increase with their distance. The Dirac alteration returns the center itself with density one.",
 ["inputs"], "all centers, points, times and random outcomes in bounds",
 "tests sample with one seed",
 ["mcmc/multivt.go", "mcmc/dirac.go"], [("Sample", "mcmc/multivt.go"), ("Pdf", "mcmc/multivt.go")], ["MultivT.Sample", "MultivT.Pdf", "Dirac"])

prop("C29", "Iterations are paced and times reported truthfully",
 "With an iteration frequency f, the k-th iteration of a run never begins before (k-1)/f after the beginning of the run, iterations without result included, and no iteration is delayed beyond what the frequency (and pauses) ask for; without a frequency iterations follow one another at once. The reported duration is the time spent in runs: pauses inside a run count once, the time between runs does not, failed runs count, successive runs add up, and a new initialization starts from zero. The reported time of last data is the time (Unix seconds) of the last accepted push, refused data leave it as it was.",
 ["inputs", "schedules", "histories"], "all lengths of iterations, all moments of pauses, readings and pushes, all frequencies",
 "the tests check one frequency with iterations that take no time, and that the duration is positive",
 ["core/ctrl.go", "core/algo.go", "core/conf.go"], [("run/updateRuntimeFigures", "core/ctrl.go"), ("Push", "core/algo.go"), ("Freq", "core/ctrl.go")], ["OCImpl.Iterate", "Algo.RuntimeFigures"])

prop("C30", "Implementations and readers see the current model",
 "Every iteration of an implementation is given the algorithm's configuration and space, a running status without error, the centroids published last, and its own copy of the current figures: the iterations made so far, the figures its last iteration returned, and a number of pushed data that never goes back and never exceeds the data pushed. An initialization may ask for all of this too: its status is Initializing, and when it starts a new life its figures bear no trace of the previous one. What an iteration returns with an error, or without centroids, is not published. After a run, centroids, figures and predictions are those of its last iteration. In a run of k-means every published result is thus one Lloyd step from the previous one, on the data received before that step.",
 ["histories", "schedules", "inputs"], "all histories of commands and pushes, all interleavings with the run, all distances (k-means)",
 "the tests check final results of fixed runs",
 ["core/ctrl.go", "core/algo.go", "core/ocmodel.go", "kmeans/impl.go"], [("run/saveIterContext", "core/ctrl.go"), ("modelFromAlgo", "core/algo.go"), ("Iterate", "kmeans/impl.go")], ["OCImpl.Iterate", "OCImpl.Init", "Algo.Centroids", "Algo.RuntimeFigures"])

prop("C31", "Runs with the same draws are the same",
 "Two algorithms (k-means, MCMC, sequential or parallel, streaming) built with equal configurations, data, initializers and alterations and with generators that give the same numbers go through the same centroids and figures (dates and durations aside; parallel sums up to rounding). Nothing else has an influence: not earlier runs in the same process, not the order in which maps are iterated or parallel workers progress, not a generator that is not the configured one.",
 ["inputs", "histories", "schedules"], "all draws in bounds, earlier runs of the same kind, opposite map orders and worker orders",
 "tests compare one seeded run with constants at most",
 ["kmeans/init.go", "mcmc/impl.go", "mcmc/store.go", "mcmc/multivt.go", "streaming/impl.go", "core/clust.go"], [("PPInitializer/RandInitializer/WeightedChoice", "kmeans/init.go"), ("MultivT", "mcmc/multivt.go"), ("CenterStore", "mcmc/store.go"), ("Process", "streaming/impl.go")], ["OCImpl.Init", "OCImpl.Iterate"])

prop("C32", "Spaces are pure and can be shared",
 "The answers of the provided spaces (euclidean, cosine, DTW over either) to Dist, Combine, Copy and Dim depend on nothing but the current values of the arguments: not on questions asked before, on elements of other dimensions or lengths, on the identity of the elements, on the space object. Answers belong to the caller: changing them changes no later answer, and no later question changes them. Any number of goroutines can use one space on shared elements at the same time, without data race and with the same answers.",
 ["inputs", "histories", "schedules"], "all values of a coordinate, orders of questions in bounds, all interleavings of two and three goroutines",
 "tests ask each question once, from one goroutine",
 ["euclid/vectors.go", "cosinus/cosinus.go", "dtw/series.go", "dtw/dtw.go", "dtw/cost.go", "dtw/interpolate.go"], [("Dist/Combine/Copy/Dim", "euclid/vectors.go"), ("Dist", "cosinus/cosinus.go"), ("CumCostMatrix", "dtw/cost.go")], ["Space.Dist", "Space.Combine", "Space.Copy", "Space.Dim"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
