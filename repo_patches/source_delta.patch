From cb04aa2d1853e95af55b6337a2a5ca0198b2a454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:23 +0000
Subject: [PATCH 01/22] fix: nearest centroid search mistook a negative
 distance for 'no centroid yet'

A centroid at negative distance (cosinus distances can fall just below zero)
was replaced by any later centroid, whatever its distance.
---
 core/clustering.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/clustering.go b/core/clustering.go
index 368697e..919ccf9 100644
--- a/core/clustering.go
+++ b/core/clustering.go
@@ -143,7 +143,7 @@ func (c *Clust) nearest(elemt Elemt, space Space) (label int, min float64) {
 	label = -1
 
 	for i := 0; i < len(*c); i++ {
-		if d := space.Dist(elemt, (*c)[i]); min < 0 || min > d {
+		if d := space.Dist(elemt, (*c)[i]); label < 0 || min > d {
 			min = d
 			label = i
 		}
-- 
2.43.0


From 5279df5939489fdba99aee929bf266e76bdf5313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:56 +0000
Subject: [PATCH 02/22] fix: cosinus distance could be slightly negative (or
 above 2) by rounding

---
 cosinus/cosinus.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cosinus/cosinus.go b/cosinus/cosinus.go
index ff23d8e..89a9b90 100644
--- a/cosinus/cosinus.go
+++ b/cosinus/cosinus.go
@@ -29,7 +29,8 @@ func (space Space) Dist(elemt1, elemt2 core.Elemt) float64 {
 
 // PointDist return distance of points
 func (space Space) PointDist(point1 []float64, point2 []float64) float64 {
-	return 1 - Cosinus(point1, point2)
+	// rounding may bring the cosinus slightly out of [-1, 1]
+	return math.Max(0, math.Min(2, 1-Cosinus(point1, point2)))
 }
 
 // Combine returns the weighted average of elemt1 and elemt2
-- 
2.43.0


From 2fc38cad340f90963bb4cc1244ab3d9d1df422d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:30 +0000
Subject: [PATCH 03/22] fix: unconstrained DTW was constrained, or panicked,
 when the first series is the longest

---
 dtw/cost.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtw/cost.go b/dtw/cost.go
index 7f59c2f..bde58b3 100644
--- a/dtw/cost.go
+++ b/dtw/cost.go
@@ -51,6 +51,9 @@ func (cumCost *CumCostMatrix) Path() []Ends {
 func (cumCost *CumCostMatrix) setStride(shortest int, longest int) {
 	if cumCost.window == 0 {
 		cumCost.window = longest
+		if shortest > longest {
+			cumCost.window = shortest
+		}
 	}
 	var maxWindow = 2*cumCost.window + 1
 	cumCost.stride0 = shortest
-- 
2.43.0


From a7f3e2a66c68a58314c6916ae017639990ae2def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:30 +0000
Subject: [PATCH 04/22] fix: rand and pp initializers panicked on a negative k,
 returned nil centroids with an error

---
 kmeans/init.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kmeans/init.go b/kmeans/init.go
index 600abe1..0539b45 100644
--- a/kmeans/init.go
+++ b/kmeans/init.go
@@ -49,9 +49,9 @@ func GivenInitializer(k int, elemts []core.Elemt, space core.Space, _ *rand.Rand
 // PPInitializer initializes a clustering algorithm with kmeans++
 func PPInitializer(k int, elemts []core.Elemt, space core.Space, src *rand.Rand) (centroids core.Clust, err error) {
 	err = check(k, elemts)
-	centroids = make(core.Clust, k)
 
 	if err == nil {
+		centroids = make(core.Clust, k)
 		var draw = src.Intn(len(elemts))
 		centroids[0] = elemts[draw]
 
@@ -76,9 +76,9 @@ var ErrNullSet = errors.New("cannot draw over an empty set")
 // RandInitializer initializes a clustering with random testPoints
 func RandInitializer(k int, elemts []core.Elemt, space core.Space, src *rand.Rand) (centroids core.Clust, err error) {
 	err = check(k, elemts)
-	centroids = make(core.Clust, k)
 
 	if err == nil {
+		centroids = make(core.Clust, k)
 		var chosen = make(map[int]int)
 		var i int
 
-- 
2.43.0


From b8eb4bee7201ea200dac3ddc5130905cbd5a78b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:30 +0000
Subject: [PATCH 05/22] fix: weighted choice returned -1 for a null draw, and
 could run past the last weight by rounding

---
 kmeans/init.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/kmeans/init.go b/kmeans/init.go
index 0539b45..46931ed 100644
--- a/kmeans/init.go
+++ b/kmeans/init.go
@@ -111,10 +111,15 @@ func WeightedChoice(weights []float64, rand *rand.Rand) (int, error) {
 	}
 
 	var cursor = rand.Float64() * sum
-	for cursor > 0 {
-		cursor -= weights[idx]
-		idx++
+	for i, x := range weights {
+		if x > 0 {
+			idx = i
+			cursor -= x
+			if cursor <= 0 {
+				break
+			}
+		}
 	}
 
-	return idx - 1, nil
+	return idx, nil
 }
-- 
2.43.0


From 14a06db92b3948b28066b4de22d7d81b9de0d9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:45 +0000
Subject: [PATCH 06/22] fix: Play kept the status locked when the
 initialization fails

---
 core/ctrl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ctrl.go b/core/ctrl.go
index f1889c3..d979c99 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -109,6 +109,7 @@ func (algo *Algo) Play() (err error) {
 	case Created:
 		err = algo.init()
 		if err != nil && err != ErrAlreadyCreated {
+			algo.statusMutex.Unlock()
 			return
 		}
 		err = nil
-- 
2.43.0


From 7f2377e0e8a94d910edc2df3414d6f24a6263b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:45 +0000
Subject: [PATCH 07/22] fix: Batch lost the error of an algorithm that failed
 before it was waited for

---
 core/ctrl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ctrl.go b/core/ctrl.go
index d979c99..1b31acf 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -51,6 +51,7 @@ func (algo *Algo) Batch() (err error) {
 		err = algo.Wait(nil, 0)
 		if err == nil {
 			algo.Stop()
+			err = algo.Status().Error
 		}
 	}
 	return
-- 
2.43.0


From 7b2ea6bc7457f63edbfae0c77eef5026edc36b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:10 +0000
Subject: [PATCH 08/22] fix: clients could block forever, or act twice, when
 the run ends by itself

Each run now has its own channels, closed when it ends, and a client whose
status change was not taken into account looks at the status again.
---
 core/algo.go | 53 +++++++++++++++++++++++--------
 core/ctrl.go | 90 +++++++++++++++++++++++++---------------------------
 2 files changed, 84 insertions(+), 59 deletions(-)

diff --git a/core/algo.go b/core/algo.go
index 214f9a3..32a7e35 100644
--- a/core/algo.go
+++ b/core/algo.go
@@ -6,6 +6,21 @@ import (
 	"time"
 )
 
+// execution holds the channels used to communicate with a run go routine
+type execution struct {
+	status chan OCStatus // status changes asked by clients
+	ack    chan bool     // answers to clients, true if the status has been changed
+	done   chan bool     // closed at the end of the run, once its final status is set
+}
+
+func newExecution() execution {
+	return execution{
+		status: make(chan OCStatus),
+		ack:    make(chan bool),
+		done:   make(chan bool),
+	}
+}
+
 // OnlineClust interface
 // When a prediction is made, the element can be pushed to the model.
 // A prediction consists in a centroid and a label.
@@ -21,8 +36,7 @@ type Algo struct {
 	space          Space
 	centroids      Clust
 	status         OCStatus
-	statusChannel  chan OCStatus
-	ackChannel     chan bool
+	current        execution
 	notifChannel   chan OCStatus
 	runtimeFigures RuntimeFigures
 	newData        int
@@ -49,8 +63,6 @@ func NewAlgo(conf Conf, impl Impl, space Space) (algo *Algo) {
 		impl:           impl,
 		space:          space,
 		status:         OCStatus{Value: Created},
-		statusChannel:  make(chan OCStatus),
-		ackChannel:     make(chan bool),
 		runtimeFigures: RuntimeFigures{},
 	}
 
@@ -69,17 +81,32 @@ func (algo *Algo) setStatus(status OCStatus, safe bool) {
 	algo.notifChannel <- status
 }
 
-// receiveStatus status from main routine
-func (algo *Algo) receiveStatus() {
-	var status = <-algo.statusChannel
-	algo.setStatus(status, true)
-	algo.ackChannel <- true
+// receiveStatus takes into account a status sent by a client.
+// Finished is taken into account by the end of the run.
+func (algo *Algo) receiveStatus(exec execution, status OCStatus) OCStatus {
+	if status.Value != Finished {
+		var changed = status.Value != algo.Status().Value
+		if changed {
+			algo.setStatus(status, true)
+		}
+		exec.ack <- changed
+	}
+	return status
 }
 
-// sendStatus status to run go routine
-func (algo *Algo) sendStatus(status OCStatus) (ok bool) {
-	algo.statusChannel <- status
-	_, ok = <-algo.ackChannel
+// sendStatus status to run go routine. Returns false if the status has not been changed,
+// because the run has ended or because it already has this status.
+func (algo *Algo) sendStatus(exec execution, status OCStatus) (ok bool) {
+	select {
+	case exec.status <- status:
+		if status.Value == Finished {
+			<-exec.done
+			ok = true
+		} else {
+			ok = <-exec.ack
+		}
+	case <-exec.done:
+	}
 	return
 }
 
diff --git a/core/ctrl.go b/core/ctrl.go
index 1b31acf..9b6711e 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -103,8 +103,12 @@ func (algo *Algo) Play() (err error) {
 	algo.statusMutex.Lock()
 	switch algo.status.Value {
 	case Idle:
+		var exec = algo.current
 		algo.statusMutex.Unlock()
-		algo.sendStatus(NewOCStatus(Running))
+		if !algo.sendStatus(exec, NewOCStatus(Running)) {
+			// the status has been changed by another client
+			err = algo.Play()
+		}
 	case Finished:
 		fallthrough
 	case Created:
@@ -116,9 +120,8 @@ func (algo *Algo) Play() (err error) {
 		err = nil
 		fallthrough
 	case Ready:
-		go algo.run()
+		algo.start()
 		algo.statusMutex.Unlock()
-		algo.sendStatus(NewOCStatus(Running))
 		if algo.timeout != nil {
 			algo.timeout.Disable()
 		}
@@ -133,12 +136,20 @@ func (algo *Algo) Play() (err error) {
 	return
 }
 
+// start a new run, statusMutex must be locked
+func (algo *Algo) start() {
+	algo.current = newExecution()
+	algo.setStatus(NewOCStatus(Running), false)
+	go algo.run(algo.current)
+}
+
 // Pause the algorithm and set status to idle
 func (algo *Algo) Pause() (err error) {
 	algo.statusMutex.Lock()
 	if algo.status.Value == Running {
+		var exec = algo.current
 		algo.statusMutex.Unlock()
-		if !algo.sendStatus(NewOCStatus(Idle)) {
+		if !algo.sendStatus(exec, NewOCStatus(Idle)) {
 			err = ErrNotRunning
 		}
 	} else {
@@ -184,9 +195,14 @@ func (algo *Algo) interrupt(interruption error) (err error) {
 	case Idle:
 		fallthrough
 	case Running:
+		var exec = algo.current
 		algo.statusMutex.Unlock()
-		algo.sendStatus(NewOCStatusError(interruption))
-		err = algo.status.Error
+		if algo.sendStatus(exec, NewOCStatusError(interruption)) {
+			err = interruption
+		} else {
+			// the run has ended meanwhile
+			err = algo.interrupt(interruption)
+		}
 	default:
 		algo.statusMutex.Unlock()
 		err = ErrNotAlive
@@ -206,16 +222,13 @@ func (algo *Algo) Predict(elemt Elemt) (pred Elemt, label int, dist float64) {
 	return
 }
 
-func (algo *Algo) recover(start time.Time) {
-	algo.statusMutex.Lock()
-	defer algo.statusMutex.Unlock()
+// recover from a panic if any, then end the run with the given final status
+func (algo *Algo) recover(start time.Time, exec execution, final *OCStatus) {
 	var recovery = recover()
 	if recovery != nil {
 		var err = fmt.Errorf("%v", recovery)
-		algo.setStatus(NewOCStatusError(err), false)
+		*final = NewOCStatusError(err)
 	}
-	// wait a few between client time processing between releasing statusMutex and sendStatus
-	time.Sleep(100 * time.Millisecond)
 	// update algo runtime figures
 	algo.modelMutex.Lock()
 	// algo.newData = int(math.Max(0, float64(algo.newData-newData)))
@@ -223,30 +236,18 @@ func (algo *Algo) recover(start time.Time) {
 	algo.duration += duration
 	algo.runtimeFigures[Duration] = float64(algo.duration)
 	algo.modelMutex.Unlock()
-	// clean up channels
-	select {
-	// get client status if client quiered to stop or timeout interruption
-	case status := <-algo.statusChannel:
-		if recovery == nil {
-			algo.setStatus(status, false)
-		}
-	default:
-	}
-	// free client ack channel
-	select { // close ack channel
-	case <-algo.ackChannel:
-	default:
-		close(algo.ackChannel)
-	}
+	// release waiting clients together with the final status
+	algo.statusMutex.Lock()
+	defer algo.statusMutex.Unlock()
+	algo.setStatus(*final, false)
+	close(exec.done)
 }
 
 // Initialize the algorithm, if success run it synchronously otherwise return an error
-func (algo *Algo) run() {
-	algo.ackChannel = make(chan bool)
-
+func (algo *Algo) run(exec execution) {
 	var err error
 	var conf = algo.conf.Ctrl()
-	var centroids = algo.centroids
+	var centroids Clust
 	var runtimeFigures RuntimeFigures
 	var iterFreq time.Duration
 	if conf.IterFreq > 0 {
@@ -264,24 +265,23 @@ func (algo *Algo) run() {
 		finishing = NewOrFinishing(finishing, conf.Finishing)
 	}
 
-	defer algo.recover(start)
+	var status = NewOCStatus(Running)
 
-	algo.receiveStatus()
+	defer algo.recover(start, exec, &status)
 
-	for err == nil && algo.status.Value == Running && !IsFinished(finishing, algo) {
+	for err == nil && status.Value == Running && !IsFinished(finishing, algo) {
 		select { // check for algo status update
-		case status := <-algo.statusChannel:
-			algo.setStatus(status, true)
-			if status.Value == Idle {
-				algo.ackChannel <- true
-				algo.receiveStatus()
+		case status = <-exec.status:
+			status = algo.receiveStatus(exec, status)
+			for status.Value == Idle {
+				status = algo.receiveStatus(exec, <-exec.status)
 			}
 		default:
 			// run implementation
 			// newData = algo.newData
 			centroids, runtimeFigures, err = algo.impl.Iterate(
 				NewSimpleOCModel(
-					algo.conf, algo.space, algo.status, algo.runtimeFigures, algo.centroids,
+					algo.conf, algo.space, status, algo.RuntimeFigures(), algo.Centroids(),
 				),
 			)
 			duration = time.Now().Sub(start)
@@ -303,12 +303,10 @@ func (algo *Algo) run() {
 			}
 		}
 	}
-	if err == nil {
-		if algo.status.Value == Running {
-			algo.setStatus(NewOCStatus(Ready), true)
-		}
-	} else {
-		algo.setStatus(NewOCStatusError(err), true)
+	if err != nil {
+		status = NewOCStatusError(err)
+	} else if status.Value == Running {
+		status = NewOCStatus(Ready)
 	}
 }
 
-- 
2.43.0


From b69a9aa95113984d8af6f039d16ad0cbe870bea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:44 +0000
Subject: [PATCH 09/22] fix: a time-out could stop a later run, or fire after
 the end of its run

---
 core/ctrl.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 9b6711e..ddfec6b 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -122,13 +122,6 @@ func (algo *Algo) Play() (err error) {
 	case Ready:
 		algo.start()
 		algo.statusMutex.Unlock()
-		if algo.timeout != nil {
-			algo.timeout.Disable()
-		}
-		var interruptionTimeout = algo.Conf().Ctrl().Timeout
-		if interruptionTimeout > 0 {
-			algo.timeout = InterruptionTimeout(interruptionTimeout, algo.interrupt)
-		}
 	case Running:
 		algo.statusMutex.Unlock()
 		err = ErrRunning
@@ -141,6 +134,21 @@ func (algo *Algo) start() {
 	algo.current = newExecution()
 	algo.setStatus(NewOCStatus(Running), false)
 	go algo.run(algo.current)
+	if algo.timeout != nil {
+		algo.timeout.Disable()
+		algo.timeout = nil
+	}
+	var interruptionTimeout = algo.Conf().Ctrl().Timeout
+	if interruptionTimeout > 0 {
+		var exec = algo.current
+		// the time-out is specific to this run
+		algo.timeout = InterruptionTimeout(interruptionTimeout, func(interruption error) (err error) {
+			if !algo.sendStatus(exec, NewOCStatusError(interruption)) {
+				err = ErrNotAlive
+			}
+			return
+		})
+	}
 }
 
 // Pause the algorithm and set status to idle
@@ -307,6 +315,9 @@ func (algo *Algo) run(exec execution) {
 		status = NewOCStatusError(err)
 	} else if status.Value == Running {
 		status = NewOCStatus(Ready)
+		if conf.Timeout > 0 && time.Now().Sub(start) > conf.Timeout {
+			status = NewOCStatusError(ErrTimeout)
+		}
 	}
 }
 
-- 
2.43.0


From 3bbf929490754951773d01c72afaf2b7f8c5c6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:13 +0000
Subject: [PATCH 10/22] fix: Push could deadlock with the end of a run or lose
 the restart of the algorithm

---
 core/ctrl.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index ddfec6b..e31340e 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -22,22 +22,23 @@ type OCCtrl interface {
 func (algo *Algo) Push(elemt Elemt) (err error) {
 	err = algo.impl.Push(elemt, algo)
 	if err == nil {
+		algo.statusMutex.Lock()
+		defer algo.statusMutex.Unlock()
 		algo.modelMutex.Lock()
 		algo.pushedData++
 		algo.lastDataTime = time.Now().Unix()
 		var conf = algo.conf.Ctrl()
-		if algo.Status().Value == Ready && conf.DataPerIter > 0 && conf.DataPerIter <= algo.newData {
+		var play = algo.status.Value == Ready && conf.DataPerIter > 0 && conf.DataPerIter <= algo.newData
+		if play {
 			algo.newData = 0
 		} else {
 			algo.newData++
 		}
 		algo.updateRuntimeFigures()
 		algo.modelMutex.Unlock()
-		// try to play if waiting
-		algo.modelMutex.RLock()
-		defer algo.modelMutex.RUnlock()
-		if algo.newData == 0 {
-			algo.Play()
+		// play if waiting
+		if play {
+			algo.start()
 		}
 	}
 	return
-- 
2.43.0


From 19f639973df179813098f787000eaa113c43d19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:42 +0000
Subject: [PATCH 11/22] fix: the notifier could not use the algorithm, and
 delayed or reordered status changes

---
 core/algo.go | 38 +++++++++++++++++++++++++++-----------
 core/ctrl.go |  2 +-
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/core/algo.go b/core/algo.go
index 32a7e35..48f0763 100644
--- a/core/algo.go
+++ b/core/algo.go
@@ -37,7 +37,9 @@ type Algo struct {
 	centroids      Clust
 	status         OCStatus
 	current        execution
-	notifChannel   chan OCStatus
+	notifChannel   chan bool  // signals new notifications
+	notifs         []OCStatus // status changes not notified yet
+	notifMutex     sync.Mutex // notifications mutex
 	runtimeFigures RuntimeFigures
 	newData        int
 	pushedData     int
@@ -73,12 +75,24 @@ func NewAlgo(conf Conf, impl Impl, space Space) (algo *Algo) {
 func (algo *Algo) setStatus(status OCStatus, safe bool) {
 	if safe {
 		algo.statusMutex.Lock()
-		algo.status = status
-		algo.statusMutex.Unlock()
-	} else {
-		algo.status = status
+		defer algo.statusMutex.Unlock()
+	}
+	algo.status = status
+	if algo.conf.Ctrl().StatusNotifier != nil {
+		algo.enqueue(status)
+	}
+}
+
+// enqueue a status for notification, keeping the order of status changes.
+// It does not wait for the notifier, which may use the algorithm.
+func (algo *Algo) enqueue(status OCStatus) {
+	algo.notifMutex.Lock()
+	algo.notifs = append(algo.notifs, status)
+	algo.notifMutex.Unlock()
+	select {
+	case algo.notifChannel <- true:
+	default:
 	}
-	algo.notifChannel <- status
 }
 
 // receiveStatus takes into account a status sent by a client.
@@ -120,11 +134,13 @@ func (algo *Algo) notify(status OCStatus) {
 }
 
 func (algo *Algo) notificationLoop() {
-	for {
-		var status, ok = <-algo.notifChannel
-		if !ok {
-			return
+	for range algo.notifChannel {
+		algo.notifMutex.Lock()
+		var statuses = algo.notifs
+		algo.notifs = nil
+		algo.notifMutex.Unlock()
+		for _, status := range statuses {
+			algo.notify(status)
 		}
-		algo.notify(status)
 	}
 }
diff --git a/core/ctrl.go b/core/ctrl.go
index e31340e..46ad105 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -79,7 +79,7 @@ func (algo *Algo) init() (err error) {
 		fallthrough
 	case Created:
 		if algo.status.Value == Created {
-			algo.notifChannel = make(chan OCStatus)
+			algo.notifChannel = make(chan bool, 1)
 			go algo.notificationLoop()
 		}
 		algo.setStatus(NewOCStatus(Initializing), false)
-- 
2.43.0


From b9533dc9d7b8a3372b4baa4c90e46986cf5b324e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:42 +0000
Subject: [PATCH 12/22] fix: published runtime figures were modified by pushes
 and iterations

---
 core/model.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/model.go b/core/model.go
index 6a422f0..34120f0 100644
--- a/core/model.go
+++ b/core/model.go
@@ -28,7 +28,11 @@ func (algo *Algo) Space() Space {
 func (algo *Algo) RuntimeFigures() (figures RuntimeFigures) {
 	algo.modelMutex.RLock()
 	defer algo.modelMutex.RUnlock()
-	return algo.runtimeFigures
+	figures = make(RuntimeFigures, len(algo.runtimeFigures))
+	for name, value := range algo.runtimeFigures {
+		figures[name] = value
+	}
+	return
 }
 
 // Conf returns configuration
-- 
2.43.0


From c2010b3d56d4b2c512e428ff61e5f5a2a9b1c107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:43 +0000
Subject: [PATCH 13/22] fix: published streaming centroids were modified by
 further iterations

---
 streaming/impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streaming/impl.go b/streaming/impl.go
index 84b3730..2a78228 100644
--- a/streaming/impl.go
+++ b/streaming/impl.go
@@ -62,7 +62,7 @@ func (impl *Impl) Iterate(model core.OCModel) (clust core.Clust, runtimeFigures
 	select {
 	case elemt := <-impl.c:
 		impl.Process(elemt, model.Space())
-		clust = impl.clust
+		clust = append(core.Clust{}, impl.clust...)
 	default:
 	}
 	runtimeFigures = impl.runtimeFigures()
-- 
2.43.0


From a1c87b27a65343eb0c46bdfc2e2a9b260a085613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:09 +0000
Subject: [PATCH 14/22] fix: a late distribution was read without
 synchronization

---
 mcmc/latedistrib.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/mcmc/latedistrib.go b/mcmc/latedistrib.go
index 488910f..be39282 100644
--- a/mcmc/latedistrib.go
+++ b/mcmc/latedistrib.go
@@ -27,27 +27,20 @@ func NewLateDistrib(initializer DistribBuilder) *LateDistrib {
 
 // Sample initializes the wrapped Distrib if necessary then forward to its Sample method
 func (d *LateDistrib) Sample(mu core.Elemt, time int) core.Elemt {
-	d.initialize(mu)
-	return d.distrib.Sample(mu, time)
+	return d.initialize(mu).Sample(mu, time)
 }
 
 // Pdf initializes the wrapped Distrib if necessary then forward to its Pdf method
 func (d *LateDistrib) Pdf(x, mu core.Elemt, time int) float64 {
-	d.initialize(mu)
-	return d.distrib.Pdf(x, mu, time)
+	return d.initialize(mu).Pdf(x, mu, time)
 }
 
-func (d *LateDistrib) initialize(elemt core.Elemt) {
-	if !d.initialized {
-		d.tryInitialize(elemt)
-	}
-}
-
-func (d *LateDistrib) tryInitialize(elemt core.Elemt) {
+func (d *LateDistrib) initialize(elemt core.Elemt) Distrib {
 	d.mu.Lock()
 	defer d.mu.Unlock()
 	if !d.initialized {
 		d.distrib = d.initializer(elemt)
 		d.initialized = true
 	}
+	return d.distrib
 }
-- 
2.43.0


From 031268ab92d7895c507677179e3d03466cf6f7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:25 +0000
Subject: [PATCH 15/22] fix: pushes to a data buffer blocked after 2000 staged
 elements and raced with readers

---
 core/buffer.go | 48 +++++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/core/buffer.go b/core/buffer.go
index dce1fbd..b387bd0 100644
--- a/core/buffer.go
+++ b/core/buffer.go
@@ -1,5 +1,7 @@
 package core
 
+import "sync"
+
 // Buffer interface
 type Buffer interface {
 	Push(elemt Elemt, running bool) error
@@ -11,21 +13,19 @@ type Buffer interface {
 // In synchronous mode, when pushed() is called data are stored.
 // In asynchronous mode, when pushed() is called data are staged.
 // Staged data are stored when apply() is called.
+// It can be used concurrently, and data given to a reader are never modified.
 type DataBuffer struct {
-	pipe     chan Elemt
+	mutex    sync.Mutex
+	staged   []Elemt
 	data     []Elemt
+	shared   bool
 	strategy bufferSizeStrategy
 }
 
-// Maximal default pipe size
-const pipeSize = 2000
-
 // NewDataBuffer creates a fixed size buffer if given size > 0.
 // Otherwise creates an infinite size buffer.
 func NewDataBuffer(data []Elemt, size int) Buffer {
-	var db = DataBuffer{
-		pipe: make(chan Elemt, pipeSize),
-	}
+	var db DataBuffer
 
 	switch {
 	case size > len(data):
@@ -52,40 +52,42 @@ func NewDataBuffer(data []Elemt, size int) Buffer {
 
 // Push stores or stages an element depending on synchronous / asynchronous mode.
 func (b *DataBuffer) Push(elmt Elemt, running bool) (err error) {
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
 	if running {
-		b.pipe <- elmt
+		b.staged = append(b.staged, elmt)
 	} else {
-		b.data = b.strategy.push(b.data, elmt)
+		b.store(elmt)
 	}
 	return
 }
 
 // Data returns buffer data
 func (b *DataBuffer) Data() (data []Elemt) {
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+	b.shared = true
 	return b.data
 }
 
 // Apply all staged data in asynchronous mode, otherwise do nothing
 func (b *DataBuffer) Apply() (err error) {
-	for b.applyNext() {
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+	for _, elmt := range b.staged {
+		b.store(elmt)
 	}
+	b.staged = nil
 	return
 }
 
-// Applies next staged data if available and returns true.
-// Otherwise returns false.
-func (b *DataBuffer) applyNext() (ok bool) {
-	var elmt Elemt
-
-	select {
-	case elmt, ok = <-b.pipe:
-		if ok {
-			b.data = b.strategy.push(b.data, elmt)
-		}
-	default:
+// store an element, in a copy of the data if they have been given to a reader
+func (b *DataBuffer) store(elmt Elemt) {
+	if b.shared {
+		b.data = append(make([]Elemt, 0, len(b.data)+1), b.data...)
+		b.shared = false
 	}
-
-	return
+	b.data = b.strategy.push(b.data, elmt)
 }
 
 // Handle the way data are stored, i.e. infinite or fixed size buffer.
-- 
2.43.0


From c9908c50abeaaac3f2b51c9a9ba91da8ee558937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:50 +0000
Subject: [PATCH 16/22] fix: Copy ignored the given configuration and raced
 with the running original

---
 core/ctrl.go      | 4 +++-
 streaming/impl.go | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 46ad105..df12720 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -384,7 +384,9 @@ func (algo *Algo) SetSpace(space Space) (err error) {
 
 // Copy make a copy of this algo with new conf and space
 func (algo *Algo) Copy(conf Conf, space Space) (oc OnlineClust, err error) {
-	impl, err := algo.impl.Copy(algo)
+	// the implementation is copied for the given configuration and space
+	var model = NewSimpleOCModel(conf, space, algo.Status(), algo.RuntimeFigures(), algo.Centroids())
+	impl, err := algo.impl.Copy(model)
 	if err == nil {
 		oc = NewAlgo(conf, impl, space)
 	}
diff --git a/streaming/impl.go b/streaming/impl.go
index 2a78228..39ef190 100644
--- a/streaming/impl.go
+++ b/streaming/impl.go
@@ -22,7 +22,7 @@ type Impl struct {
 // Copy impl
 func (impl *Impl) Copy(model core.OCModel) (core.Impl, error) {
 	var conf = model.Conf().(*Conf)
-	var algo = NewAlgo(*conf, model.Space(), impl.clust)
+	var algo = NewAlgo(*conf, model.Space(), model.Centroids())
 	return algo.Impl(), nil
 }
 
-- 
2.43.0


From 958adb416c3b19fbab0da155c4c725f565f35d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:32 +0000
Subject: [PATCH 17/22] fix: an element pushed right after a stop was stored
 before the staged ones

---
 core/buffer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/buffer.go b/core/buffer.go
index b387bd0..4526a7a 100644
--- a/core/buffer.go
+++ b/core/buffer.go
@@ -57,6 +57,7 @@ func (b *DataBuffer) Push(elmt Elemt, running bool) (err error) {
 	if running {
 		b.staged = append(b.staged, elmt)
 	} else {
+		b.storeStaged()
 		b.store(elmt)
 	}
 	return
@@ -74,11 +75,16 @@ func (b *DataBuffer) Data() (data []Elemt) {
 func (b *DataBuffer) Apply() (err error) {
 	b.mutex.Lock()
 	defer b.mutex.Unlock()
+	b.storeStaged()
+	return
+}
+
+// storeStaged stores the staged elements, which came before any other
+func (b *DataBuffer) storeStaged() {
 	for _, elmt := range b.staged {
 		b.store(elmt)
 	}
 	b.staged = nil
-	return
 }
 
 // store an element, in a copy of the data if they have been given to a reader
-- 
2.43.0


From 757a3fa92f6f66ab00df77227d2767872832a2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:47 +0000
Subject: [PATCH 18/22] fix: a kmeans++ draw without any element crashed
 instead of reporting the empty set

---
 kmeans/init.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kmeans/init.go b/kmeans/init.go
index 46931ed..92f091e 100644
--- a/kmeans/init.go
+++ b/kmeans/init.go
@@ -67,7 +67,10 @@ func PPInitializer(k int, elemts []core.Elemt, space core.Space, src *rand.Rand)
 func PPIter(clust core.Clust, elemts []core.Elemt, space core.Space, src *rand.Rand) (core.Elemt, error) {
 	var _, dists = clust.ParMapLabel(elemts, space, runtime.NumCPU())
 	var draw, err = WeightedChoice(dists, src)
-	return space.Copy(elemts[draw]), err
+	if err != nil {
+		return nil, err
+	}
+	return space.Copy(elemts[draw]), nil
 }
 
 // ErrNullSet indicates that a draw over an empty set was attempted
-- 
2.43.0


From 64878b0e4a24d4f5af17bc61843730dc062065ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:40 +0000
Subject: [PATCH 19/22] fix: the copy of a windowed algorithm dropped its
 newest elements first

The window was kept in ring order, so that the buffer of a copy took the
newest element for the oldest one. It is kept in arrival order.
---
 core/buffer.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/core/buffer.go b/core/buffer.go
index 4526a7a..83bca41 100644
--- a/core/buffer.go
+++ b/core/buffer.go
@@ -109,18 +109,13 @@ type fixedSizeStrategy struct {
 
 func (s *fixedSizeStrategy) push(data []Elemt, elemt Elemt) []Elemt {
 	if s.position == s.size {
-		s.position = 0
-	}
-
-	if s.position < len(data) {
-		data[s.position] = elemt
+		// drop the oldest element
+		data = data[1:]
 	} else {
-		data = append(data, elemt)
+		s.position++
 	}
 
-	s.position++
-
-	return data
+	return append(data, elemt)
 }
 
 // Infinite size buffer
-- 
2.43.0


From 87a777f9fd7d43a3901a8630c890aac9462137ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:08 +0000
Subject: [PATCH 20/22] fix: an initialization that asks for the status of the
 algorithm blocked for ever

---
 core/ctrl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index df12720..10f1ff0 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -84,7 +84,9 @@ func (algo *Algo) init() (err error) {
 		}
 		algo.setStatus(NewOCStatus(Initializing), false)
 		var centroids Clust
-		centroids, err = algo.impl.Init(algo)
+		centroids, err = algo.impl.Init(
+			NewSimpleOCModel(algo.conf, algo.space, algo.status, algo.RuntimeFigures(), algo.Centroids()),
+		)
 		algo.modelMutex.Lock()
 		algo.centroids = centroids
 		algo.modelMutex.Unlock()
-- 
2.43.0


From 1191ae3e0f6ee3dfbb7c91330bb5ac99c5665d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:15 +0000
Subject: [PATCH 21/22] fix: a panic of the initialization left the algorithm
 locked

---
 core/ctrl.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 10f1ff0..3ee097e 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -84,9 +84,7 @@ func (algo *Algo) init() (err error) {
 		}
 		algo.setStatus(NewOCStatus(Initializing), false)
 		var centroids Clust
-		centroids, err = algo.impl.Init(
-			NewSimpleOCModel(algo.conf, algo.space, algo.status, algo.RuntimeFigures(), algo.Centroids()),
-		)
+		centroids, err = algo.initImpl()
 		algo.modelMutex.Lock()
 		algo.centroids = centroids
 		algo.modelMutex.Unlock()
@@ -101,6 +99,18 @@ func (algo *Algo) init() (err error) {
 	return
 }
 
+// initImpl initializes the implementation, a panic is an error as in a run
+func (algo *Algo) initImpl() (centroids Clust, err error) {
+	defer func() {
+		if recovery := recover(); recovery != nil {
+			err = fmt.Errorf("%v", recovery)
+		}
+	}()
+	return algo.impl.Init(
+		NewSimpleOCModel(algo.conf, algo.space, algo.status, algo.RuntimeFigures(), algo.Centroids()),
+	)
+}
+
 // Play the algorithm in online mode
 func (algo *Algo) Play() (err error) {
 	algo.statusMutex.Lock()
-- 
2.43.0


From 7d186a73a48fb69d29da5eff4c6d9c632c3ed491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:14 +0000
Subject: [PATCH 22/22] fix: the density of a t distribution was not a number
 beyond 340 degrees of freedom or dimensions

The gamma function overflows long before its logarithm does.
---
 mcmc/multivt.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mcmc/multivt.go b/mcmc/multivt.go
index d873187..346c78e 100644
--- a/mcmc/multivt.go
+++ b/mcmc/multivt.go
@@ -45,7 +45,10 @@ func NewMultivT(conf MultivTConf) MultivT {
 	m.normal, _ = distmv.NewNormal(mu, sigma, m.RGen)
 	m.chi2 = &distuv.ChiSquared{K: m.Nu, Src: m.RGen}
 	m.power = (float64(m.Dim) + m.Nu) / 2.
-	m.gammaFactor = math.Log(math.Gamma(m.power) / math.Gamma(float64(m.Nu)/2.))
+	// the values of gamma may be too large for a float64, not their logarithms
+	var lgPower, _ = math.Lgamma(m.power)
+	var lgNu, _ = math.Lgamma(m.Nu / 2.)
+	m.gammaFactor = lgPower - lgNu
 
 	return m
 }
-- 
2.43.0

