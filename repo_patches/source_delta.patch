From 57d5b5f117d90163238fd9eeb9e6776486e36043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:02 +0000
Subject: [PATCH 01/26] fix: unconstrained DTW fails when the first series is
 more than twice as long

The window 0 means no constraint, but it was replaced by the length of the
second series, so cells far from the diagonal were out of window.
---
 dtw/cost.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dtw/cost.go b/dtw/cost.go
index 7f59c2f..7c614c6 100644
--- a/dtw/cost.go
+++ b/dtw/cost.go
@@ -48,16 +48,18 @@ func (cumCost *CumCostMatrix) Path() []Ends {
 	return cumCost.path
 }
 
-func (cumCost *CumCostMatrix) setStride(shortest int, longest int) {
-	if cumCost.window == 0 {
-		cumCost.window = longest
+func (cumCost *CumCostMatrix) setStride(l1 int, l2 int) {
+	if cumCost.window == 0 { // unconstrained
+		if cumCost.window = l1; l1 < l2 {
+			cumCost.window = l2
+		}
 	}
 	var maxWindow = 2*cumCost.window + 1
-	cumCost.stride0 = shortest
-	if maxWindow < longest {
+	cumCost.stride0 = l1
+	if maxWindow < l2 {
 		cumCost.stride1 = maxWindow
 	} else {
-		cumCost.stride1 = longest
+		cumCost.stride1 = l2
 	}
 }
 
-- 
2.43.0


From 2f7b167d4d74378d5c2e532f4f85192ffbe19b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:32 +0000
Subject: [PATCH 02/26] fix: nearest centroid skipped when its distance is
 slightly negative

A distance rounded below 0 was taken for the not-found marker.
---
 core/clustering.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/clustering.go b/core/clustering.go
index 368697e..919ccf9 100644
--- a/core/clustering.go
+++ b/core/clustering.go
@@ -143,7 +143,7 @@ func (c *Clust) nearest(elemt Elemt, space Space) (label int, min float64) {
 	label = -1
 
 	for i := 0; i < len(*c); i++ {
-		if d := space.Dist(elemt, (*c)[i]); min < 0 || min > d {
+		if d := space.Dist(elemt, (*c)[i]); label < 0 || min > d {
 			min = d
 			label = i
 		}
-- 
2.43.0


From 2200b5f045e86212dcb1f0cb4912e1318efffdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:32 +0000
Subject: [PATCH 03/26] fix: cosinus distance is negative or NaN

Rounding may lead to a cosinus greater than 1, and the cosinus of a null
vector is not defined: nearest centroids were wrong in both cases.
---
 cosinus/cosinus.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cosinus/cosinus.go b/cosinus/cosinus.go
index ff23d8e..16b2329 100644
--- a/cosinus/cosinus.go
+++ b/cosinus/cosinus.go
@@ -29,7 +29,7 @@ func (space Space) Dist(elemt1, elemt2 core.Elemt) float64 {
 
 // PointDist return distance of points
 func (space Space) PointDist(point1 []float64, point2 []float64) float64 {
-	return 1 - Cosinus(point1, point2)
+	return math.Max(0, 1-Cosinus(point1, point2))
 }
 
 // Combine returns the weighted average of elemt1 and elemt2
@@ -59,7 +59,15 @@ func (space Space) Dim(data []core.Elemt) int {
 
 // Cosinus returns the cosinus similarity between two vectors
 func Cosinus(v1, v2 []float64) (cos float64) {
-	cos = ScalarProduct(v1, v2) / Norm(v1) / Norm(v2)
+	var n1, n2 = Norm(v1), Norm(v2)
+	switch {
+	case n1 == 0 && n2 == 0: // null vectors are equal
+		cos = 1
+	case n1 == 0 || n2 == 0: // null vector is orthogonal to others
+		cos = 0
+	default:
+		cos = ScalarProduct(v1, v2) / n1 / n2
+	}
 	return
 }
 
-- 
2.43.0


From f0c8292559b8ebc927a725fe4552debbffccdd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:32 +0000
Subject: [PATCH 04/26] fix: weighted choice returns an index out of range or
 with a null weight

It returned -1 when the draw is 0 or if a weight is not a number, could run
past the last index because of rounding, and could choose a null weight.
---
 kmeans/init.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/kmeans/init.go b/kmeans/init.go
index 600abe1..0088d25 100644
--- a/kmeans/init.go
+++ b/kmeans/init.go
@@ -106,15 +106,20 @@ func WeightedChoice(weights []float64, rand *rand.Rand) (int, error) {
 		sum += x
 	}
 
-	if sum == 0 {
+	if !(sum > 0) {
 		return 0, ErrNullSet
 	}
 
 	var cursor = rand.Float64() * sum
-	for cursor > 0 {
-		cursor -= weights[idx]
-		idx++
+	for i, x := range weights {
+		if x > 0 {
+			idx = i
+			cursor -= x
+			if cursor < 0 {
+				break
+			}
+		}
 	}
 
-	return idx - 1, nil
+	return idx, nil
 }
-- 
2.43.0


From 45aa2f202f20eaf35e6e37fd486f171212050a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:32 +0000
Subject: [PATCH 05/26] fix: initializers return nil centers when they fail

Pp and rand initializers returned k nil centers with their error, which made
predictions panic, and panicked themselves if k is negative.
---
 kmeans/init.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kmeans/init.go b/kmeans/init.go
index 0088d25..41151ee 100644
--- a/kmeans/init.go
+++ b/kmeans/init.go
@@ -49,15 +49,18 @@ func GivenInitializer(k int, elemts []core.Elemt, space core.Space, _ *rand.Rand
 // PPInitializer initializes a clustering algorithm with kmeans++
 func PPInitializer(k int, elemts []core.Elemt, space core.Space, src *rand.Rand) (centroids core.Clust, err error) {
 	err = check(k, elemts)
-	centroids = make(core.Clust, k)
 
 	if err == nil {
+		centroids = make(core.Clust, k)
 		var draw = src.Intn(len(elemts))
 		centroids[0] = elemts[draw]
 
 		for i := 1; i < k && err == nil; i++ {
 			centroids[i], err = PPIter(centroids[:i], elemts, space, src)
 		}
+		if err != nil {
+			centroids = nil
+		}
 	}
 
 	return
@@ -76,9 +79,9 @@ var ErrNullSet = errors.New("cannot draw over an empty set")
 // RandInitializer initializes a clustering with random testPoints
 func RandInitializer(k int, elemts []core.Elemt, space core.Space, src *rand.Rand) (centroids core.Clust, err error) {
 	err = check(k, elemts)
-	centroids = make(core.Clust, k)
 
 	if err == nil {
+		centroids = make(core.Clust, k)
 		var chosen = make(map[int]int)
 		var i int
 
-- 
2.43.0


From 3b239e9297fc9f4837dbc814c0ef52a90acaea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:32 +0000
Subject: [PATCH 06/26] fix: a panic in a parallel partition ends the process

It is raised in the calling routine, as in sequential mode, where the
algorithm turns it into an error.
---
 core/util.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/core/util.go b/core/util.go
index ac1e020..fdba264 100644
--- a/core/util.go
+++ b/core/util.go
@@ -6,13 +6,20 @@ import "sync"
 type PartitionProcess = func(start, end, rank int)
 
 // Par runs a function in parallel over data partitions given data size and degree of parallelism
+// A panic in a partition is raised again in the calling routine
 func Par(process func(int, int, int), size int, degree int) {
 	var wg = &sync.WaitGroup{}
+	var failures = make(chan interface{}, degree)
 	var offset = size / degree
 	var remainder = size % degree
 	wg.Add(degree)
 	var launch = func(start int, end int, rank int) {
 		defer wg.Done()
+		defer func() {
+			if failure := recover(); failure != nil {
+				failures <- failure
+			}
+		}()
 		process(start, end, rank)
 	}
 	var start = 0
@@ -28,4 +35,9 @@ func Par(process func(int, int, int), size int, degree int) {
 		start = end
 	}
 	wg.Wait()
+	select {
+	case failure := <-failures:
+		panic(failure)
+	default:
+	}
 }
-- 
2.43.0


From 9061cf945911fca3c223276a5a4c1584bb3cf994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 07/26] fix: data race at the initialization of a late
 distribution

---
 mcmc/latedistrib.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mcmc/latedistrib.go b/mcmc/latedistrib.go
index 488910f..da7db34 100644
--- a/mcmc/latedistrib.go
+++ b/mcmc/latedistrib.go
@@ -2,6 +2,7 @@ package mcmc
 
 import (
 	"sync"
+	"sync/atomic"
 
 	"github.com/wearelumenai/distclus/core"
 )
@@ -12,7 +13,7 @@ type DistribBuilder func(elemt core.Elemt) Distrib
 // LateDistrib initializes a wrapped Distrib when the first data is known
 type LateDistrib struct {
 	initializer DistribBuilder
-	initialized bool
+	initialized uint32
 	mu          sync.Mutex
 	distrib     Distrib
 }
@@ -38,7 +39,7 @@ func (d *LateDistrib) Pdf(x, mu core.Elemt, time int) float64 {
 }
 
 func (d *LateDistrib) initialize(elemt core.Elemt) {
-	if !d.initialized {
+	if atomic.LoadUint32(&d.initialized) == 0 {
 		d.tryInitialize(elemt)
 	}
 }
@@ -46,8 +47,8 @@ func (d *LateDistrib) initialize(elemt core.Elemt) {
 func (d *LateDistrib) tryInitialize(elemt core.Elemt) {
 	d.mu.Lock()
 	defer d.mu.Unlock()
-	if !d.initialized {
+	if d.initialized == 0 {
 		d.distrib = d.initializer(elemt)
-		d.initialized = true
+		atomic.StoreUint32(&d.initialized, 1)
 	}
 }
-- 
2.43.0


From a0b45bdd9fc916c28f905457fade104eca81242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 08/26] fix: infinite density of multivariate T in high
 dimension

The gamma function overflows from dimension 339.
---
 mcmc/multivt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mcmc/multivt.go b/mcmc/multivt.go
index d873187..8448627 100644
--- a/mcmc/multivt.go
+++ b/mcmc/multivt.go
@@ -45,7 +45,9 @@ func NewMultivT(conf MultivTConf) MultivT {
 	m.normal, _ = distmv.NewNormal(mu, sigma, m.RGen)
 	m.chi2 = &distuv.ChiSquared{K: m.Nu, Src: m.RGen}
 	m.power = (float64(m.Dim) + m.Nu) / 2.
-	m.gammaFactor = math.Log(math.Gamma(m.power) / math.Gamma(float64(m.Nu)/2.))
+	var lgPower, _ = math.Lgamma(m.power)
+	var lgNu, _ = math.Lgamma(m.Nu / 2.)
+	m.gammaFactor = lgPower - lgNu
 
 	return m
 }
-- 
2.43.0


From 46f3c368887f5ebe48920eab64376569edaeb570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 09/26] fix: acceptations not reset when mcmc is initialized
 again

There were more acceptations than iterations after a restart.
---
 mcmc/impl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mcmc/impl.go b/mcmc/impl.go
index 9e6d469..be5054b 100644
--- a/mcmc/impl.go
+++ b/mcmc/impl.go
@@ -56,6 +56,7 @@ func (impl *Impl) Init(model core.OCModel) (centroids core.Clust, err error) {
 			pdf:     impl.proba(*mcmcConf, space, centroids, centroids, currentTime),
 		}
 		impl.time = currentTime
+		impl.acc = 0
 	}
 	return
 }
-- 
2.43.0


From d7e0122cc1d323d9380153c8e6c58355ce6df3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:33 +0000
Subject: [PATCH 10/26] fix: data buffer blocks, races and changes the data it
 returned

Pushing blocked for ever once 2000 data were staged by an algorithm that is
not running, concurrent pushes could lose data, data pushed by a stopped
algorithm were stored before the staged ones, and a fixed size buffer
replaced elements in the slices it had already returned.
---
 core/buffer.go | 65 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 23 deletions(-)

diff --git a/core/buffer.go b/core/buffer.go
index dce1fbd..bca4852 100644
--- a/core/buffer.go
+++ b/core/buffer.go
@@ -1,5 +1,7 @@
 package core
 
+import "sync"
+
 // Buffer interface
 type Buffer interface {
 	Push(elemt Elemt, running bool) error
@@ -11,21 +13,20 @@ type Buffer interface {
 // In synchronous mode, when pushed() is called data are stored.
 // In asynchronous mode, when pushed() is called data are staged.
 // Staged data are stored when apply() is called.
+// All methods can be called concurrently, and the content of data returned
+// by data() does not change when other data are stored.
 type DataBuffer struct {
-	pipe     chan Elemt
+	mutex    sync.Mutex
+	staged   []Elemt
 	data     []Elemt
+	shared   bool // true if data has been returned
 	strategy bufferSizeStrategy
 }
 
-// Maximal default pipe size
-const pipeSize = 2000
-
 // NewDataBuffer creates a fixed size buffer if given size > 0.
 // Otherwise creates an infinite size buffer.
 func NewDataBuffer(data []Elemt, size int) Buffer {
-	var db = DataBuffer{
-		pipe: make(chan Elemt, pipeSize),
-	}
+	var db = DataBuffer{}
 
 	switch {
 	case size > len(data):
@@ -52,45 +53,54 @@ func NewDataBuffer(data []Elemt, size int) Buffer {
 
 // Push stores or stages an element depending on synchronous / asynchronous mode.
 func (b *DataBuffer) Push(elmt Elemt, running bool) (err error) {
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
 	if running {
-		b.pipe <- elmt
+		b.staged = append(b.staged, elmt)
 	} else {
-		b.data = b.strategy.push(b.data, elmt)
+		b.apply()
+		b.store(elmt)
 	}
 	return
 }
 
 // Data returns buffer data
 func (b *DataBuffer) Data() (data []Elemt) {
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+	b.shared = true
 	return b.data
 }
 
 // Apply all staged data in asynchronous mode, otherwise do nothing
 func (b *DataBuffer) Apply() (err error) {
-	for b.applyNext() {
-	}
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+	b.apply()
 	return
 }
 
-// Applies next staged data if available and returns true.
-// Otherwise returns false.
-func (b *DataBuffer) applyNext() (ok bool) {
-	var elmt Elemt
-
-	select {
-	case elmt, ok = <-b.pipe:
-		if ok {
-			b.data = b.strategy.push(b.data, elmt)
-		}
-	default:
+// Stores staged data in the order they have been pushed.
+func (b *DataBuffer) apply() {
+	for _, elmt := range b.staged {
+		b.store(elmt)
 	}
+	b.staged = nil
+}
 
-	return
+// Stores an element, in a new slice if it would replace an element already returned.
+func (b *DataBuffer) store(elmt Elemt) {
+	if b.shared && b.strategy.replaces(b.data) {
+		b.data = append(make([]Elemt, 0, len(b.data)), b.data...)
+		b.shared = false
+	}
+	b.data = b.strategy.push(b.data, elmt)
 }
 
 // Handle the way data are stored, i.e. infinite or fixed size buffer.
 type bufferSizeStrategy interface {
 	push(data []Elemt, elemt Elemt) []Elemt
+	replaces(data []Elemt) bool
 }
 
 // Fixed size buffer
@@ -115,6 +125,11 @@ func (s *fixedSizeStrategy) push(data []Elemt, elemt Elemt) []Elemt {
 	return data
 }
 
+// The next push replaces the oldest element when the buffer is full
+func (s *fixedSizeStrategy) replaces(data []Elemt) bool {
+	return len(data) == s.size
+}
+
 // Infinite size buffer
 type infiniteSizeStrategy struct {
 }
@@ -122,3 +137,7 @@ type infiniteSizeStrategy struct {
 func (s *infiniteSizeStrategy) push(data []Elemt, elemt Elemt) []Elemt {
 	return append(data, elemt)
 }
+
+func (s *infiniteSizeStrategy) replaces(data []Elemt) bool {
+	return false
+}
-- 
2.43.0


From b93a3befb457a3702787c417e05ea4157af4653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:33 +0000
Subject: [PATCH 11/26] fix: copy of kmeans and mcmc lost the data not yet
 applied by an iteration

---
 kmeans/impl.go | 1 +
 mcmc/impl.go   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/kmeans/impl.go b/kmeans/impl.go
index 9e768f0..48fda02 100644
--- a/kmeans/impl.go
+++ b/kmeans/impl.go
@@ -38,6 +38,7 @@ func (impl *Impl) Push(elemt core.Elemt, model core.OCModel) error {
 // Copy impl
 func (impl *Impl) Copy(model core.OCModel) (core.Impl, error) {
 	var newConf = model.Conf().(*Conf)
+	_ = impl.buffer.Apply()
 	var algo = NewAlgo(*newConf, model.Space(), impl.buffer.Data(), impl.initializer)
 	return algo.Impl(), nil
 }
diff --git a/mcmc/impl.go b/mcmc/impl.go
index be5054b..838aa20 100644
--- a/mcmc/impl.go
+++ b/mcmc/impl.go
@@ -29,6 +29,7 @@ type Impl struct {
 // Copy impl
 func (impl *Impl) Copy(model core.OCModel) (core.Impl, error) {
 	var newConf = model.Conf().(*Conf)
+	_ = impl.buffer.Apply()
 	var algo = NewAlgo(*newConf, model.Space(), impl.buffer.Data(), impl.initializer, impl.distrib)
 	return algo.Impl(), nil
 }
-- 
2.43.0


From 23551b19d19a0e88a383765a91c488c6ff2be8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:44 +0000
Subject: [PATCH 12/26] fix: copy ignored the new configuration and space in
 the implementation

The implementation was copied with those of the original algorithm, so frame
size, parallelism or streaming parameters of the new configuration had no
effect.
---
 core/ctrl.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index f1889c3..b104525 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -372,7 +372,8 @@ func (algo *Algo) SetSpace(space Space) (err error) {
 
 // Copy make a copy of this algo with new conf and space
 func (algo *Algo) Copy(conf Conf, space Space) (oc OnlineClust, err error) {
-	impl, err := algo.impl.Copy(algo)
+	var model = NewSimpleOCModel(conf, space, algo.Status(), algo.RuntimeFigures(), algo.Centroids())
+	impl, err := algo.Impl().Copy(model)
 	if err == nil {
 		oc = NewAlgo(conf, impl, space)
 	}
-- 
2.43.0


From 96f8b08ecb81676c9e56cdb4f7500908215c0d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:08 +0000
Subject: [PATCH 13/26] fix: centroids returned by streaming are changed by
 later iterations

---
 streaming/impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streaming/impl.go b/streaming/impl.go
index 84b3730..5d7723f 100644
--- a/streaming/impl.go
+++ b/streaming/impl.go
@@ -62,7 +62,7 @@ func (impl *Impl) Iterate(model core.OCModel) (clust core.Clust, runtimeFigures
 	select {
 	case elemt := <-impl.c:
 		impl.Process(elemt, model.Space())
-		clust = impl.clust
+		clust = append(core.Clust(nil), impl.clust...) // impl.clust is updated in place
 	default:
 	}
 	runtimeFigures = impl.runtimeFigures()
-- 
2.43.0


From 45cea2027a82c4f8e78f83c32c8f0416b43fdd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:08 +0000
Subject: [PATCH 14/26] fix: copy of streaming reads centers while they are
 updated

It raced with the running algorithm, and panicked when there were more
centers than the buffer size.
---
 streaming/impl.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/streaming/impl.go b/streaming/impl.go
index 5d7723f..8c0f0c2 100644
--- a/streaming/impl.go
+++ b/streaming/impl.go
@@ -22,7 +22,12 @@ type Impl struct {
 // Copy impl
 func (impl *Impl) Copy(model core.OCModel) (core.Impl, error) {
 	var conf = model.Conf().(*Conf)
-	var algo = NewAlgo(*conf, model.Space(), impl.clust)
+	_ = conf.Verify()
+	var centroids = model.Centroids()
+	if conf.BufferSize < len(centroids) {
+		return nil, errors.New("buffer size must be greater than the number of centroids")
+	}
+	var algo = NewAlgo(*conf, model.Space(), centroids)
 	return algo.Impl(), nil
 }
 
-- 
2.43.0


From 1b0bd2c4e1e527836c6bc13e09b8e1655293c988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:34 +0000
Subject: [PATCH 15/26] fix: runtime figures are read while they are updated

The map returned by the algorithm, or given to an iteration, was the one
modified when data are pushed, which ends the process when both happen at
the same time.
---
 core/ctrl.go    | 6 ++----
 core/figures.go | 8 ++++++++
 core/model.go   | 4 ++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index b104525..a108f4f 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -279,7 +279,7 @@ func (algo *Algo) run() {
 			// newData = algo.newData
 			centroids, runtimeFigures, err = algo.impl.Iterate(
 				NewSimpleOCModel(
-					algo.conf, algo.space, algo.status, algo.runtimeFigures, algo.centroids,
+					algo.conf, algo.space, algo.status, algo.RuntimeFigures(), algo.centroids,
 				),
 			)
 			duration = time.Now().Sub(start)
@@ -317,9 +317,7 @@ func (algo *Algo) updateRuntimeFigures() {
 }
 
 func (algo *Algo) saveIterContext(centroids Clust, runtimeFigures RuntimeFigures, duration time.Duration) {
-	if runtimeFigures == nil {
-		runtimeFigures = RuntimeFigures{}
-	}
+	runtimeFigures = runtimeFigures.copy() // impl may keep its own
 	runtimeFigures[Duration] = float64(algo.duration + duration)
 	algo.centroids = centroids
 	algo.runtimeFigures = runtimeFigures
diff --git a/core/figures.go b/core/figures.go
index 79a76be..27f2b14 100644
--- a/core/figures.go
+++ b/core/figures.go
@@ -13,3 +13,11 @@ const (
 	// LastDataTime is the last pushed data time
 	LastDataTime = "lastDataTime"
 )
+
+func (figures RuntimeFigures) copy() RuntimeFigures {
+	var copied = make(RuntimeFigures, len(figures))
+	for name, value := range figures {
+		copied[name] = value
+	}
+	return copied
+}
diff --git a/core/model.go b/core/model.go
index 6a422f0..a5430c1 100644
--- a/core/model.go
+++ b/core/model.go
@@ -24,11 +24,11 @@ func (algo *Algo) Space() Space {
 	return algo.space
 }
 
-// RuntimeFigures returns specific algo properties
+// RuntimeFigures returns a copy of specific algo properties
 func (algo *Algo) RuntimeFigures() (figures RuntimeFigures) {
 	algo.modelMutex.RLock()
 	defer algo.modelMutex.RUnlock()
-	return algo.runtimeFigures
+	return algo.runtimeFigures.copy()
 }
 
 // Conf returns configuration
-- 
2.43.0


From 38e9c30817bd09e9c0a08fa73cc18f682368e4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:00 +0000
Subject: [PATCH 16/26] fix: status notifier blocks the algorithm

Changing the status waited for the running notifier while holding the status
lock, so a notifier that reads the status, or controls the algorithm, blocked
it for ever. The notification routine also never ended.
---
 core/algo.go | 33 +++++++++++++++++++++++++--------
 core/ctrl.go |  4 ----
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/core/algo.go b/core/algo.go
index 214f9a3..00ab12d 100644
--- a/core/algo.go
+++ b/core/algo.go
@@ -23,7 +23,8 @@ type Algo struct {
 	status         OCStatus
 	statusChannel  chan OCStatus
 	ackChannel     chan bool
-	notifChannel   chan OCStatus
+	notifQueue     []OCStatus // status changes not yet notified
+	notifying      bool       // true while the notification loop is running
 	runtimeFigures RuntimeFigures
 	newData        int
 	pushedData     int
@@ -34,6 +35,7 @@ type Algo struct {
 
 	modelMutex  sync.RWMutex // algo model mutex
 	statusMutex sync.RWMutex // algo model mutex
+	notifMutex  sync.Mutex   // notification queue mutex
 }
 
 // NewAlgo creates a new algorithm instance
@@ -61,12 +63,21 @@ func NewAlgo(conf Conf, impl Impl, space Space) (algo *Algo) {
 func (algo *Algo) setStatus(status OCStatus, safe bool) {
 	if safe {
 		algo.statusMutex.Lock()
-		algo.status = status
-		algo.statusMutex.Unlock()
-	} else {
-		algo.status = status
+		defer algo.statusMutex.Unlock()
+	}
+	algo.status = status
+	algo.enqueueNotification(status)
+}
+
+// enqueueNotification never blocks, even if the notifier is running
+func (algo *Algo) enqueueNotification(status OCStatus) {
+	algo.notifMutex.Lock()
+	defer algo.notifMutex.Unlock()
+	algo.notifQueue = append(algo.notifQueue, status)
+	if !algo.notifying {
+		algo.notifying = true
+		go algo.notificationLoop()
 	}
-	algo.notifChannel <- status
 }
 
 // receiveStatus status from main routine
@@ -92,12 +103,18 @@ func (algo *Algo) notify(status OCStatus) {
 	}
 }
 
+// notificationLoop notifies status changes in their order and ends when there are no more
 func (algo *Algo) notificationLoop() {
 	for {
-		var status, ok = <-algo.notifChannel
-		if !ok {
+		algo.notifMutex.Lock()
+		if len(algo.notifQueue) == 0 {
+			algo.notifying = false
+			algo.notifMutex.Unlock()
 			return
 		}
+		var status = algo.notifQueue[0]
+		algo.notifQueue = algo.notifQueue[1:]
+		algo.notifMutex.Unlock()
 		algo.notify(status)
 	}
 }
diff --git a/core/ctrl.go b/core/ctrl.go
index a108f4f..a619465 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -76,10 +76,6 @@ func (algo *Algo) init() (err error) {
 		algo.modelMutex.Unlock()
 		fallthrough
 	case Created:
-		if algo.status.Value == Created {
-			algo.notifChannel = make(chan OCStatus)
-			go algo.notificationLoop()
-		}
 		algo.setStatus(NewOCStatus(Initializing), false)
 		var centroids Clust
 		centroids, err = algo.impl.Init(algo)
-- 
2.43.0


From 9cf5aa92630f7055c3134792ccf5b33ee97f64a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:11 +0000
Subject: [PATCH 17/26] fix: push deadlocks with the control of the algorithm

It waited for the status lock with the model lock held, whereas the
initialization and the end of a run take them in the opposite order, and it
played with the model lock held. Two pushes could also lose a play.
---
 core/ctrl.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index a619465..4d3d9cb 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -22,11 +22,13 @@ type OCCtrl interface {
 func (algo *Algo) Push(elemt Elemt) (err error) {
 	err = algo.impl.Push(elemt, algo)
 	if err == nil {
+		var ready = algo.Status().Value == Ready
 		algo.modelMutex.Lock()
 		algo.pushedData++
 		algo.lastDataTime = time.Now().Unix()
 		var conf = algo.conf.Ctrl()
-		if algo.Status().Value == Ready && conf.DataPerIter > 0 && conf.DataPerIter <= algo.newData {
+		var play = ready && conf.DataPerIter > 0 && conf.DataPerIter <= algo.newData
+		if play {
 			algo.newData = 0
 		} else {
 			algo.newData++
@@ -34,9 +36,7 @@ func (algo *Algo) Push(elemt Elemt) (err error) {
 		algo.updateRuntimeFigures()
 		algo.modelMutex.Unlock()
 		// try to play if waiting
-		algo.modelMutex.RLock()
-		defer algo.modelMutex.RUnlock()
-		if algo.newData == 0 {
+		if play {
 			algo.Play()
 		}
 	}
-- 
2.43.0


From 912fc1530fcbfda5c93cd825184db5f25d6c61e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:48 +0000
Subject: [PATCH 18/26] fix: concurrent control operations deadlock or leave a
 wrong status

Control operations are serialized, and there is one run at a time, whose end
is signaled once: playing twice started two runs, an operation that met the
end of a run could wait for ever or leave a status without any run, play
kept the status locked when the initialization failed, the initialization
could not read the status, and a push could restart a stopped algorithm.
---
 core/algo.go |  21 +++++---
 core/ctrl.go | 134 +++++++++++++++++++++++----------------------------
 2 files changed, 74 insertions(+), 81 deletions(-)

diff --git a/core/algo.go b/core/algo.go
index 00ab12d..f8b1a02 100644
--- a/core/algo.go
+++ b/core/algo.go
@@ -21,10 +21,11 @@ type Algo struct {
 	space          Space
 	centroids      Clust
 	status         OCStatus
-	statusChannel  chan OCStatus
-	ackChannel     chan bool
-	notifQueue     []OCStatus // status changes not yet notified
-	notifying      bool       // true while the notification loop is running
+	statusChannel  chan OCStatus // status asked to the current run
+	ackChannel     chan bool     // acknowledgement of the current run
+	endChannel     chan bool     // closed when the current run is over
+	notifQueue     []OCStatus    // status changes not yet notified
+	notifying      bool          // true while the notification loop is running
 	runtimeFigures RuntimeFigures
 	newData        int
 	pushedData     int
@@ -33,6 +34,7 @@ type Algo struct {
 	lastDataTime   int64
 	timeout        Timeout
 
+	ctrlMutex   sync.Mutex   // serializes control operations
 	modelMutex  sync.RWMutex // algo model mutex
 	statusMutex sync.RWMutex // algo model mutex
 	notifMutex  sync.Mutex   // notification queue mutex
@@ -53,8 +55,10 @@ func NewAlgo(conf Conf, impl Impl, space Space) (algo *Algo) {
 		status:         OCStatus{Value: Created},
 		statusChannel:  make(chan OCStatus),
 		ackChannel:     make(chan bool),
+		endChannel:     make(chan bool),
 		runtimeFigures: RuntimeFigures{},
 	}
+	close(algo.endChannel)
 
 	return
 }
@@ -87,10 +91,13 @@ func (algo *Algo) receiveStatus() {
 	algo.ackChannel <- true
 }
 
-// sendStatus status to run go routine
+// sendStatus status to run go routine. Returns false if the run is over.
 func (algo *Algo) sendStatus(status OCStatus) (ok bool) {
-	algo.statusChannel <- status
-	_, ok = <-algo.ackChannel
+	select {
+	case algo.statusChannel <- status:
+		ok = <-algo.ackChannel
+	case <-algo.endChannel:
+	}
 	return
 }
 
diff --git a/core/ctrl.go b/core/ctrl.go
index 4d3d9cb..6cd89be 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -37,7 +37,7 @@ func (algo *Algo) Push(elemt Elemt) (err error) {
 		algo.modelMutex.Unlock()
 		// try to play if waiting
 		if play {
-			algo.Play()
+			algo.playReady()
 		}
 	}
 	return
@@ -58,14 +58,15 @@ func (algo *Algo) Batch() (err error) {
 
 // Init initialize centroids and set status to Ready
 func (algo *Algo) Init() error {
-	algo.statusMutex.Lock()
-	defer algo.statusMutex.Unlock()
+	algo.ctrlMutex.Lock()
+	defer algo.ctrlMutex.Unlock()
 	return algo.init()
 }
 
 func (algo *Algo) init() (err error) {
-	switch algo.status.Value {
+	switch algo.Status().Value {
 	case Finished:
+		<-algo.endChannel
 		algo.modelMutex.Lock()
 		algo.pushedData = 0
 		algo.duration = 0
@@ -76,16 +77,16 @@ func (algo *Algo) init() (err error) {
 		algo.modelMutex.Unlock()
 		fallthrough
 	case Created:
-		algo.setStatus(NewOCStatus(Initializing), false)
+		algo.setStatus(NewOCStatus(Initializing), true)
 		var centroids Clust
 		centroids, err = algo.impl.Init(algo)
 		algo.modelMutex.Lock()
 		algo.centroids = centroids
 		algo.modelMutex.Unlock()
 		if err == nil {
-			algo.setStatus(NewOCStatus(Ready), false)
+			algo.setStatus(NewOCStatus(Ready), true)
 		} else {
-			algo.setStatus(NewOCStatusError(err), false)
+			algo.setStatus(NewOCStatusError(err), true)
 		}
 	default:
 		err = ErrAlreadyCreated
@@ -95,49 +96,57 @@ func (algo *Algo) init() (err error) {
 
 // Play the algorithm in online mode
 func (algo *Algo) Play() (err error) {
-	algo.statusMutex.Lock()
-	switch algo.status.Value {
+	algo.ctrlMutex.Lock()
+	defer algo.ctrlMutex.Unlock()
+	switch algo.Status().Value {
 	case Idle:
-		algo.statusMutex.Unlock()
 		algo.sendStatus(NewOCStatus(Running))
 	case Finished:
 		fallthrough
 	case Created:
 		err = algo.init()
-		if err != nil && err != ErrAlreadyCreated {
+		if err != nil {
 			return
 		}
-		err = nil
 		fallthrough
 	case Ready:
-		go algo.run()
-		algo.statusMutex.Unlock()
-		algo.sendStatus(NewOCStatus(Running))
-		if algo.timeout != nil {
-			algo.timeout.Disable()
-		}
-		var interruptionTimeout = algo.Conf().Ctrl().Timeout
-		if interruptionTimeout > 0 {
-			algo.timeout = InterruptionTimeout(interruptionTimeout, algo.interrupt)
-		}
+		algo.start()
 	case Running:
-		algo.statusMutex.Unlock()
 		err = ErrRunning
 	}
 	return
 }
 
+// playReady plays the algorithm only if it is ready
+func (algo *Algo) playReady() {
+	algo.ctrlMutex.Lock()
+	defer algo.ctrlMutex.Unlock()
+	if algo.Status().Value == Ready {
+		algo.start()
+	}
+}
+
+// start a new run, once the previous one is over
+func (algo *Algo) start() {
+	<-algo.endChannel
+	algo.endChannel = make(chan bool)
+	algo.setStatus(NewOCStatus(Running), true)
+	go algo.run(algo.endChannel)
+	if algo.timeout != nil {
+		algo.timeout.Disable()
+	}
+	var interruptionTimeout = algo.Conf().Ctrl().Timeout
+	if interruptionTimeout > 0 {
+		algo.timeout = InterruptionTimeout(interruptionTimeout, algo.interrupt)
+	}
+}
+
 // Pause the algorithm and set status to idle
 func (algo *Algo) Pause() (err error) {
-	algo.statusMutex.Lock()
-	if algo.status.Value == Running {
-		algo.statusMutex.Unlock()
-		if !algo.sendStatus(NewOCStatus(Idle)) {
-			err = ErrNotRunning
-		}
-	} else {
+	algo.ctrlMutex.Lock()
+	defer algo.ctrlMutex.Unlock()
+	if algo.Status().Value != Running || !algo.sendStatus(NewOCStatus(Idle)) {
 		err = ErrNotRunning
-		algo.statusMutex.Unlock()
 	}
 	return
 }
@@ -170,19 +179,17 @@ func (algo *Algo) Wait(finishing Finishing, timeout time.Duration) (err error) {
 
 // interrupt the algorithm
 func (algo *Algo) interrupt(interruption error) (err error) {
-	algo.statusMutex.Lock()
-	switch algo.status.Value {
-	case Ready:
-		algo.setStatus(NewOCStatusError(interruption), false)
-		algo.statusMutex.Unlock()
-	case Idle:
-		fallthrough
-	case Running:
-		algo.statusMutex.Unlock()
-		algo.sendStatus(NewOCStatusError(interruption))
-		err = algo.status.Error
-	default:
-		algo.statusMutex.Unlock()
+	algo.ctrlMutex.Lock()
+	defer algo.ctrlMutex.Unlock()
+	var status = NewOCStatusError(interruption)
+	if algo.Status().Running() && algo.sendStatus(status) {
+		<-algo.endChannel
+		return interruption
+	}
+	// there is no run, or it is over
+	if algo.Status().Value == Ready {
+		algo.setStatus(status, true)
+	} else {
 		err = ErrNotAlive
 	}
 	return
@@ -200,16 +207,10 @@ func (algo *Algo) Predict(elemt Elemt) (pred Elemt, label int, dist float64) {
 	return
 }
 
-func (algo *Algo) recover(start time.Time) {
-	algo.statusMutex.Lock()
-	defer algo.statusMutex.Unlock()
+func (algo *Algo) recover(start time.Time, end chan bool) {
+	// free client waiting for this run
+	defer close(end)
 	var recovery = recover()
-	if recovery != nil {
-		var err = fmt.Errorf("%v", recovery)
-		algo.setStatus(NewOCStatusError(err), false)
-	}
-	// wait a few between client time processing between releasing statusMutex and sendStatus
-	time.Sleep(100 * time.Millisecond)
 	// update algo runtime figures
 	algo.modelMutex.Lock()
 	// algo.newData = int(math.Max(0, float64(algo.newData-newData)))
@@ -217,27 +218,14 @@ func (algo *Algo) recover(start time.Time) {
 	algo.duration += duration
 	algo.runtimeFigures[Duration] = float64(algo.duration)
 	algo.modelMutex.Unlock()
-	// clean up channels
-	select {
-	// get client status if client quiered to stop or timeout interruption
-	case status := <-algo.statusChannel:
-		if recovery == nil {
-			algo.setStatus(status, false)
-		}
-	default:
-	}
-	// free client ack channel
-	select { // close ack channel
-	case <-algo.ackChannel:
-	default:
-		close(algo.ackChannel)
+	if recovery != nil {
+		var err = fmt.Errorf("%v", recovery)
+		algo.setStatus(NewOCStatusError(err), true)
 	}
 }
 
 // Initialize the algorithm, if success run it synchronously otherwise return an error
-func (algo *Algo) run() {
-	algo.ackChannel = make(chan bool)
-
+func (algo *Algo) run(end chan bool) {
 	var err error
 	var conf = algo.conf.Ctrl()
 	var centroids = algo.centroids
@@ -258,16 +246,14 @@ func (algo *Algo) run() {
 		finishing = NewOrFinishing(finishing, conf.Finishing)
 	}
 
-	defer algo.recover(start)
-
-	algo.receiveStatus()
+	defer algo.recover(start, end)
 
 	for err == nil && algo.status.Value == Running && !IsFinished(finishing, algo) {
 		select { // check for algo status update
 		case status := <-algo.statusChannel:
 			algo.setStatus(status, true)
+			algo.ackChannel <- true
 			if status.Value == Idle {
-				algo.ackChannel <- true
 				algo.receiveStatus()
 			}
 		default:
-- 
2.43.0


From ebdf8d731ceea9c2f20c9c63071e65203e4eda4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:48 +0000
Subject: [PATCH 19/26] fix: a panic at initialization leaves the algorithm
 initializing for ever

It ends with an error, as when an iteration panics.
---
 core/ctrl.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 6cd89be..ed0d09f 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -79,7 +79,7 @@ func (algo *Algo) init() (err error) {
 	case Created:
 		algo.setStatus(NewOCStatus(Initializing), true)
 		var centroids Clust
-		centroids, err = algo.impl.Init(algo)
+		centroids, err = algo.initImpl()
 		algo.modelMutex.Lock()
 		algo.centroids = centroids
 		algo.modelMutex.Unlock()
@@ -94,6 +94,16 @@ func (algo *Algo) init() (err error) {
 	return
 }
 
+// initImpl initializes impl. A panic is returned as an error.
+func (algo *Algo) initImpl() (centroids Clust, err error) {
+	defer func() {
+		if recovery := recover(); recovery != nil {
+			err = fmt.Errorf("%v", recovery)
+		}
+	}()
+	return algo.impl.Init(algo)
+}
+
 // Play the algorithm in online mode
 func (algo *Algo) Play() (err error) {
 	algo.ctrlMutex.Lock()
-- 
2.43.0


From 51a0dc06e2e4c1d717a14d3af3cd378a65daa447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:48 +0000
Subject: [PATCH 20/26] fix: batch ignores the error of a run that fails at
 once

---
 core/ctrl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ctrl.go b/core/ctrl.go
index ed0d09f..f2d0581 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -49,6 +49,9 @@ func (algo *Algo) Batch() (err error) {
 	err = algo.Play()
 	if err == nil {
 		err = algo.Wait(nil, 0)
+		if err == nil { // the run may have failed before waiting
+			err = algo.Status().Error
+		}
 		if err == nil {
 			algo.Stop()
 		}
-- 
2.43.0


From 5b8acc9b11eca6579318809bbabe44aec74810a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:07 +0000
Subject: [PATCH 21/26] fix: the timeout of a run interrupts the algorithm
 after the end of this run

A ready algorithm became finished with a timeout error, or a later run was
interrupted too early.
---
 core/ctrl.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index f2d0581..2bc381e 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -150,7 +150,10 @@ func (algo *Algo) start() {
 	}
 	var interruptionTimeout = algo.Conf().Ctrl().Timeout
 	if interruptionTimeout > 0 {
-		algo.timeout = InterruptionTimeout(interruptionTimeout, algo.interrupt)
+		var end = algo.endChannel
+		algo.timeout = InterruptionTimeout(interruptionTimeout, func(interruption error) error {
+			return algo.interruptRun(interruption, end)
+		})
 	}
 }
 
@@ -190,6 +193,16 @@ func (algo *Algo) Wait(finishing Finishing, timeout time.Duration) (err error) {
 	return
 }
 
+// interruptRun interrupts the algorithm unless the given run is over
+func (algo *Algo) interruptRun(interruption error, end chan bool) (err error) {
+	algo.ctrlMutex.Lock()
+	defer algo.ctrlMutex.Unlock()
+	if end != algo.endChannel || !algo.Status().Running() || !algo.sendStatus(NewOCStatusError(interruption)) {
+		err = ErrNotAlive
+	}
+	return
+}
+
 // interrupt the algorithm
 func (algo *Algo) interrupt(interruption error) (err error) {
 	algo.ctrlMutex.Lock()
-- 
2.43.0


From 48a5872415e0ae034e53ae6b0a0ba66cb70f82a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:44 +0000
Subject: [PATCH 22/26] fix: iteration frequency is exceeded after a pause

---
 core/ctrl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 2bc381e..f2e8e24 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -260,7 +260,7 @@ func (algo *Algo) run(end chan bool) {
 	if conf.IterFreq > 0 {
 		iterFreq = time.Duration(float64(time.Second) / conf.IterFreq)
 	}
-	var lastIterationTime = time.Now()
+	var lastIterationTime time.Time // start of the last iteration
 
 	// var newData int
 
@@ -285,6 +285,7 @@ func (algo *Algo) run(end chan bool) {
 		default:
 			// run implementation
 			// newData = algo.newData
+			lastIterationTime = time.Now()
 			centroids, runtimeFigures, err = algo.impl.Iterate(
 				NewSimpleOCModel(
 					algo.conf, algo.space, algo.status, algo.RuntimeFigures(), algo.centroids,
@@ -304,7 +305,6 @@ func (algo *Algo) run(end chan bool) {
 				if iterFreq > 0 { // with iteration freqency
 					var diff = iterFreq - time.Now().Sub(lastIterationTime)
 					time.Sleep(diff)
-					lastIterationTime = time.Now()
 				}
 			}
 		}
-- 
2.43.0


From 10109e7e91491e17ff624ebe80e1ea9b98acd44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:02 +0000
Subject: [PATCH 23/26] fix: copy of an algorithm with a limited frame loses
 the order of the observations

---
 core/buffer.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/core/buffer.go b/core/buffer.go
index bca4852..033c7ad 100644
--- a/core/buffer.go
+++ b/core/buffer.go
@@ -64,10 +64,11 @@ func (b *DataBuffer) Push(elmt Elemt, running bool) (err error) {
 	return
 }
 
-// Data returns buffer data
+// Data returns buffer data, in the order they have been pushed
 func (b *DataBuffer) Data() (data []Elemt) {
 	b.mutex.Lock()
 	defer b.mutex.Unlock()
+	b.data = b.strategy.order(b.data)
 	b.shared = true
 	return b.data
 }
@@ -101,6 +102,7 @@ func (b *DataBuffer) store(elmt Elemt) {
 type bufferSizeStrategy interface {
 	push(data []Elemt, elemt Elemt) []Elemt
 	replaces(data []Elemt) bool
+	order(data []Elemt) []Elemt
 }
 
 // Fixed size buffer
@@ -130,6 +132,15 @@ func (s *fixedSizeStrategy) replaces(data []Elemt) bool {
 	return len(data) == s.size
 }
 
+// The oldest element is at the current position when the buffer is full
+func (s *fixedSizeStrategy) order(data []Elemt) []Elemt {
+	if s.position < len(data) {
+		data = append(append(make([]Elemt, 0, s.size), data[s.position:]...), data[:s.position]...)
+		s.position = s.size
+	}
+	return data
+}
+
 // Infinite size buffer
 type infiniteSizeStrategy struct {
 }
@@ -141,3 +152,7 @@ func (s *infiniteSizeStrategy) push(data []Elemt, elemt Elemt) []Elemt {
 func (s *infiniteSizeStrategy) replaces(data []Elemt) bool {
 	return false
 }
+
+func (s *infiniteSizeStrategy) order(data []Elemt) []Elemt {
+	return data
+}
-- 
2.43.0


From 9e26131f90f70ecb8dfa4c5adc8137862a8e0656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:48 +0000
Subject: [PATCH 24/26] fix: weighted average is not a number when its first
 weights are null

---
 core/clustering.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/clustering.go b/core/clustering.go
index 919ccf9..4b1ca04 100644
--- a/core/clustering.go
+++ b/core/clustering.go
@@ -183,8 +183,10 @@ func WeightedDBA(elemts []Elemt, weights []int, space Space) (dba Elemt, err err
 	var weight = weights[0]
 
 	for i := 1; i < len(elemts); i++ {
-		dba = space.Combine(dba, weight, elemts[i], weights[i])
-		weight += weights[i]
+		if weights[i] != 0 { // nothing to combine otherwise
+			dba = space.Combine(dba, weight, elemts[i], weights[i])
+			weight += weights[i]
+		}
 	}
 
 	return
-- 
2.43.0


From ab0d310e8079677337ae0af6a3f0c6f3e1e0fbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:09 +0000
Subject: [PATCH 25/26] fix: the timeout of a run that is over keeps a
 goroutine and the algorithm until it elapses

---
 core/ctrl.go    | 10 ++++++----
 core/timeout.go | 19 +++++++++++++------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index f2e8e24..6870554 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -144,10 +144,7 @@ func (algo *Algo) start() {
 	<-algo.endChannel
 	algo.endChannel = make(chan bool)
 	algo.setStatus(NewOCStatus(Running), true)
-	go algo.run(algo.endChannel)
-	if algo.timeout != nil {
-		algo.timeout.Disable()
-	}
+	algo.timeout = nil
 	var interruptionTimeout = algo.Conf().Ctrl().Timeout
 	if interruptionTimeout > 0 {
 		var end = algo.endChannel
@@ -155,6 +152,7 @@ func (algo *Algo) start() {
 			return algo.interruptRun(interruption, end)
 		})
 	}
+	go algo.run(algo.endChannel)
 }
 
 // Pause the algorithm and set status to idle
@@ -236,6 +234,10 @@ func (algo *Algo) Predict(elemt Elemt) (pred Elemt, label int, dist float64) {
 func (algo *Algo) recover(start time.Time, end chan bool) {
 	// free client waiting for this run
 	defer close(end)
+	// the timeout of this run is over
+	if algo.timeout != nil {
+		defer algo.timeout.Disable()
+	}
 	var recovery = recover()
 	// update algo runtime figures
 	algo.modelMutex.Lock()
diff --git a/core/timeout.go b/core/timeout.go
index fd159ff..0f4a163 100644
--- a/core/timeout.go
+++ b/core/timeout.go
@@ -17,6 +17,7 @@ type timeout struct {
 	enabled      bool
 	interruption func(error) error
 	mutex        sync.RWMutex
+	timer        *time.Timer
 	finishing    Finishing
 	ocm          OCModel
 }
@@ -29,13 +30,13 @@ func (t *timeout) Enabled() bool {
 
 // InterruptionTimeout process
 func InterruptionTimeout(duration time.Duration, interruption func(error) error) (result Timeout) {
-	result = &timeout{
+	var t = &timeout{
 		duration:     duration,
 		enabled:      true,
 		interruption: interruption,
 	}
-	go result.(*timeout).interrupt()
-	return
+	t.timer = time.AfterFunc(duration, t.interrupt)
+	return t
 }
 
 // WaitTimeout process. Return true if timedout
@@ -52,9 +53,11 @@ func WaitTimeout(finishing Finishing, duration time.Duration, ocm OCModel) error
 }
 
 func (t *timeout) interrupt() {
-	time.Sleep(t.duration)
-	if t.Enabled() {
-		t.interruption(ErrTimeout)
+	t.mutex.RLock()
+	var interruption = t.interruption
+	t.mutex.RUnlock()
+	if interruption != nil {
+		interruption(ErrTimeout)
 	}
 }
 
@@ -91,4 +94,8 @@ func (t *timeout) Disable() {
 	t.mutex.Lock()
 	defer t.mutex.Unlock()
 	t.enabled = false
+	t.interruption = nil
+	if t.timer != nil {
+		t.timer.Stop()
+	}
 }
-- 
2.43.0


From 6fd66128d3d0cb532e88e6914564c70ba08f70c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:26 +0000
Subject: [PATCH 26/26] fix: results of mcmc depend on the number of CPUs of
 the machine whatever its configuration

---
 mcmc/par.go | 5 +++--
 mcmc/seq.go | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/mcmc/par.go b/mcmc/par.go
index e99bbf2..d1005b5 100644
--- a/mcmc/par.go
+++ b/mcmc/par.go
@@ -22,8 +22,9 @@ type ParStrategy struct {
 // Iterate is the iterative execution
 func (strategy *ParStrategy) Iterate(conf Conf, space core.Space, centroids core.Clust, data []core.Elemt, iter int) (result core.Clust) {
 	var kmeansConf = kmeans.Conf{
-		Par: true,
-		K:   len(centroids),
+		Par:    true,
+		NumCPU: strategy.Degree,
+		K:      len(centroids),
 		CtrlConf: core.CtrlConf{
 			Iter: iter,
 		},
diff --git a/mcmc/seq.go b/mcmc/seq.go
index 9a71ed6..50251f1 100644
--- a/mcmc/seq.go
+++ b/mcmc/seq.go
@@ -34,7 +34,7 @@ func (strategy *SeqStrategy) Iterate(conf Conf, space core.Space, centroids core
 	}
 	core.PrepareConf(&kmeansConf)
 	var model = core.NewSimpleOCModel(&kmeansConf, space, core.NewOCStatus(core.Created), core.RuntimeFigures{}, result)
-	var impl = kmeans.NewParImpl(kmeansConf, centroids.Initializer, data)
+	var impl = kmeans.NewSeqImpl(kmeansConf, centroids.Initializer, data)
 	result, _ = impl.Init(model)
 	for i := 0; i < iter; i++ {
 		model = core.NewSimpleOCModel(&kmeansConf, space, core.NewOCStatus(core.Created), core.RuntimeFigures{}, result)
-- 
2.43.0

