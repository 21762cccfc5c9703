From 9149e532ca8fba55c95520afe1d1818de6cc722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:40 +0000
Subject: [PATCH 01/81] fix: Minkowski distance of 1-feature and of
 non-contiguous vectors

With a single feature |a-b| was returned where |a-b|^p is expected, so every
distance came out as |a-b|^(1/p) and the kd-tree pruned with the wrong bound.
The raw data shortcuts ignored the increment of column vectors.
---
 cluster/distance.go   | 6 +++---
 neighbors/distance.go | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/cluster/distance.go b/cluster/distance.go
index 98ff7ed..4a538dc 100644
--- a/cluster/distance.go
+++ b/cluster/distance.go
@@ -11,12 +11,12 @@ type Distance func(a, b mat.Vector) float64
 
 // MinkowskiDistanceP ...
 func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
-	if a.Len() == 1 {
-		return math.Abs(b.At(0, 0) - a.At(0, 0))
-	}
 	var dp float64
 	rva, isrva := a.(mat.RawVectorer)
 	rvb, isrvb := b.(mat.RawVectorer)
+	// raw data can be walked in parallel only when both vectors are contiguous
+	isrva = isrva && rva.RawVector().Inc == 1
+	isrvb = isrvb && rvb.RawVector().Inc == 1
 	if math.IsInf(p, 1) {
 
 		if isrva && isrvb {
diff --git a/neighbors/distance.go b/neighbors/distance.go
index 9353cc6..a2bd4b4 100644
--- a/neighbors/distance.go
+++ b/neighbors/distance.go
@@ -11,12 +11,12 @@ type Distance func(a, b mat.Vector) float64
 
 // MinkowskiDistanceP ...
 func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
-	if a.Len() == 1 {
-		return math.Abs(b.At(0, 0) - a.At(0, 0))
-	}
 	var dp float64
 	rva, isrva := a.(mat.RawVectorer)
 	rvb, isrvb := b.(mat.RawVectorer)
+	// raw data can be walked in parallel only when both vectors are contiguous
+	isrva = isrva && rva.RawVector().Inc == 1
+	isrvb = isrvb && rvb.RawVector().Inc == 1
 	if math.IsInf(p, 1) {
 
 		if isrva && isrvb {
@@ -63,7 +63,7 @@ func EuclideanDistance(a, b mat.Vector) float64 {
 	var d2 float64
 	avd, avdok := a.(mat.RawVectorer)
 	bvd, bvdok := b.(mat.RawVectorer)
-	if avdok && bvdok {
+	if avdok && bvdok && avd.RawVector().Inc == 1 && bvd.RawVector().Inc == 1 {
 		arv, brv, vb, d := avd.RawVector(), bvd.RawVector(), 0., 0.
 		for j, va := range arv.Data {
 			vb = brv.Data[j]
-- 
2.43.0


From 812b4dd43e397cb17118dab6a815279c4b697f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:37 +0000
Subject: [PATCH 02/81] fix: KDTree construction recursed forever when all
 points of a cell share a coordinate

---
 neighbors/kdtree.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/neighbors/kdtree.go b/neighbors/kdtree.go
index 789091b..bf7a4fa 100644
--- a/neighbors/kdtree.go
+++ b/neighbors/kdtree.go
@@ -244,19 +244,19 @@ func (tr *KDTree) _build(idx []int, maxes, mins []float64) Node {
 	// # sliding midpoint rule; see Maneewongvatana and Mount 1999
 	// # for arguments that this is a good idea.
 	split := (maxval + minval) / 2.
-	lgfill := func(split float64) ([]int, []int) {
+	lgfill := func(split float64, splitIsLess bool) ([]int, []int) {
 		lessIdx, greaterIdx := make([]int, 0), make([]int, 0)
 		for _, idx1 := range idx {
-			if tr.Data.At(idx1, d) <= split {
+			v := tr.Data.At(idx1, d)
+			if v < split || (splitIsLess && v == split) {
 				lessIdx = append(lessIdx, idx1)
-			}
-			if tr.Data.At(idx1, d) > split {
+			} else {
 				greaterIdx = append(greaterIdx, idx1)
 			}
 		}
 		return lessIdx, greaterIdx
 	}
-	lessIdx, greaterIdx := lgfill(split)
+	lessIdx, greaterIdx := lgfill(split, true)
 	if len(lessIdx) == 0 {
 		M := math.Inf(1)
 		for _, i := range idx {
@@ -265,7 +265,7 @@ func (tr *KDTree) _build(idx []int, maxes, mins []float64) Node {
 			}
 		}
 		split = M
-		lessIdx, greaterIdx = lgfill(split)
+		lessIdx, greaterIdx = lgfill(split, true)
 	}
 	if len(greaterIdx) == 0 {
 		M := math.Inf(-1)
@@ -275,13 +275,13 @@ func (tr *KDTree) _build(idx []int, maxes, mins []float64) Node {
 			}
 		}
 		split = M
-		lessIdx, greaterIdx = lgfill(split)
+		lessIdx, greaterIdx = lgfill(split, false)
 	}
-	if len(lessIdx) == 0 {
-		// # _still_ zero? all must have the same value
-		split = tr.Data.At(idx[0], d)
-		lessIdx = _arange(len(idx) - 1)
-		greaterIdx = []int{len(idx) - 1}
+	if len(lessIdx) == 0 || len(greaterIdx) == 0 {
+		// # _still_ zero? all must have the same value: the cell is flat along d
+		maxes, mins = copyFloatSlice(maxes), copyFloatSlice(mins)
+		maxes[d], mins[d] = split, split
+		return tr._build(idx, maxes, mins)
 	}
 	lessmaxes := copyFloatSlice(maxes)
 	lessmaxes[d] = split
-- 
2.43.0


From ffa4ce9ac6fa93d31382f5b78ff890a44871e785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:38 +0000
Subject: [PATCH 03/81] fix: KDTree queries honour the distance bound and mark
 missing neighbors

---
 neighbors/kdtree.go       | 19 +++++++++++++------
 neighbors/unsupervised.go |  3 ++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/neighbors/kdtree.go b/neighbors/kdtree.go
index bf7a4fa..f22acf2 100644
--- a/neighbors/kdtree.go
+++ b/neighbors/kdtree.go
@@ -367,16 +367,15 @@ func (tr *KDTree) _query(X mat.Vector, k int, eps, p float64, distanceUpperBound
 
 			for _, fitSample := range idx {
 				ds := MinkowskiDistanceP(X, tr.Data.RowView(fitSample), p)
-				if ds < distanceUpperBound {
+				if ds < distanceUpperBound || (len(neighbors) < k && ds == distanceUpperBound) {
 					if len(neighbors) == k {
 						nHeappop()
 					}
+					nHeappush(nEle{float64: -ds, int: fitSample})
+					if len(neighbors) == k {
+						distanceUpperBound = -neighbors[0].float64
+					}
 				}
-				nHeappush(nEle{float64: -ds, int: fitSample})
-				if len(neighbors) == k {
-					distanceUpperBound = -neighbors[0].float64
-				}
-
 			}
 
 		} else {
@@ -470,6 +469,14 @@ func (tr *KDTree) _query(X mat.Vector, k int, eps, p float64, distanceUpperBound
 func (tr *KDTree) Query(X mat.Matrix, k int, eps, p, distanceUpperBound float64) (dd, ii *mat.Dense) {
 	NSamples, NFeatures := X.Dims()
 	dd, ii = mat.NewDense(NSamples, k, nil), mat.NewDense(NSamples, k, nil)
+	// missing neighbors have infinite distance and an index past the last sample
+	nData, _ := tr.Data.Dims()
+	for sample := 0; sample < NSamples; sample++ {
+		for ik := 0; ik < k; ik++ {
+			dd.Set(sample, ik, math.Inf(1))
+			ii.Set(sample, ik, float64(nData))
+		}
+	}
 	base.Parallelize(runtime.NumCPU(), NSamples, func(th, start, end int) {
 		XRowViewer, _ := X.(mat.RowViewer)
 		var row []float64
diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index a9cda8c..911de72 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -170,7 +170,8 @@ func (m *NearestNeighbors) RadiusNeighbors(X *mat.Dense, radius float64) (distan
 					}
 
 				}
-				m.Tree._query(X.RowView(sample), NFitSamples, 0, m.P, radius, callback)
+				// prune with a slightly larger radius because points on the boundary are neighbors
+				m.Tree._query(X.RowView(sample), NFitSamples, 0, m.P, radius*(1+1e-9), callback)
 			}
 		})
 	}
-- 
2.43.0


From 2bffe899bc5082960777aa184d4e1e2a0fd7d227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:38 +0000
Subject: [PATCH 04/81] fix: NearestNeighbors metrics l1, l2 and cosine, and
 refit without a tree

---
 neighbors/distance.go     | 15 +++++++++++++++
 neighbors/unsupervised.go |  9 ++++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/neighbors/distance.go b/neighbors/distance.go
index a2bd4b4..6406acf 100644
--- a/neighbors/distance.go
+++ b/neighbors/distance.go
@@ -79,3 +79,18 @@ func EuclideanDistance(a, b mat.Vector) float64 {
 	}
 	return math.Sqrt(d2)
 }
+
+// CosineDistance is 1 minus the cosine of the angle between a and b. a null vector is at distance 1 of any vector
+func CosineDistance(a, b mat.Vector) float64 {
+	var ab, aa, bb float64
+	for j := 0; j < a.Len(); j++ {
+		va, vb := a.AtVec(j), b.AtVec(j)
+		ab += va * vb
+		aa += va * va
+		bb += vb * vb
+	}
+	if aa == 0 || bb == 0 {
+		return 1
+	}
+	return math.Max(0, 1-ab/math.Sqrt(aa)/math.Sqrt(bb))
+}
diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index 911de72..4def553 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -38,12 +38,14 @@ func NewNearestNeighbors() *NearestNeighbors {
 func (m *NearestNeighbors) Fit(X, Y mat.Matrix) {
 	r, c := X.Dims()
 	switch m.Metric {
-	case "manhattan", "cityblock":
+	case "manhattan", "cityblock", "l1":
 		m.P = 1
 		m.Distance = MinkowskiDistance(m.P)
-	case "euclidean":
+	case "euclidean", "l2":
 		m.P = 2
 		m.Distance = MinkowskiDistance(m.P)
+	case "cosine":
+		m.Distance = CosineDistance
 	default:
 		m.Distance = MinkowskiDistance(m.P)
 	}
@@ -52,7 +54,8 @@ func (m *NearestNeighbors) Fit(X, Y mat.Matrix) {
 	}
 	m.X = mat.DenseCopyOf(X)
 	useKDTree := strings.Contains(strings.ToLower(m.Algorithm), "tree") || (m.Algorithm == "auto" && r*c > 1000)
-	if useKDTree {
+	m.Tree = nil
+	if useKDTree && m.Metric != "cosine" {
 		if m.LeafSize <= 0 {
 			m.LeafSize = 30
 		}
-- 
2.43.0


From 4b8926b471c6a6efdfb6e076b9f73a4f9ccef331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:39 +0000
Subject: [PATCH 05/81] fix: KNeighborsGraph distance mode used distances as
 indices

---
 neighbors/unsupervised.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index 4def553..5972dee 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -107,22 +107,18 @@ func (m *NearestNeighbors) KNeighborsGraph(X *mat.Dense, NNeighbors int, mode st
 	NSamplesFit, _ := m.X.Dims()
 	distances, indices := m.KNeighbors(X, NNeighbors)
 	graph = mat.NewDense(NSamples, NSamplesFit, nil)
-	var source *mat.Dense
-
-	switch mode {
-	case "connectivity":
-		source = indices
-	default:
-		source = distances
-	}
 	base.Parallelize(m.NJobs, NSamples, func(th, start, end int) {
 		for sample := start; sample < end; sample++ {
 			for ik := 0; ik < NNeighbors; ik++ {
-				index := int(source.At(sample, ik))
+				index := int(indices.At(sample, ik))
 				if sample == index && !includeSelf {
 					continue
 				}
-				graph.Set(sample, index, 1.)
+				if mode == "connectivity" {
+					graph.Set(sample, index, 1.)
+				} else {
+					graph.Set(sample, index, distances.At(sample, ik))
+				}
 			}
 		}
 	})
-- 
2.43.0


From 81dcb352afca88d9e1dc8b1e0b777409891b032b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:40 +0000
Subject: [PATCH 06/81] fix: KNeighborsClassifier ties, probabilities of absent
 classes, class counts and cloning

---
 neighbors/classification.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index dfa9770..06f1808 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -32,11 +32,20 @@ func NewKNeighborsClassifier(K int, Weights string) *KNeighborsClassifier {
 	return &KNeighborsClassifier{NearestNeighbors: *NewNearestNeighbors(), K: K, Weight: Weights}
 }
 
+// PredicterClone return a (possibly unfitted) copy of predicter
+func (m *KNeighborsClassifier) PredicterClone() base.Predicter {
+	clone := *m
+	return &clone
+}
+
+// IsClassifier returns true for KNeighborsClassifier
+func (*KNeighborsClassifier) IsClassifier() bool { return true }
+
 // Fit ...
 func (m *KNeighborsClassifier) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
 	m.Xscaled = mat.DenseCopyOf(X)
-	m.Y = Y
+	m.Y = mat.DenseCopyOf(Y)
 	m.nOutputs = Y.RawMatrix().Cols
 	if m.Distance == nil {
 		m.Distance = EuclideanDistance
@@ -125,17 +134,16 @@ func (m *KNeighborsClassifier) _predict(X, Y *mat.Dense, wantProba bool) *KNeigh
 					}
 				}
 				wmax, clwmax := 0., 0.
-				for cl, w := range classw {
-					if w > wmax {
+				// classes are sorted: the smallest class wins when weights are equal
+				for _, cl := range m.Classes[o] {
+					if w := classw[cl]; w > wmax {
 						wmax = w
 						clwmax = cl
 					}
 				}
 				if wantProba {
 					for icl, cl := range m.Classes[0] {
-						if clw, found := classw[cl]; found {
-							Y.Set(sample, icl, clw/sumweights)
-						}
+						Y.Set(sample, icl, classw[cl]/sumweights)
 					}
 				} else {
 					Y.Set(sample, o, clwmax)
@@ -173,9 +181,11 @@ func getClasses(Y mat.Matrix) (classes [][]float64, counts [][]int) {
 		clcounts := make([]int, 0)
 		for cl := range clmap {
 			clvalues = append(clvalues, cl)
-			clcounts = append(clcounts, clcnt[cl])
 		}
 		sort.Float64s(clvalues)
+		for _, cl := range clvalues {
+			clcounts = append(clcounts, clcnt[cl])
+		}
 		classes = append(classes, clvalues)
 		counts = append(counts, clcounts)
 	}
-- 
2.43.0


From 819d86e28aad068a5cd679501de11671347ea4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:41 +0000
Subject: [PATCH 07/81] fix: NearestCentroid ignored its metric, took the
 median of unsorted values and left Centroids nil

---
 neighbors/nearest_centroid.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/neighbors/nearest_centroid.go b/neighbors/nearest_centroid.go
index e7c5aa0..884752b 100644
--- a/neighbors/nearest_centroid.go
+++ b/neighbors/nearest_centroid.go
@@ -2,6 +2,7 @@ package neighbors
 
 import (
 	"runtime"
+	"sort"
 
 	"github.com/pa-m/sklearn/base"
 	"github.com/pa-m/sklearn/metrics"
@@ -30,6 +31,18 @@ func NewNearestCentroid(metric string, shrinkThreshold float64) *NearestCentroid
 	return &NearestCentroid{Metric: metric, ShrinkThreshold: shrinkThreshold}
 }
 
+// PredicterClone return a (possibly unfitted) copy of predicter
+func (m *NearestCentroid) PredicterClone() base.Predicter {
+	clone := *m
+	return &clone
+}
+
+// IsClassifier returns true for NearestCentroid
+func (*NearestCentroid) IsClassifier() bool { return true }
+
+// GetNOutputs returns output columns number for Y to pass to predict
+func (*NearestCentroid) GetNOutputs() int { return 1 }
+
 // Fit ...
 func (m *NearestCentroid) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
@@ -58,13 +71,17 @@ func (m *NearestCentroid) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 				}
 			}
 			if useMedian {
-				centroidXfeat = stat.Quantile(.5, stat.Empirical, col[0:rows], nil)
+				sort.Float64s(col[0:rows])
+				centroidXfeat = (col[(rows-1)/2] + col[rows/2]) / 2
 			} else {
 				centroidXfeat = stat.Mean(col[0:rows], nil)
 			}
 			Centroids.Set(icl, feature, centroidXfeat)
 		}
 	})
+	m.Centroids = Centroids
+	m.NearestNeighbors = *NewNearestNeighbors()
+	m.NearestNeighbors.Metric = m.Metric
 	m.NearestNeighbors.Fit(Centroids, mat.Matrix(nil))
 	return m
 }
-- 
2.43.0


From 06eacf57fc388146acec4b6619250a1afc9eb1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:59 +0000
Subject: [PATCH 08/81] fix: DBSCAN core samples (MinSamples inclusive, reset
 on refit), P and caller's config

---
 cluster/dbscan.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cluster/dbscan.go b/cluster/dbscan.go
index bdebd83..cf0f213 100644
--- a/cluster/dbscan.go
+++ b/cluster/dbscan.go
@@ -36,6 +36,10 @@ type DBSCAN struct {
 func NewDBSCAN(config *DBSCANConfig) *DBSCAN {
 	if config == nil {
 		config = &DBSCANConfig{}
+	} else {
+		// leave the caller's config as it is
+		cfg := *config
+		config = &cfg
 	}
 	if config.Eps <= 0 {
 		config.Eps = 0.5
@@ -83,7 +87,7 @@ func (m *DBSCAN) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X := base.ToDense(Xmatrix)
 	m.NeighborsModel = neighbors.NewNearestNeighbors()
 	m.NeighborsModel.Algorithm = m.Algorithm
-	m.NeighborsModel.Distance = MinkowskiDistance(m.P)
+	m.NeighborsModel.P = m.P
 	m.NeighborsModel.Metric = m.Metric
 	m.NeighborsModel.NJobs = m.NJobs
 	m.NeighborsModel.LeafSize = m.LeafSize
@@ -112,8 +116,9 @@ func (m *DBSCAN) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	}
 	// # A list of all core samples found.
 	isCore := make([]bool, NSamples)
+	m.CoreSampleIndices = nil
 	for sample := range NNeighbors {
-		if NNeighbors[sample] > m.MinSamples {
+		if NNeighbors[sample] >= m.MinSamples {
 			isCore[sample] = true
 			m.CoreSampleIndices = append(m.CoreSampleIndices, sample)
 		}
-- 
2.43.0


From 7a40c95c353488c9aea36f55465673a18c6c8d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:00 +0000
Subject: [PATCH 09/81] fix: KMeans moved the centroid of an empty cluster to
 the origin and summed in scheduling order

---
 cluster/kmeans.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/cluster/kmeans.go b/cluster/kmeans.go
index c92be35..8d93089 100644
--- a/cluster/kmeans.go
+++ b/cluster/kmeans.go
@@ -79,19 +79,20 @@ func (m *KMeans) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		// find nearest centroids
 		m.predict(X, NearestCentroid, CentroidCount, &changed)
 		// recompute centroids
-		m.Centroids.Sub(m.Centroids, m.Centroids)
-		var mu sync.Mutex // mu locks m.Centroids modifications
-		base.Parallelize(m.NJobs, NSamples, func(th, start, end int) {
-			row := make([]float64, NFeatures)
-			for sample := start; sample < end; sample++ {
-				ic := NearestCentroid[sample]
-				mu.Lock()
-				c := m.Centroids.RowView(ic)
-				mat.Row(row, sample, X)
-				c.(*mat.VecDense).AddScaledVec(c, 1./float64(CentroidCount[ic]), mat.NewVecDense(NFeatures, row))
-				mu.Unlock()
+		for ic, count := range CentroidCount {
+			// the centroid of an empty cluster stays where it is
+			if count > 0 {
+				c := m.Centroids.RowView(ic).(*mat.VecDense)
+				c.ScaleVec(0, c)
 			}
-		})
+		}
+		// samples are summed in order so that the result doesn't depend on scheduling
+		for sample := 0; sample < NSamples; sample++ {
+			ic := NearestCentroid[sample]
+			c := m.Centroids.RowView(ic).(*mat.VecDense)
+			mat.Row(row, sample, X)
+			c.AddScaledVec(c, 1./float64(CentroidCount[ic]), mat.NewVecDense(NFeatures, row))
+		}
 		if changed {
 			unchangeCount = 0
 		} else {
-- 
2.43.0


From d84b45059f8532264f39dc806ad78312e0df5a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:49 +0000
Subject: [PATCH 10/81] fix: Rectangle.Split swapped the bounds of both halves

---
 neighbors/kdtree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neighbors/kdtree.go b/neighbors/kdtree.go
index f22acf2..23c4d2d 100644
--- a/neighbors/kdtree.go
+++ b/neighbors/kdtree.go
@@ -55,10 +55,10 @@ func (r *Rectangle) Split(d int, split float64) (less, greater *Rectangle) {
 	cp := copyFloatSlice
 	mid := cp(r.Maxes)
 	mid[d] = split
-	less = NewRectangle(r.Mins, mid)
+	less = NewRectangle(mid, cp(r.Mins))
 	mid = cp(r.Mins)
 	mid[d] = split
-	greater = NewRectangle(mid, r.Maxes)
+	greater = NewRectangle(cp(r.Maxes), mid)
 	return less, greater
 }
 
-- 
2.43.0


From 9dc2d4b0c8173421e00f3230ca45899d7a21a8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 11/81] fix: MinMaxScaler wrote into the fitted matrix and into
 the state of its clones

---
 preprocessing/data.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index ade9f73..0e83b0a 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -64,20 +64,23 @@ func (scaler *MinMaxScaler) PartialFit(Xmatrix, Ymatrix mat.Matrix) Transformer
 		return scaler
 	}
 	if scaler.NSamplesSeen == 0 {
-		scaler.DataRange = mat.NewDense(1, nFeatures, nil)
-		scaler.DataMin = mat.NewDense(1, nFeatures, nil)
-		scaler.DataMax = mat.NewDense(1, nFeatures, nil)
-		scaler.Min = mat.NewDense(1, nFeatures, nil)
-		scaler.Scale = mat.NewDense(1, nFeatures, nil)
-
-		scaler.DataMin.CloneFrom(X.RowView(0).T())
-		scaler.DataMax.CloneFrom(X.RowView(0).T())
+		scaler.DataMin = mat.DenseCopyOf(X.RowView(0).T())
+		scaler.DataMax = mat.DenseCopyOf(X.RowView(0).T())
+	} else {
+		// the current matrices may be shared with clones
+		scaler.DataMin = mat.DenseCopyOf(scaler.DataMin)
+		scaler.DataMax = mat.DenseCopyOf(scaler.DataMax)
+	}
+	scaler.DataRange = mat.NewDense(1, nFeatures, nil)
+	scaler.Min = mat.NewDense(1, nFeatures, nil)
+	scaler.Scale = mat.NewDense(1, nFeatures, nil)
+	for i := 0; i < nSamples; i++ {
+		for j := 0; j < nFeatures; j++ {
+			x := X.At(i, j)
+			scaler.DataMin.Set(0, j, math.Min(scaler.DataMin.At(0, j), x))
+			scaler.DataMax.Set(0, j, math.Max(scaler.DataMax.At(0, j), x))
+		}
 	}
-	X.Apply(func(i int, j int, x float64) float64 {
-		scaler.DataMin.Set(0, j, math.Min(scaler.DataMin.At(0, j), x))
-		scaler.DataMax.Set(0, j, math.Max(scaler.DataMax.At(0, j), x))
-		return x
-	}, X)
 	scaler.NSamplesSeen += nSamples
 	// dataRange = dataMax - dataMin
 	scaler.DataRange.Sub(scaler.DataMax, scaler.DataMin)
-- 
2.43.0


From d01431a8b3618dbcd2ee05f7f6ab67bac4aa4282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:05 +0000
Subject: [PATCH 12/81] fix: StandardScaler incremental variance, constant
 features and clones

---
 preprocessing/data.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 0e83b0a..198a61a 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -171,12 +171,13 @@ func (scaler *StandardScaler) PartialFit(X, Y *mat.Dense) Transformer {
 	if scaler.NSamplesSeen == 0 {
 		scaler.Var = mat.NewDense(1, nFeatures, nil)
 		scaler.Mean = mat.NewDense(1, nFeatures, nil)
-		scaler.Scale = mat.NewDense(1, nFeatures, nil)
-
 	}
 	scaler.Mean, scaler.Var, scaler.NSamplesSeen = IncrementalMeanAndVar(X, scaler.Mean, scaler.Var, scaler.NSamplesSeen)
+	scaler.Scale = mat.NewDense(1, nFeatures, nil)
 	scaler.Scale.Apply(func(i int, j int, vj float64) float64 {
-		if vj == 0. {
+		// the computed variance of a constant feature may be a rounding error of its mean
+		n, eps := float64(scaler.NSamplesSeen), 2.220446049250313e-16
+		if roundoff := n * scaler.Mean.At(0, j) * eps; vj <= n*eps*vj+roundoff*roundoff {
 			vj = 1.
 		}
 		return math.Sqrt(vj)
@@ -525,8 +526,8 @@ func IncrementalMeanAndVar(X, lastMean, lastVariance *mat.Dense,
 		//     (lastSum / lastOverNewCount - newSum) ** 2)
 		tmp.CloneFrom(lastSum)
 		tmp.Scale(1./lastOverNewCount, tmp)
-		tmp.Add(tmp, newSum)
-		tmp.Mul(tmp, tmp)
+		tmp.Sub(tmp, newSum)
+		tmp.MulElem(tmp, tmp)
 		tmp.Scale(lastOverNewCount/float(updatedSampleCount), tmp)
 
 		updatedUnnormalizedVariance.CloneFrom(lastUnnormalizedVariance)
-- 
2.43.0


From c1f76c228526137d4d39de2cd15045cb5c1da908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:06 +0000
Subject: [PATCH 13/81] fix: MeanStdDev and NumpyLike.Var divided by the number
 of columns, DenseMean added to the previous content

---
 preprocessing/data.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 198a61a..a33b4a5 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -252,7 +252,10 @@ func MeanStdDev(X mat.Matrix) (mean, std *mat.Dense) {
 			mat.Col(tmp, col, X)
 			meancol, stdcol := stat.MeanStdDev(tmp, nil)
 			mean.Set(0, col, meancol)
-			std.Set(0, col, stdcol*float64(n-1)/float64(n))
+			if m == 1 {
+				stdcol = 0
+			}
+			std.Set(0, col, stdcol*math.Sqrt(float64(m-1)/float64(m)))
 		}
 	})
 
@@ -288,7 +291,7 @@ func (NumpyLike) Var(X mat.Matrix) *mat.Dense {
 			mat.Col(tmp, col, X)
 			floats.AddConst(-mean.At(0, col), tmp)
 			floats.Mul(tmp, tmp)
-			variance.Set(0, col, floats.Sum(tmp)/float64(n))
+			variance.Set(0, col, floats.Sum(tmp)/float64(m))
 		}
 	})
 	return variance
@@ -660,7 +663,8 @@ func DenseMean(Xmean *mat.Dense, X mat.Matrix) *mat.Dense {
 	if Xmean == nil {
 		Xmean = mat.NewDense(1, nFeatures, nil)
 	}
-	Xmean.Apply(func(i int, j int, v float64) float64 {
+	Xmean.Apply(func(i int, j int, _ float64) float64 {
+		v := 0.
 		for i := 0; i < nSamples; i++ {
 			v += X.At(i, j)
 		}
@@ -1372,6 +1376,11 @@ func (m *PowerTransformer) InverseTransform(X, Y mat.Matrix) (Xout, Yout *mat.De
 	return
 }
 
+// sumOfSquaredDeviations is len(x) times the variance of x
+func sumOfSquaredDeviations(x []float64) float64 {
+	return NumpyLike{}.Var(mat.NewDense(len(x), 1, x)).At(0, 0) * float64(len(x))
+}
+
 // yeoJohnsonOptimize Find and return optimal lambda parameter of the Yeo-Johnson
 // transform by MLE, for observed data x.
 // Like for Box-Cox, MLE is done via the brent optimizer.
@@ -1390,7 +1399,7 @@ func yeoJohnsonOptimize(x []float64) float64 {
 			sumlog1p += tmp
 		}
 		yeoJohnsonTransform(xTrans, x, lmbda)
-		loglike := -float64(nSamples)/2*math.Log(NumpyLike{}.Var(mat.NewDense(nSamples, 1, xTrans)).At(0, 0)) +
+		loglike := -float64(nSamples)/2*math.Log(sumOfSquaredDeviations(xTrans)) +
 			(lmbda-1)*sumlog1p
 		return -loglike
 	}
@@ -1487,7 +1496,7 @@ func boxCoxOptimize(x []float64) float64 {
 			sumlog += math.Log(xi)
 		}
 		boxCoxTransform(xTrans, x, lmbda)
-		loglike := -float64(nSamples)/2*math.Log(NumpyLike{}.Var(mat.NewDense(nSamples, 1, xTrans)).At(0, 0)) +
+		loglike := -float64(nSamples)/2*math.Log(sumOfSquaredDeviations(xTrans)) +
 			(lmbda-1)*sumlog
 		return -loglike
 	}
-- 
2.43.0


From f24f127b3aa1234eb633eaed375e54188d9f479f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:08 +0000
Subject: [PATCH 14/81] fix: RobustScaler reused buffers of the previous fit

---
 preprocessing/data.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index a33b4a5..43bac09 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -369,15 +369,13 @@ func (scaler *RobustScaler) PartialFit(Xmatrix, Ymatrix mat.Matrix) Transformer
 	if nSamples == 0 {
 		return scaler
 	}
-	if scaler.Center && (scaler.Median == nil) {
+	if scaler.Center {
 		scaler.Median = mat.NewDense(1, nFeatures, nil)
 	}
-	if scaler.Scale && (scaler.QuantileDivider == nil) {
+	if scaler.Scale {
 		scaler.QuantileDivider = mat.NewDense(1, nFeatures, nil)
 	}
-	if scaler.Tmp == nil {
-		scaler.Tmp = mat.NewDense(1, nSamples, nil)
-	}
+	scaler.Tmp = mat.NewDense(1, nSamples, nil)
 
 	for c := 0; c < nFeatures; c++ {
 		for r := 0; r < nSamples; r++ {
-- 
2.43.0


From 2aae707aaa8738b45119ceb8452e5af7f86bf6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:09 +0000
Subject: [PATCH 15/81] fix: OneHotEncoder inverse returns values, unknown
 values are not the first category; PolynomialFeatures inverse keeps Y

---
 preprocessing/data.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 43bac09..3184066 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -652,6 +652,7 @@ func (poly *PolynomialFeatures) InverseTransform(X, Y *mat.Dense) (Xout, Yout *m
 			Xout.Set(i, pair.jorig, X.At(i, pair.jpoly))
 		}
 	}
+	Yout = Y
 	return
 }
 
@@ -760,7 +761,9 @@ func (m *OneHotEncoder) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 		for sample := 0; sample < NSamples; sample++ {
 			v := X.At(sample, feature)
 			//fmt.Printf("sample %d feature %d baseColumn %d nClasses %d y %g min:%d yint %d\n", sample, feature, baseColumn, m.NumClasses[feature], Y.At(sample, feature), m.Min[feature], yint)
-			Xout.Set(sample, baseColumn+cmap[v], 1.)
+			if ival, known := cmap[v]; known {
+				Xout.Set(sample, baseColumn+ival, 1.)
+			}
 		}
 		baseColumn += m.NValues[feature]
 	}
@@ -775,6 +778,9 @@ func (m *OneHotEncoder) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 // InverseTransform compute Yout classes from one hot encoded format
 func (m *OneHotEncoder) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
+	if X == nil {
+		return X, Y
+	}
 	nSamples, _ := X.Dims()
 	nFeatures := len(m.NValues)
 	Yout = Y
@@ -784,7 +790,7 @@ func (m *OneHotEncoder) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense
 		cstart, cend := m.FeatureIndices[feature], m.FeatureIndices[feature+1]
 		for sample := 0; sample < nSamples; sample++ {
 			classNo := floats.MaxIdx(X.RawRowView(sample)[cstart:cend])
-			Xout.Set(sample, feature, float64(classNo))
+			Xout.Set(sample, feature, m.Values[feature][classNo])
 		}
 	}
 	return
-- 
2.43.0


From e326b284906f2e1cc8256f470591f91777b2df08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:10 +0000
Subject: [PATCH 16/81] fix: Shuffler.InverseTransform worked in place beyond
 the columns of its arguments, and nil Y panicked

---
 preprocessing/data.go | 60 +++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 34 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 3184066..c9922d3 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -825,28 +825,34 @@ func (m *Shuffler) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 
 // Transform for Shuffler
 func (m *Shuffler) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
-	Xout, Yout = mat.DenseCopyOf(X), mat.DenseCopyOf(Y)
-	xmat, ymat := Xout.RawMatrix(), Yout.RawMatrix()
-	var dstxpos, dstypos, j int
-	var v float64
-	for i, srcxpos, srcypos := 0, 0, 0; i < len(m.Perm); i, srcxpos, srcypos = i+1, srcxpos+xmat.Stride, srcypos+ymat.Stride {
+	Xout, Yout = copyDense(base.ToDense(X)), copyDense(base.ToDense(Y))
+	for i := 0; i < len(m.Perm); i++ {
 		if m.Perm[i] > i {
-			dstxpos, dstypos = m.Perm[i]*xmat.Stride, m.Perm[i]*ymat.Stride
-			for j = 0; j < xmat.Cols; j++ {
-				v = xmat.Data[srcxpos+j]
-				xmat.Data[srcxpos+j] = xmat.Data[dstxpos+j]
-				xmat.Data[dstxpos+j] = v
-			}
-			for j = 0; j < ymat.Cols; j++ {
-				v = ymat.Data[srcypos+j]
-				ymat.Data[srcypos+j] = ymat.Data[dstypos+j]
-				ymat.Data[dstypos+j] = v
-			}
+			swapRows(Xout, i, m.Perm[i])
+			swapRows(Yout, i, m.Perm[i])
 		}
 	}
 	return
 }
 
+func copyDense(M *mat.Dense) *mat.Dense {
+	if M == nil || M.IsEmpty() {
+		return &mat.Dense{}
+	}
+	return mat.DenseCopyOf(M)
+}
+
+func swapRows(M *mat.Dense, i1, i2 int) {
+	if M.IsEmpty() {
+		return
+	}
+	row1, row2 := M.RawRowView(i1), M.RawRowView(i2)
+	for j, v := range row1 {
+		row1[j] = row2[j]
+		row2[j] = v
+	}
+}
+
 // FitTransform fit to dat, then transform it
 func (m *Shuffler) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	m.Fit(X, Y)
@@ -855,28 +861,14 @@ func (m *Shuffler) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 // InverseTransform for Shuffler
 func (m *Shuffler) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
-	xmat, ymat := X.RawMatrix(), Y.RawMatrix()
-	var srcxpos, srcypos, dstxpos, dstypos, j int
-	var v float64
+	Xout, Yout = copyDense(X), copyDense(Y)
 	for i := len(m.Perm) - 1; i >= 0; i-- {
 		if m.Perm[i] > i {
-			srcxpos, dstxpos = m.Perm[i]*xmat.Stride, i*xmat.Stride
-			srcypos, dstypos = m.Perm[i]*ymat.Stride, i*ymat.Stride
-			for j = 0; j < xmat.Stride; j++ {
-				v = xmat.Data[srcxpos+j]
-				xmat.Data[srcxpos+j] = xmat.Data[dstxpos+j]
-				xmat.Data[dstxpos+j] = v
-			}
-			for j = 0; j < ymat.Stride; j++ {
-				v := ymat.Data[srcypos+j]
-				ymat.Data[srcypos+j] = ymat.Data[dstypos+j]
-				ymat.Data[dstypos+j] = v
-			}
-
+			swapRows(Xout, i, m.Perm[i])
+			swapRows(Yout, i, m.Perm[i])
 		}
 	}
-
-	return X, Y
+	return
 }
 
 // Binarizer Binarize data (set feature values to 0 or 1) according to a threshold
-- 
2.43.0


From 5380e0f8716ff0f20aa41df679bad9843e398ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:11 +0000
Subject: [PATCH 17/81] fix: Binarizer of a matrix view

---
 preprocessing/data.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index c9922d3..6f06488 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -894,13 +894,13 @@ func (m *Binarizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	Xout = mat.NewDense(rmx.Rows, rmx.Cols, nil)
 	rmXout := Xout.RawMatrix()
 	Yout = base.ToDense(Y)
-	for r, xpos := 0, 0; r < rmx.Rows; r, xpos = r+1, xpos+rmx.Stride {
+	for r, xpos, xoutpos := 0, 0, 0; r < rmx.Rows; r, xpos, xoutpos = r+1, xpos+rmx.Stride, xoutpos+rmXout.Stride {
 		for c := 0; c < rmx.Cols; c++ {
 
 			if rmx.Data[xpos+c] > m.Threshold {
-				rmXout.Data[xpos+c] = 1
+				rmXout.Data[xoutpos+c] = 1
 			} else {
-				rmXout.Data[xpos+c] = 0
+				rmXout.Data[xoutpos+c] = 0
 			}
 		}
 	}
-- 
2.43.0


From 7b9189d25bc84d5cf7ec840a304840f4fdc95529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:12 +0000
Subject: [PATCH 18/81] fix: MaxAbsScaler sample count on refit, PartialFit
 before Fit, clones

---
 preprocessing/data.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 6f06488..2900dc2 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -931,15 +931,20 @@ func (m *MaxAbsScaler) TransformerClone() base.Transformer {
 // Fit for MaxAbsScaler ...
 func (m *MaxAbsScaler) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
-	Xmat := X.RawMatrix()
-	m.MaxAbs = make([]float64, Xmat.Cols)
-	m.Scale = make([]float64, Xmat.Cols)
+	m.NSamplesSeen = 0
 	return m.PartialFit(X, Y)
 }
 
 // PartialFit for MaxAbsScaler ...
 func (m *MaxAbsScaler) PartialFit(X, Y *mat.Dense) base.Transformer {
 	Xmat := X.RawMatrix()
+	// the current slices may be shared with clones
+	maxAbs := make([]float64, Xmat.Cols)
+	if m.NSamplesSeen > 0 {
+		copy(maxAbs, m.MaxAbs)
+	}
+	m.MaxAbs = maxAbs
+	m.Scale = make([]float64, Xmat.Cols)
 	for jX := 0; jX < Xmat.Rows*Xmat.Stride; jX = jX + Xmat.Stride {
 		for i, v := range Xmat.Data[jX : jX+Xmat.Cols] {
 			if v < 0. {
@@ -983,6 +988,9 @@ func (m *MaxAbsScaler) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 // InverseTransform for MaxAbsScaler ...
 func (m *MaxAbsScaler) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
+	if X == nil {
+		return X, Y
+	}
 	Xmat := X.RawMatrix()
 	Xout = mat.NewDense(Xmat.Rows, Xmat.Cols, nil)
 	Xoutmat := Xout.RawMatrix()
-- 
2.43.0


From f66a3ad8b705b190499f441441b5f479bc72f471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:13 +0000
Subject: [PATCH 19/81] fix: Normalizer of non square matrices and its inverse,
 KernelCenterer of non square matrices

---
 preprocessing/data.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 2900dc2..7314d1e 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1053,7 +1053,7 @@ func (m *Normalizer) Transform(Xmatrix, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 		m.nrmValues = make([]float64, NSamples)
 		for i := 0; i < NSamples; i++ {
 			mat.Row(tmp, i, X)
-			nrm := mat.Norm(mat.NewVecDense(NSamples, tmp), norm)
+			nrm := mat.Norm(mat.NewVecDense(NFeatures, tmp), norm)
 			m.nrmValues[i] = nrm
 			if nrm != 0 {
 				floats.Scale(1/nrm, tmp)
@@ -1073,7 +1073,11 @@ func (m *Normalizer) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 // InverseTransform for Normalizer ...
 func (m *Normalizer) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
+	if X == nil {
+		return X, Y
+	}
 	NSamples, NFeatures := X.Dims()
+	Xout, Yout = mat.NewDense(NSamples, NFeatures, nil), Y
 	if m.Axis == 0 {
 		tmp := make([]float64, NSamples)
 		for i := 0; i < NFeatures; i++ {
@@ -1139,7 +1143,7 @@ func (m *KernelCenterer) Transform(Xmatrix, Y mat.Matrix) (Xout, Yout *mat.Dense
 		}
 	})
 	Xmat := X.RawMatrix()
-	Xout = mat.NewDense(Xmat.Cols, Xmat.Cols, nil)
+	Xout = mat.NewDense(Xmat.Rows, Xmat.Cols, nil)
 	Xoutmat := Xout.RawMatrix()
 	for j, jX, jXout := 0, 0, 0; j < Xmat.Rows; j, jX, jXout = j+1, jX+Xmat.Stride, jXout+Xoutmat.Stride {
 		for i, v := range Xmat.Data[jX : jX+Xmat.Cols] {
-- 
2.43.0


From 8a17ff3058458c6a8522970cb45669987e243d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:14 +0000
Subject: [PATCH 20/81] fix: QuantileTransformer of unsorted data, of values
 out of range, of repeated values and of more features than quantiles

---
 preprocessing/data.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 7314d1e..b079cd7 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1186,6 +1186,7 @@ func (m *QuantileTransformer) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	}
 	for feature := 0; feature < nFeatures; feature++ {
 		values := XT.RawRowView(feature)
+		sort.Float64s(values)
 		quantiles := Q.RawRowView(feature)
 		for i := range m.references {
 			realSample := float64(i) / float64(m.NQuantiles-1) * float64(nSamples-1)
@@ -1208,13 +1209,26 @@ func (m *QuantileTransformer) Transform(Xmatrix, Ymatrix mat.Matrix) (Xout, Yout
 	nSamples, nFeatures := X.Dims()
 	eps := 1e-7
 	Xout = mat.NewDense(nSamples, nFeatures, nil)
-	for c := 0; c < nFeatures && c < len(m.references); c++ {
+	lo, hi := m.references[0]+eps, m.references[m.NQuantiles-1]-eps
+	for c := 0; c < nFeatures; c++ {
+		for i := 0; i < nSamples; i++ {
+			// values out of the fitted range are mapped to the bounds of the output
+			if X.At(i, c) < m.Quantiles.At(0, c) {
+				Xout.Set(i, c, lo)
+			} else {
+				Xout.Set(i, c, hi)
+			}
+		}
 		for q := m.NQuantiles - 2; q >= 0; q-- {
 			x0, x1 := m.Quantiles.At(q, c), m.Quantiles.At(q+1, c)
 			for i := 0; i < nSamples; i++ {
 				x := X.At(i, c)
 				if x >= x0 && x <= x1 {
-					Xout.Set(i, c, math.Min(m.references[m.NQuantiles-1]-eps, math.Max(m.references[0]+eps, m.references[q]+(x-x0)/(x1-x0)*(m.references[q+1]-m.references[q]))))
+					p := 0.
+					if x1 > x0 {
+						p = (x - x0) / (x1 - x0)
+					}
+					Xout.Set(i, c, math.Min(hi, math.Max(lo, m.references[q]+p*(m.references[q+1]-m.references[q]))))
 				}
 			}
 		}
-- 
2.43.0


From d1cc591f2bf548f4e93a6d9ae392e01849d9be87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:16 +0000
Subject: [PATCH 21/81] fix: PowerTransformer overwrote its input, lost lambda
 0 and the box-cox inverse of negative values

---
 preprocessing/data.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index b079cd7..5bf773a 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1320,7 +1320,7 @@ func (m *PowerTransformer) fit(X, Y mat.Matrix, forceTransform bool) (Xout *mat.
 // Transform apply the power transform to each feature using the fitted lambdas
 func (m *PowerTransformer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	nSamples, nFeatures := X.Dims()
-	Xout = base.ToDense(X)
+	Xout = mat.NewDense(nSamples, nFeatures, nil)
 	Yout = base.ToDense(Y)
 	var transformFunc func(out, x []float64, lmbda float64)
 	switch m.Method {
@@ -1437,7 +1437,7 @@ func yeoJohnsonOptimize(x []float64) float64 {
 
 // yeoJohnsonTransform returns in out transformed input x following Yeo-Johnson transform with parameter lambda
 func yeoJohnsonTransform(out, x []float64, lmbda float64) {
-	spacing := math.Nextafter(1, 1) - 1
+	spacing := math.Nextafter(1, 2) - 1
 
 	//# when x >= 0
 	if math.Abs(lmbda) < spacing {
@@ -1472,7 +1472,7 @@ func yeoJohnsonTransform(out, x []float64, lmbda float64) {
 
 // yeoJohnsonInverseTransform returns inverse-transformed input x following Yeo-Johnson inverse transform with parameter lambda
 func yeoJohnsonInverseTransform(xinv, x []float64, lmbda float64) {
-	spacing := math.Nextafter(1, 1) - 1
+	spacing := math.Nextafter(1, 2) - 1
 	abs := math.Abs
 	exp := math.Exp
 	power := math.Pow
@@ -1550,10 +1550,6 @@ func boxCoxInverseTransform(out, x []float64, lmbda float64) {
 		f = math.Exp
 	}
 	for pos, xi := range x {
-		if xi > 0 || (xi >= 0 && lmbda > 0) {
-			out[pos] = f(xi)
-		} else {
-			out[pos] = math.NaN()
-		}
+		out[pos] = f(xi)
 	}
 }
-- 
2.43.0


From 5e8fd8323a9526109ff91145c88479f6a2bf8a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:05 +0000
Subject: [PATCH 22/81] fix: PCA of fewer samples than features, inverse with
 fewer components, refit and clones

---
 preprocessing/pca.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/preprocessing/pca.go b/preprocessing/pca.go
index 067575b..d260199 100644
--- a/preprocessing/pca.go
+++ b/preprocessing/pca.go
@@ -12,6 +12,7 @@ type PCA struct {
 	mat.SVD
 	MinVarianceRatio                       float64
 	NComponents                            int
+	allComponents                          int // NComponents when it was set by Fit because it was 0
 	SingularValues, ExplainedVarianceRatio []float64
 }
 
@@ -27,7 +28,12 @@ func (m *PCA) TransformerClone() base.Transformer {
 // Fit computes the svd of X
 func (m *PCA) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X := base.ToDense(Xmatrix)
-	_, c := X.Dims()
+	r, c := X.Dims()
+	if r < c {
+		c = r
+	}
+	// a new SVD because the current one may be shared with clones
+	m.SVD = mat.SVD{}
 	m.SVD.Factorize(X, mat.SVDThin)
 	m.SingularValues = make([]float64, c)
 	m.ExplainedVarianceRatio = make([]float64, c)
@@ -44,8 +50,9 @@ func (m *PCA) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		}
 		m.NComponents = nComponents
 	} else {
-		if m.NComponents == 0 {
+		if m.NComponents == 0 || m.NComponents == m.allComponents {
 			m.NComponents = c
+			m.allComponents = c
 		}
 	}
 
@@ -80,9 +87,9 @@ func (m *PCA) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
 	var v = new(mat.Dense)
 	m.SVD.VTo(v)
 	nSamples, _ := X.Dims()
-	_, vCols := v.Dims()
-	Xout = mat.NewDense(nSamples, vCols, nil)
-	Xout.Mul(X, v.T())
+	vRows, _ := v.Dims()
+	Xout = mat.NewDense(nSamples, vRows, nil)
+	Xout.Mul(X, base.MatDenseSlice(v, 0, vRows, 0, m.NComponents).T())
 	Yout = Y
 	return
 }
-- 
2.43.0


From d1077dd43ceeb623301148a20f8ef10989c52909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:06 +0000
Subject: [PATCH 23/81] fix: KBinsDiscretizer quantiles of unsorted data,
 onehot and Y; Imputer most_frequent chose among ties at random

---
 preprocessing/discretization.go | 10 ++++++----
 preprocessing/imputation.go     | 18 +++++++++++++++++-
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/preprocessing/discretization.go b/preprocessing/discretization.go
index 1d7e268..9e04ee9 100644
--- a/preprocessing/discretization.go
+++ b/preprocessing/discretization.go
@@ -3,6 +3,7 @@ package preprocessing
 import (
 	"fmt"
 	"math"
+	"sort"
 
 	"github.com/pa-m/sklearn/base"
 	"gonum.org/v1/gonum/floats"
@@ -40,6 +41,7 @@ func (m *KBinsDiscretizer) Fit(X, Y mat.Matrix) base.Fiter {
 		for f := start; f < end; f++ {
 			mat.Col(tmp, f, X)
 			min, max := floats.Min(tmp), floats.Max(tmp)
+			sort.Float64s(tmp)
 			m.BinEdges[f] = make([]float64, m.NBins+1)
 			for b := 0; b <= m.NBins; b++ {
 				switch m.Strategy {
@@ -60,11 +62,11 @@ func (m *KBinsDiscretizer) Fit(X, Y mat.Matrix) base.Fiter {
 // Transform discretizes the Data
 func (m *KBinsDiscretizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	NSamples, NFeatures := X.Dims()
+	Yout = base.ToDense(Y)
 	switch m.Encode {
 	case "ordinal":
 		Xout = mat.NewDense(NSamples, NFeatures, nil)
-	case "onehot":
-	case "onehot-dense":
+	case "onehot", "onehot-dense":
 		Xout = mat.NewDense(NSamples, NFeatures*m.NBins, nil)
 	}
 	base.Parallelize(-1, NFeatures, func(th, start, end int) {
@@ -82,8 +84,7 @@ func (m *KBinsDiscretizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 				switch m.Encode {
 				case "ordinal":
 					Xout.Set(i, f, float64(ith))
-				case "onehot":
-				case "onehot-dense":
+				case "onehot", "onehot-dense":
 					Xout.Set(i, f*m.NBins+ith, 1)
 				}
 			}
@@ -103,6 +104,7 @@ func (m *KBinsDiscretizer) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense)
 func (m *KBinsDiscretizer) InverseTransform(X mat.Matrix, Y mat.Mutable) (Xout, Yout *mat.Dense) {
 	NSamples, _ := X.Dims()
 	NFeatures := len(m.BinEdges)
+	Yout = base.ToDense(Y)
 	Xout = mat.NewDense(NSamples, NFeatures, nil)
 	base.Parallelize(-1, NFeatures, func(th, start, end int) {
 		tmp := make([]float64, NSamples)
diff --git a/preprocessing/imputation.go b/preprocessing/imputation.go
index 7cf37ca..fdf2a68 100644
--- a/preprocessing/imputation.go
+++ b/preprocessing/imputation.go
@@ -47,7 +47,7 @@ func (m *Imputer) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 				sort.Float64s(tmp)
 				def = stat.Quantile(.5, stat.Empirical, tmp, nil)
 			case "most_frequent":
-				def, _ = stat.Mode(tmp, nil)
+				def = smallestMode(tmp)
 			default:
 				def = stat.Mean(tmp, nil)
 			}
@@ -58,6 +58,22 @@ func (m *Imputer) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	return m
 }
 
+// smallestMode returns the most frequent value of x, the smallest one if there are several. it sorts x
+func smallestMode(x []float64) float64 {
+	sort.Float64s(x)
+	mode, count, best := math.NaN(), 0, 0
+	for i, v := range x {
+		if i == 0 || v != x[i-1] {
+			count = 0
+		}
+		count++
+		if count > best {
+			mode, best = v, count
+		}
+	}
+	return mode
+}
+
 // Transform for Imputer ...
 func (m *Imputer) Transform(Xmatrix, Ymatrix mat.Matrix) (Xout, Yout *mat.Dense) {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
-- 
2.43.0


From 58fef4ec461a382a377bdac5b7496dae12e02d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:07 +0000
Subject: [PATCH 24/81] fix: LabelBinarizer negative label and multi output
 inverse, LabelEncoder unknown labels, label transformers of any matrix

---
 preprocessing/label.go | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 70ed591..3f1c17d 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -68,10 +68,11 @@ func (m *LabelBinarizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 		}
 		for i, yi, yo0 := 0, 0, 0; i < y.Rows; i, yi, yo0 = i+1, yi+y.Stride, yo0+yo.Stride {
 			val := y.Data[yi+j]
+			for classNo := range m.Classes[j] {
+				yo.Data[yo0+baseCol+classNo] = m.NegLabel
+			}
 			if classNo, ok := cmap[val]; ok {
 				yo.Data[yo0+baseCol+classNo] = m.PosLabel
-			} else {
-				yo.Data[yo0+baseCol+classNo] = m.NegLabel
 			}
 		}
 		baseCol += len(m.Classes[j])
@@ -93,10 +94,13 @@ func (m *LabelBinarizer) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dens
 
 	Yout = mat.NewDense(NSamples, NOutputs, nil)
 	y, yo := Y.RawMatrix(), Yout.RawMatrix()
-	for j, baseCol := 0, 0; baseCol < y.Cols; j, baseCol = j+1, baseCol+len(m.Classes[j]) {
+	for j, baseCol := 0, 0; baseCol < y.Cols; j++ {
 		for i, yi, yo0 := 0, 0, 0; i < y.Rows; i, yi, yo0 = i+1, yi+y.Stride, yo0+yo.Stride {
-			classNo := floats.MaxIdx(y.Data[yi+baseCol : yi+baseCol+len(m.Classes[j])])
-
+			yrow := y.Data[yi+baseCol : yi+baseCol+len(m.Classes[j])]
+			classNo := floats.MaxIdx(yrow)
+			if m.PosLabel < m.NegLabel {
+				classNo = floats.MinIdx(yrow)
+			}
 			yo.Data[yo0+j] = m.Classes[j][classNo]
 		}
 		baseCol += len(m.Classes[j])
@@ -168,7 +172,7 @@ func (m *MultiLabelBinarizer) Fit2(X mat.Matrix, Y interface{}) *MultiLabelBinar
 // Transform for MultiLabelBinarizer ...
 // Y type must be the same passed int Fit
 func (m *MultiLabelBinarizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
-	return m.Transform2(X, Y)
+	return m.Transform2(X, base.ToDense(Y))
 }
 
 // FitTransform fit to dat, then transform it
@@ -300,6 +304,8 @@ func (m *LabelEncoder) PartialFit(X, Y *mat.Dense) base.Transformer {
 		m.Classes = make([][]float64, Ymat.Cols)
 		m.Support = make([][]float64, Ymat.Cols)
 	}
+	// the current slices may be shared with clones
+	m.Classes, m.Support = copyOf2D(m.Classes), copyOf2D(m.Support)
 	for i := 0; i < Ymat.Cols; i++ {
 		for jY := 0; jY < Ymat.Rows*Ymat.Stride; jY = jY + Ymat.Stride {
 			v := Ymat.Data[jY+i]
@@ -320,6 +326,14 @@ func (m *LabelEncoder) PartialFit(X, Y *mat.Dense) base.Transformer {
 	return m
 }
 
+func copyOf2D(a [][]float64) [][]float64 {
+	b := make([][]float64, len(a))
+	for i := range a {
+		b[i] = append([]float64{}, a[i]...)
+	}
+	return b
+}
+
 // Transform for LabelEncoder ...
 func (m *LabelEncoder) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	Ymat := base.ToDense(Y).RawMatrix()
@@ -328,7 +342,7 @@ func (m *LabelEncoder) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	for jY, jYout := 0, 0; jY < Ymat.Rows*Ymat.Stride; jY, jYout = jY+Ymat.Stride, jYout+Youtmat.Stride {
 		for i, v := range Ymat.Data[jY : jY+Ymat.Cols] {
 			pos := sort.SearchFloat64s(m.Classes[i], v)
-			if pos < 0 || pos >= len(m.Classes[i]) {
+			if pos >= len(m.Classes[i]) || m.Classes[i][pos] != v {
 				pos = -1
 			}
 			Youtmat.Data[jYout+i] = float64(pos)
@@ -351,9 +365,9 @@ func (m *LabelEncoder) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense)
 	Youtmat := Yout.RawMatrix()
 	for jY, jYout := 0, 0; jY < Ymat.Rows*Ymat.Stride; jY, jYout = jY+Ymat.Stride, jYout+Youtmat.Stride {
 		for i, v := range Ymat.Data[jY : jY+Ymat.Cols] {
-			if int(v) < 0 || int(v) > len(m.Classes[i]) {
+			if int(v) < 0 || int(v) >= len(m.Classes[i]) {
 				Youtmat.Data[jYout+i] = math.NaN()
-				break
+				continue
 			}
 			Youtmat.Data[jYout+i] = m.Classes[i][int(v)]
 		}
-- 
2.43.0


From df9af618dfc4354814d9eceacde60b20cb0cf31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:20 +0000
Subject: [PATCH 25/81] fix: LabelEncoder support of a class smaller than the
 known ones

---
 preprocessing/label.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 3f1c17d..e60c5ae 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -320,7 +320,7 @@ func (m *LabelEncoder) PartialFit(X, Y *mat.Dense) base.Transformer {
 			copy(m.Classes[i][pos+1:l+1], m.Classes[i][pos:l])
 			copy(m.Support[i][pos+1:l+1], m.Support[i][pos:l])
 			m.Classes[i][pos] = v
-			m.Support[i][pos] += 1.
+			m.Support[i][pos] = 1.
 		}
 	}
 	return m
-- 
2.43.0


From 5e8ec4c910d105784b3e2e6c2ad6fd7af2ab1adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:56 +0000
Subject: [PATCH 26/81] fix: row slices of matrix views, MatRowSlice.Set and
 MatOnesPrepended accessors

---
 base/matrix.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/base/matrix.go b/base/matrix.go
index eb6b8b1..4a7f261 100644
--- a/base/matrix.go
+++ b/base/matrix.go
@@ -50,6 +50,20 @@ func (m MatTranspose) T() mat.Matrix { return m.Matrix }
 // MatOnesPrepended is a matrix override representing its initializer with an initial column of ones added
 type MatOnesPrepended struct{ mat.Matrix }
 
+// Dims for MatOnesPrepended
+func (m MatOnesPrepended) Dims() (int, int) { r, c := m.Matrix.Dims(); return r, c + 1 }
+
+// At for MatOnesPrepended
+func (m MatOnesPrepended) At(i, j int) float64 {
+	if j == 0 {
+		return 1
+	}
+	return m.Matrix.At(i, j-1)
+}
+
+// T for MatOnesPrepended
+func (m MatOnesPrepended) T() mat.Matrix { return MatTranspose{m} }
+
 // MatRowSlice is a matrix row chunk
 type MatRowSlice struct {
 	mat.Matrix
@@ -61,7 +75,7 @@ func (m MatRowSlice) Dims() (int, int) { _, c := m.Matrix.Dims(); return m.End -
 
 // At for MatRowSlice
 func (m MatRowSlice) At(i, j int) float64 {
-	if i < 0 || i > m.End-m.Start {
+	if i < 0 || i >= m.End-m.Start {
 		panic("indexing error")
 	}
 	return m.Matrix.At(i+m.Start, j)
@@ -70,7 +84,10 @@ func (m MatRowSlice) At(i, j int) float64 {
 // Set for MatRowSlice
 func (m MatRowSlice) Set(i, j int, v float64) {
 	if Mutable, ok := m.Matrix.(mat.Mutable); ok {
-		Mutable.Set(i-m.Start, j, v)
+		if i < 0 || i >= m.End-m.Start {
+			panic("indexing error")
+		}
+		Mutable.Set(i+m.Start, j, v)
 	} else {
 		panic("underling Matrix is not Mutable")
 	}
@@ -177,7 +194,7 @@ func MatGeneralRowSlice(M blas64.General, i, k int) blas64.General {
 		Rows:   k - i,
 		Cols:   M.Cols,
 		Stride: M.Stride,
-		Data:   M.Data[i*M.Stride : k*M.Stride],
+		Data:   M.Data[i*M.Stride : (k-1)*M.Stride+M.Cols],
 	}
 }
 
-- 
2.43.0


From 0db2406a962df6eda882e9c1563cbaa7e8db999b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:57 +0000
Subject: [PATCH 27/81] fix: LockedSource.SourceClone read the source without
 holding the lock

---
 base/source.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/source.go b/base/source.go
index 663d941..8db1e63 100644
--- a/base/source.go
+++ b/base/source.go
@@ -57,6 +57,8 @@ func (s *LockedSource) Seed(seed uint64) {
 
 // SourceClone ...
 func (s *LockedSource) SourceClone() Source {
+	s.lk.Lock()
+	defer s.lk.Unlock()
 	return &LockedSource{src: s.src.SourceClone().(*randomkit.RKState)}
 }
 
-- 
2.43.0


From 037bddc444a9d8e1c9f2ddf4dbfcabb2fe3f08c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:24 +0000
Subject: [PATCH 28/81] fix: CrossValidate with a nil splitter or the default
 number of splits

---
 model_selection/split.go      | 3 +++
 model_selection/validation.go | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/model_selection/split.go b/model_selection/split.go
index efc4397..b42c5a8 100644
--- a/model_selection/split.go
+++ b/model_selection/split.go
@@ -107,6 +107,9 @@ func (splitter *KFold) Split(X, Y *mat.Dense) (ch chan Split) {
 
 // GetNSplits for KFold
 func (splitter *KFold) GetNSplits(X, Y *mat.Dense) int {
+	if splitter.NSplits <= 0 {
+		return 3
+	}
 	return splitter.NSplits
 }
 
diff --git a/model_selection/validation.go b/model_selection/validation.go
index 7e5fc44..f564140 100644
--- a/model_selection/validation.go
+++ b/model_selection/validation.go
@@ -39,13 +39,13 @@ func CrossValidate(estimator base.Predicter, X, Y *mat.Dense, groups []int, scor
 	if NJobs <= 0 {
 		NJobs = runtime.NumCPU()
 	}
+	if cv == Splitter(nil) {
+		cv = &KFold{NSplits: 3, Shuffle: true}
+	}
 	NSplits := cv.GetNSplits(X, Y)
 	if NJobs > NSplits {
 		NJobs = NSplits
 	}
-	if cv == Splitter(nil) {
-		cv = &KFold{NSplits: 3, Shuffle: true}
-	}
 	res.Estimator = make([]base.Predicter, NSplits)
 	res.TestScore = make([]float64, NSplits)
 	res.FitTime = make([]time.Duration, NSplits)
-- 
2.43.0


From 730077f74e036813b5a41dcdec631af3992d293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:26 +0000
Subject: [PATCH 29/81] fix: estimators returned by CrossValidate shared their
 train buffers

---
 model_selection/validation.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/model_selection/validation.go b/model_selection/validation.go
index f564140..45573ab 100644
--- a/model_selection/validation.go
+++ b/model_selection/validation.go
@@ -60,7 +60,9 @@ func CrossValidate(estimator base.Predicter, X, Y *mat.Dense, groups []int, scor
 	}
 	NSamples, NFeatures := X.Dims()
 	_, NOutputs := Y.Dims()
-	processSplit := func(job int, Xjob, Yjob *mat.Dense, sin structIn) structOut {
+	processSplit := func(job int, sin structIn) structOut {
+		// the fitted estimators may keep their train matrix, so each split has its own
+		var Xjob, Yjob = mat.NewDense(NSamples, NFeatures, nil), mat.NewDense(NSamples, NOutputs, nil)
 		Xtrain, Xtest, Ytrain, Ytest := &mat.Dense{}, &mat.Dense{}, &mat.Dense{}, &mat.Dense{}
 		// fmt.Println("iSplit", sin.iSplit, "TrainIndex", sin.Split.TrainIndex[:10])
 		trainLen, testLen := len(sin.Split.TrainIndex), len(sin.Split.TestIndex)
@@ -96,17 +98,15 @@ func CrossValidate(estimator base.Predicter, X, Y *mat.Dense, groups []int, scor
 			sin = append(sin, structIn{iSplit: len(sin), Split: split})
 		}
 		base.Parallelize(NJobs, NSplits, func(th, start, end int) {
-			var Xjob, Yjob = mat.NewDense(NSamples, NFeatures, nil), mat.NewDense(NSamples, NOutputs, nil)
 			for i := start; i < end; i++ {
-				sout := processSplit(th, Xjob, Yjob, sin[i])
+				sout := processSplit(th, sin[i])
 				res.TestScore[sout.iSplit] = sout.score
 			}
 		})
 	} else { // NJobs==1
-		var Xjob, Yjob = mat.NewDense(NSamples, NFeatures, nil), mat.NewDense(NSamples, NOutputs, nil)
 		var isplit int
 		for split := range cv.Split(X, Y) {
-			sout := processSplit(0, Xjob, Yjob, structIn{iSplit: isplit, Split: split})
+			sout := processSplit(0, structIn{iSplit: isplit, Split: split})
 			res.TestScore[sout.iSplit] = sout.score
 			isplit++
 		}
-- 
2.43.0


From 336c0405e6879418f8267a319c37a9a7810cb095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:28 +0000
Subject: [PATCH 30/81] fix: ParameterGrid order was random, and an empty list
 of values was ignored or not depending on it

---
 model_selection/search.go | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/model_selection/search.go b/model_selection/search.go
index 6550a8b..7eb4bb8 100644
--- a/model_selection/search.go
+++ b/model_selection/search.go
@@ -3,6 +3,7 @@ package modelselection
 import (
 	"fmt"
 	"reflect"
+	"sort"
 	"strings"
 
 	"github.com/pa-m/sklearn/base"
@@ -15,27 +16,31 @@ import (
 func ParameterGrid(paramGrid map[string][]interface{}) (out []map[string]interface{}) {
 	makeArr := func(name string, values []interface{}, prevArr []map[string]interface{}) (out []map[string]interface{}) {
 
-		if len(prevArr) == 0 {
+		for _, map1 := range prevArr {
 			for _, v := range values {
-				out = append(out, map[string]interface{}{name: v})
-			}
-		} else {
-			for _, map1 := range prevArr {
-				for _, v := range values {
-					map2 := make(map[string]interface{})
-					for k1, v1 := range map1 {
-						map2[k1] = v1
-					}
-					map2[name] = v
-					out = append(out, map2)
+				map2 := make(map[string]interface{})
+				for k1, v1 := range map1 {
+					map2[k1] = v1
 				}
+				map2[name] = v
+				out = append(out, map2)
 			}
 		}
 
 		return
 	}
-	for k, v := range paramGrid {
-		out = makeArr(k, v, out)
+	if len(paramGrid) == 0 {
+		return
+	}
+	// sort names to have a reproducible order
+	names := make([]string, 0, len(paramGrid))
+	for k := range paramGrid {
+		names = append(names, k)
+	}
+	sort.Strings(names)
+	out = []map[string]interface{}{{}}
+	for _, k := range names {
+		out = makeArr(k, paramGrid[k], out)
 	}
 	return
 }
-- 
2.43.0


From 0186940b08ab97cc0d31b54513b78e0e2e0a5aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:30 +0000
Subject: [PATCH 31/81] fix: GridSearchCV candidates were evaluated on
 different splits when the random state can't be cloned

---
 model_selection/search.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/model_selection/search.go b/model_selection/search.go
index 7eb4bb8..0f34b50 100644
--- a/model_selection/search.go
+++ b/model_selection/search.go
@@ -68,6 +68,25 @@ type GridSearchCV struct {
 	NOutputs      int
 }
 
+// fixedSplits is a Splitter yielding given splits
+type fixedSplits []Split
+
+// Split ...
+func (splits fixedSplits) Split(X, Y *mat.Dense) (ch chan Split) {
+	ch = make(chan Split, len(splits))
+	for _, split := range splits {
+		ch <- split
+	}
+	close(ch)
+	return
+}
+
+// GetNSplits ...
+func (splits fixedSplits) GetNSplits(X, Y *mat.Dense) int { return len(splits) }
+
+// SplitterClone ...
+func (splits fixedSplits) SplitterClone() Splitter { return splits }
+
 // PredicterClone ...
 func (gscv *GridSearchCV) PredicterClone() base.Predicter {
 	if gscv == nil {
@@ -141,9 +160,14 @@ func (gscv *GridSearchCV) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	gscv.BestIndex = -1
 
 	{
+		// all candidates are evaluated on the same splits
+		cv := fixedSplits{}
+		for split := range gscv.CV.SplitterClone().Split(X, Y) {
+			cv = append(cv, split)
+		}
 		sin := make([]structIn, len(paramArray))
 		for i, params := range paramArray {
-			sin[i] = structIn{index: i, params: params, estimator: estCloner.PredicterClone(), cv: gscv.CV.SplitterClone()}
+			sin[i] = structIn{index: i, params: params, estimator: estCloner.PredicterClone(), cv: cv}
 			for k, v := range sin[i].params {
 				setParam(sin[i].estimator, k, v)
 			}
-- 
2.43.0


From b7602e3824ff45d492f202677fffce5c44bfa832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:06 +0000
Subject: [PATCH 32/81] fix: MeanSquaredError and MeanAbsoluteError read the
 weight of a sample from the wrong cell

---
 metrics/regression.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics/regression.go b/metrics/regression.go
index a3ad59e..a412235 100644
--- a/metrics/regression.go
+++ b/metrics/regression.go
@@ -160,7 +160,7 @@ func MeanSquaredError(yTrue, yPred mat.Matrix, sampleWeight *mat.Dense, multiout
 			ydiff := yPred.At(i, j) - yTrue.At(i, j)
 			w := 1.
 			if sampleWeight != nil {
-				w = sampleWeight.At(0, j)
+				w = sampleWeight.At(i, 0)
 			}
 			N += w * (ydiff * ydiff)
 			D += w
@@ -227,7 +227,7 @@ func MeanAbsoluteError(yTrue, yPred mat.Matrix, sampleWeight *mat.Dense, multiou
 			ydiff := yPred.At(i, j) - yTrue.At(i, j)
 			w := 1.
 			if sampleWeight != nil {
-				w = sampleWeight.At(0, j)
+				w = sampleWeight.At(i, 0)
 			}
 			N += w * math.Abs(ydiff)
 			D += w
-- 
2.43.0


From 66a309afc8c6d40197043314b39203ba29b7f376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:06 +0000
Subject: [PATCH 33/81] fix: micro average of weighted samples and samples
 average of AveragePrecisionScore and ROCAUCScore

---
 metrics/base.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/metrics/base.go b/metrics/base.go
index 1c263a2..f344dca 100644
--- a/metrics/base.go
+++ b/metrics/base.go
@@ -20,7 +20,6 @@ func averageBinaryScore(binaryMetric func(Ytrue, Yscore *mat.Dense, sampleWeight
 	if yType == "binary" {
 		return binaryMetric(Ytrue, Yscore, sampleWeight)
 	}
-	notAverageAxis := 1
 	scoreWeight := sampleWeight
 	var averageWeight []float64
 	yt, ys := Ytrue, Yscore
@@ -30,8 +29,10 @@ func averageBinaryScore(binaryMetric func(Ytrue, Yscore *mat.Dense, sampleWeight
 	case "micro":
 		if scoreWeight != nil {
 			tmp := make([]float64, m*n)
-			for i := 0; i < n; i++ {
-				copy(tmp[i*m:(i+1)*m], scoreWeight)
+			for j := 0; j < m; j++ {
+				for i := 0; i < n; i++ {
+					tmp[j*n+i] = scoreWeight[j]
+				}
 			}
 			scoreWeight = tmp
 		}
@@ -64,14 +65,15 @@ func averageBinaryScore(binaryMetric func(Ytrue, Yscore *mat.Dense, sampleWeight
 		// # swap average_weight <-> score_weight
 		averageWeight = scoreWeight
 		scoreWeight = nil
-		notAverageAxis = 0
+		// each sample is a column below
+		yt, ys = mat.DenseCopyOf(Ytrue.T()), mat.DenseCopyOf(Yscore.T())
+		ytmat, ysmat = yt.RawMatrix(), ys.RawMatrix()
 
 	case "macro", "":
 	default:
 		fmt.Println("averageBinaryScore: unsupported average:", average)
 	}
-	ytshape := [2]int{ytmat.Rows, ytmat.Cols}
-	NClasses := ytshape[notAverageAxis]
+	NClasses := ytmat.Cols
 	scores := make([]float64, NClasses)
 	for c := 0; c < NClasses; c++ {
 		scores[c] = binaryMetric(
-- 
2.43.0


From 2148b2909097bf0fc7b1f36a3308058219d9b6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:07 +0000
Subject: [PATCH 34/81] fix: confusion matrix of labels which are predicted
 only and of several columns, weighted average of precision, recall and fscore

---
 metrics/classification.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/metrics/classification.go b/metrics/classification.go
index 6c4d763..7afa0a8 100644
--- a/metrics/classification.go
+++ b/metrics/classification.go
@@ -3,6 +3,7 @@ package metrics
 import (
 	"fmt"
 
+	"github.com/pa-m/sklearn/base"
 	"github.com/pa-m/sklearn/preprocessing"
 	"gonum.org/v1/gonum/mat"
 	"gonum.org/v1/gonum/stat"
@@ -74,7 +75,7 @@ func FBetaScore(Ytrue, Ypred *mat.Dense, beta float64, average string, sampleWei
 func PrecisionRecallFScoreSupport(YTrue, YPred *mat.Dense, beta float64, labels []float64, posLabel int, average string, warnFor []string, sampleWeight []float64) (precision, recall, fscore, support float64) {
 	type sumstype struct{ tpsum, truesum, predsum float64 }
 	type prfstype struct{ p, r, f, s float64 }
-	cm, _, _, le := internalConfusionMatrix(YTrue, YPred, sampleWeight)
+	cm := internalConfusionMatrix(YTrue, YPred, sampleWeight)
 	cmmat := cm.RawMatrix()
 	NClasses := cmmat.Rows
 	sumsperclass := make([]sumstype, NClasses)
@@ -93,8 +94,8 @@ func PrecisionRecallFScoreSupport(YTrue, YPred *mat.Dense, beta float64, labels
 			fscore = ((1 + beta2) * precision * recall /
 				(beta2*precision + recall))
 		}
-		if c >= 0 && c < len(le.Support[0]) {
-			support = float64(le.Support[0][c])
+		if c >= 0 {
+			support = g.truesum
 		}
 
 		return
@@ -127,7 +128,7 @@ func PrecisionRecallFScoreSupport(YTrue, YPred *mat.Dense, beta float64, labels
 			}
 		}
 
-		m := prfstype{stat.Mean(p, nil), stat.Mean(r, nil), stat.Mean(f, nil), stat.Mean(s, nil)}
+		m := prfstype{p: stat.Mean(p, s), r: stat.Mean(r, s), f: stat.Mean(f, s)}
 		precision, recall, fscore, support = m.p, m.r, m.f, 0
 	}
 	// for average=micro
@@ -148,13 +149,14 @@ func PrecisionRecallFScoreSupport(YTrue, YPred *mat.Dense, beta float64, labels
 // operate only on 1st Y column
 // uses preprocessing.LabelEncoder to map class values to class indices
 func ConfusionMatrix(YTrue, YPred *mat.Dense, sampleWeight []float64) *mat.Dense {
-	cm, _, _, _ := internalConfusionMatrix(YTrue, YPred, sampleWeight)
-	return cm
+	return internalConfusionMatrix(YTrue, YPred, sampleWeight)
 }
-func internalConfusionMatrix(YTrue, YPred *mat.Dense, sampleWeight []float64) (*mat.Dense, *mat.Dense, *mat.Dense, *preprocessing.LabelEncoder) {
+func internalConfusionMatrix(YTrue, YPred *mat.Dense, sampleWeight []float64) *mat.Dense {
+	YTrue, YPred = base.MatDenseColSlice(YTrue, 0, 1), base.MatDenseColSlice(YPred, 0, 1)
 	le := preprocessing.NewLabelEncoder()
 	le.Fit(nil, YTrue)
-	//le.PartialFit(nil, YPred)
+	// classes which are predicted only
+	le.PartialFit(nil, YPred)
 	_, yt := le.Transform(nil, YTrue)
 	_, yp := le.Transform(nil, YPred)
 	//var tn, fp, fn, tp int
@@ -174,5 +176,5 @@ func internalConfusionMatrix(YTrue, YPred *mat.Dense, sampleWeight []float64) (*
 			cmmat.Data[r*cmmat.Stride+c] += w
 		}
 	}
-	return cm, yt, yp, le
+	return cm
 }
-- 
2.43.0


From 9c796ad2ebe30918ba48e3bdf551abc61dd597f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:47 +0000
Subject: [PATCH 35/81] fix: GaussianNB second Fit, PartialFit variance and
 smoothing, clones depending on the original

---
 naive_bayes/naivebayes.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 6869611..35b9571 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -150,13 +150,14 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 	_, xc := X.Dims()
 
 	_, varX, _ := meanvar(matfiltered{Matrix: X, filter: func(int) bool { return true }}, sampleWeight)
+	prevEpsilon := m.Epsilon
 	m.Epsilon = m.VarSmoothing * floats.Max(varX)
 	if refit {
-		m.Classes = nil
+		m.Classes, m.Theta = nil, nil
 	}
 	firstCall := m.Theta == nil
 	if firstCall {
-		m.Classes = classes
+		m.Classes = append([]float64{}, classes...)
 		nFeatures := xc
 		nClasses := len(m.Classes)
 		m.Theta = mat.NewDense(nClasses, nFeatures, nil)
@@ -195,7 +196,11 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 		}
 		//# Put epsilon back in each time
 		//self.sigma_[:, :] -= self.epsilon_
-		m.Sigma.Apply(func(_, _ int, v float64) float64 { return v - m.Epsilon }, m.Sigma)
+		// (on copies, because clones share the current parameters)
+		m.Theta, m.Sigma = mat.DenseCopyOf(m.Theta), mat.DenseCopyOf(m.Sigma)
+		m.ClassCount = append([]float64{}, m.ClassCount...)
+		m.ClassPrior = append([]float64{}, m.ClassPrior...)
+		m.Sigma.Apply(func(_, _ int, v float64) float64 { return v - prevEpsilon }, m.Sigma)
 	}
 	classes = m.Classes
 	uniqueY := npUnique(colAsVector(Y, 0))
@@ -234,7 +239,10 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 		//self.class_prior_ = self.class_count_ / self.class_count_.sum()
 		floats.ScaleTo(m.ClassPrior, 1/floats.Sum(m.ClassCount), m.ClassCount)
 	}
+	fitted := *m
 	m.jointLogLikelihood = func(jll, xrow []float64) {
+		// parameters of this fit, even when called from a clone after m was fitted again
+		m := &fitted
 		/*
 		   joint_log_likelihood = []
 		      for i in range(np.size(self.classes_)):
@@ -358,8 +366,8 @@ func (m *GaussianNB) updateMeanVariance(nPast float64, mu, va []float64, X matfi
 	newMu, newVa, nNew := meanvar(X, sw.sw)
 	nTotal := nPast + nNew
 	for c := 0; c < xc; c++ {
+		dmu := mu[c] - newMu[c] // before mu is updated
 		setTotalMu(c, (nPast*mu[c]+nNew*newMu[c])/nTotal)
-		dmu := mu[c] - newMu[c]
 		setTotalVar(c, (nPast*va[c]+nNew*newVa[c]+nNew*nPast/nTotal*dmu*dmu)/nTotal)
 	}
 	setClassCount(nTotal)
-- 
2.43.0


From c2a097c7901ca654b864a8d0a50f22ba522b8c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:51 +0000
Subject: [PATCH 36/81] fix: Interp1d and CubicSpline kept the slices of the
 caller

---
 interpolate/cubic.go       | 12 +++++-------
 interpolate/interpolate.go | 12 +++++-------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/interpolate/cubic.go b/interpolate/cubic.go
index b1a0364..36b7320 100644
--- a/interpolate/cubic.go
+++ b/interpolate/cubic.go
@@ -51,13 +51,11 @@ func CubicSpline(xs, ys []float64) func(x float64) float64 {
 
 	}
 
-	var both *xy
-	if sort.Float64sAreSorted(xs) {
-		both = &xy{xs, ys}
-	} else {
-		both = &xy{make([]float64, len(xs)), make([]float64, len(xs))}
-		copy(both.x, xs)
-		copy(both.y, ys)
+	// work on copies, the caller may change its slices later
+	both := &xy{make([]float64, len(xs)), make([]float64, len(xs))}
+	copy(both.x, xs)
+	copy(both.y, ys)
+	if !sort.Float64sAreSorted(xs) {
 		sort.Sort(both)
 	}
 
diff --git a/interpolate/interpolate.go b/interpolate/interpolate.go
index 42c073d..14b7460 100644
--- a/interpolate/interpolate.go
+++ b/interpolate/interpolate.go
@@ -32,13 +32,11 @@ func Interp1d(x, y []float64) func(x float64) float64 {
 		panic(fmt.Errorf("interp1d lenx:%d leny:%d", len(x), len(y)))
 	}
 
-	var both *xy
-	if sort.Float64sAreSorted(x) {
-		both = &xy{x, y}
-	} else {
-		both = &xy{make([]float64, len(x)), make([]float64, len(x))}
-		copy(both.x, x)
-		copy(both.y, y)
+	// work on copies, the caller may change its slices later
+	both := &xy{make([]float64, len(x)), make([]float64, len(x))}
+	copy(both.x, x)
+	copy(both.y, y)
+	if !sort.Float64sAreSorted(x) {
 		sort.Sort(both)
 	}
 	return func(x float64) float64 {
-- 
2.43.0


From 1faa423c5fbbf4c08a078ee5198ab6d28a3b21f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:52 +0000
Subject: [PATCH 37/81] fix: Pipeline.Predict with steps which have no inverse,
 Score and GetNOutputs with steps which transform Y

---
 pipeline/pipeline.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 19e0f0a..f518f2e 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -108,7 +108,7 @@ func (p *Pipeline) Score(X, Y mat.Matrix) float64 {
 	if !ok {
 		panic(fmt.Errorf("pipeline.Score: last step is not a Predicter"))
 	}
-	return predicter.Score(Xtmp, Y)
+	return predicter.Score(Xtmp, Ytmp)
 }
 
 // GetNOutputs returns output columns number for Y
@@ -116,6 +116,10 @@ func (p *Pipeline) GetNOutputs() int {
 	if len(p.NamedSteps) == 0 {
 		return 0
 	}
+	if p.NOutputs > 0 {
+		// Predict gives back the columns of the Y passed to Fit
+		return p.NOutputs
+	}
 	return p.NamedSteps[len(p.NamedSteps)-1].Fiter.(base.Predicter).GetNOutputs()
 }
 
@@ -128,7 +132,9 @@ func (p *Pipeline) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
 	}
 	for iStep := len(p.NamedSteps) - 2; iStep >= 0; iStep-- {
 		step := p.NamedSteps[iStep]
-		_, Ytmp = step.Fiter.(preprocessing.InverseTransformer).InverseTransform(nil, Ytmp)
+		if inverser, ok := step.Fiter.(preprocessing.InverseTransformer); ok {
+			_, Ytmp = inverser.InverseTransform(nil, Ytmp)
+		}
 	}
 	return base.FromDense(Y, base.ToDense(Ytmp))
 }
-- 
2.43.0


From 9ffa85b6c9447813a0eb5515448b9ae100724925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:14 +0000
Subject: [PATCH 38/81] fix: Pipeline.Predict without a destination when a step
 transforms Y

---
 pipeline/pipeline.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index f518f2e..452ffb3 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -126,6 +126,11 @@ func (p *Pipeline) GetNOutputs() int {
 // Predict for pipeline calls steps Transform then InverseTransform for InverseTransformer steps
 func (p *Pipeline) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
 	Xtmp, Ytmp := base.ToDense(X), base.ToDense(Y)
+	if Y == mat.Mutable(nil) && p.NOutputs > 0 {
+		// steps which transform Y need one
+		nSamples, _ := X.Dims()
+		Ytmp = mat.NewDense(nSamples, p.NOutputs, nil)
+	}
 	for istep := range p.NamedSteps {
 		p.transformStep(istep, &Xtmp, &Ytmp)
 
-- 
2.43.0


From 43e86b03c5ba55f2e5355596c72cab6a8383bed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:08 +0000
Subject: [PATCH 39/81] fix: LoadOctaveBin failed when a value spans two reads
 of the underlying reader

---
 datasets/octave.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/datasets/octave.go b/datasets/octave.go
index 57b53be..36d5175 100644
--- a/datasets/octave.go
+++ b/datasets/octave.go
@@ -4,7 +4,6 @@ import (
 	"bufio"
 	"compress/gzip"
 	"encoding/binary"
-	"fmt"
 	"io"
 	"os"
 	"strings"
@@ -25,18 +24,10 @@ func LoadOctaveBin(filename string) map[string]*mat.Dense {
 	}
 	read := func(f *PosReader, n int) ([]byte, error) {
 		b := make([]byte, n)
-		nread, err := f.Reader.Read(b)
-		if err != nil {
-			return b, err
-		}
+		// a single Read may return less bytes than requested
+		nread, err := io.ReadFull(f.Reader, b)
 		f.Pos += nread
-		if nread != n {
-			panic(fmt.Errorf("%d/%d bytes read", nread, n))
-		}
-		if err != nil {
-			panic(err)
-		}
-		return b, nil
+		return b, err
 	}
 	readUint32 := func(f *PosReader) (uint32, error) {
 
-- 
2.43.0


From c52d3c2585b2ced1f24e8c5fdf0310d3483aac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:24 +0000
Subject: [PATCH 40/81] fix: MakeBlobs drew from RandomState and the global
 source concurrently, and ignored the width of given centers

---
 datasets/samples_generator.go | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/datasets/samples_generator.go b/datasets/samples_generator.go
index ed296dd..289ecb9 100644
--- a/datasets/samples_generator.go
+++ b/datasets/samples_generator.go
@@ -2,7 +2,6 @@ package datasets
 
 import (
 	"math"
-	"runtime"
 	"sort"
 
 	"golang.org/x/exp/rand"
@@ -11,7 +10,6 @@ import (
 	"github.com/pa-m/sklearn/preprocessing"
 	"gonum.org/v1/gonum/floats"
 	"gonum.org/v1/gonum/mat"
-	"gonum.org/v1/gonum/stat/distmv"
 )
 
 // MakeRegression Generate a random regression problem
@@ -134,6 +132,7 @@ func MakeBlobs(config *MakeBlobsConfig) (X, Y *mat.Dense) {
 	case mat.Matrix:
 		Centers = mat.DenseCopyOf(c)
 		randomizeCenters = false
+		_, config.NFeatures = Centers.Dims()
 	default:
 		Centers = mat.NewDense(3, config.NFeatures, nil)
 	}
@@ -148,6 +147,9 @@ func MakeBlobs(config *MakeBlobsConfig) (X, Y *mat.Dense) {
 	randNormFloat64 := rand.NormFloat64
 	randIntn := rand.Intn
 	if config.RandomState != nil {
+		rnd := rand.New(config.RandomState)
+		randNormFloat64 = rnd.NormFloat64
+		randIntn = rnd.Intn
 		if normFloat64er, ok := config.RandomState.(base.NormFloat64er); ok {
 			randNormFloat64 = normFloat64er.NormFloat64
 		}
@@ -173,25 +175,20 @@ func MakeBlobs(config *MakeBlobsConfig) (X, Y *mat.Dense) {
 
 	X = mat.NewDense(config.NSamples, config.NFeatures, nil)
 	Y = mat.NewDense(config.NSamples, 1, nil)
-	base.Parallelize(runtime.NumCPU(), config.NSamples, func(th, start, end int) {
-		mu := make([]float64, config.NFeatures)
-		sigma := mat.NewSymDense(config.NFeatures, nil)
-
-		for i := 0; i < config.NFeatures; i++ {
-			sigma.SetSym(i, i, 1)
-		}
-		sigma.ScaleSym(config.ClusterStd*config.ClusterStd, sigma)
-		normal, _ := distmv.NewNormal(mu, sigma, nil)
-		_ = normal
-		for sample := start; sample < end; sample++ {
-			cluster := randIntn(NCenters)
-			Y.Set(sample, 0, float64(cluster))
-			normal.Rand(X.RawRowView(sample))
-			floats.Add(X.RawRowView(sample), Centers.RawRowView(cluster))
+	// all draws come from RandomState, in the order of samples, to be reproducible
+	for sample := 0; sample < config.NSamples; sample++ {
+		cluster := randIntn(NCenters)
+		Y.Set(sample, 0, float64(cluster))
+		Xrow := X.RawRowView(sample)
+		for feature := range Xrow {
+			Xrow[feature] = config.ClusterStd * randNormFloat64()
 		}
-	})
+		floats.Add(Xrow, Centers.RawRowView(cluster))
+	}
 	if config.Shuffle {
-		X, Y = preprocessing.NewShuffler().FitTransform(X, Y)
+		shuffler := preprocessing.NewShuffler()
+		shuffler.RandomState = config.RandomState
+		X, Y = shuffler.FitTransform(X, Y)
 	}
 	return
 }
-- 
2.43.0


From 41b9cf5f78e6dfe536d1145065dbfe0b1dc70a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:27 +0000
Subject: [PATCH 41/81] fix: linear models shared their intercept with their
 clones, normalization of constant features and without intercept

---
 linear_model/Base.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 83e981d..30aaede 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -558,9 +558,8 @@ func LinFitGOM(X, Ytrue *mat.Dense, opts *LinFitOptions) *LinFitResult {
 
 func (regr *LinearModel) setIntercept(XOffset, YOffset, XScale mat.Matrix) {
 	_, nOutputs := regr.Coef.Dims()
-	if regr.Intercept == nil {
-		regr.Intercept = mat.NewDense(1, nOutputs, nil)
-	}
+	// a clone may share the previous one
+	regr.Intercept = mat.NewDense(1, nOutputs, nil)
 
 	regr.Coef.Apply(func(j, o int, coef float64) float64 { return coef / XScale.At(0, j) }, regr.Coef)
 	if regr.FitIntercept {
@@ -601,7 +600,8 @@ func PreprocessData(X, Y *mat.Dense, FitIntercept, Normalize bool, SampleWeight
 	for i := range XScalemat.Data[0:XScalemat.Cols] {
 		XScalemat.Data[i] = 1
 	}
-	if !FitIntercept && !Normalize {
+	if !FitIntercept {
+		// Normalize is ignored
 		Xout, Yout = X, Y
 		return
 	}
@@ -612,20 +612,17 @@ func PreprocessData(X, Y *mat.Dense, FitIntercept, Normalize bool, SampleWeight
 	base.Parallelize(-1, Xmat.Cols, func(th, start, end int) {
 		for feature := start; feature < end; feature++ {
 			xcol := X.ColView(feature)
-			mean := 0.
-			if FitIntercept {
-				mean = mat.Sum(xcol) / float64(Xmat.Rows)
+			mean := mat.Sum(xcol) / float64(Xmat.Rows)
 
-				for jX, jXout := 0, 0; jX < Xmat.Rows*Xmat.Stride; jX, jXout = jX+Xmat.Stride, jXout+Xoutmat.Stride {
-					Xoutmat.Data[jXout+feature] = Xmat.Data[jX+feature] - mean
-				}
-			} else {
-				Xout.Copy(X)
+			for jX, jXout := 0, 0; jX < Xmat.Rows*Xmat.Stride; jX, jXout = jX+Xmat.Stride, jXout+Xoutmat.Stride {
+				Xoutmat.Data[jXout+feature] = Xmat.Data[jX+feature] - mean
 			}
 			scale := 1.
-			if FitIntercept && Normalize {
+			if Normalize {
 				scale = mat.Norm(Xout.ColView(feature), 2)
-				if scale != 0. {
+				if scale == 0. {
+					scale = 1
+				} else {
 					for jXout := 0; jXout < Xoutmat.Rows*Xoutmat.Stride; jXout = jXout + Xoutmat.Stride {
 						Xoutmat.Data[jXout+feature] /= scale
 					}
-- 
2.43.0


From 17e2f7a3b9138ddeb446192fb344e97200c4cc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:28 +0000
Subject: [PATCH 42/81] fix: gradients of the losses (regularization, LogLoss,
 CrossEntropyLoss) did not match their value

---
 linear_model/loss.go | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/linear_model/loss.go b/linear_model/loss.go
index 5b197a8..b93b75e 100644
--- a/linear_model/loss.go
+++ b/linear_model/loss.go
@@ -47,7 +47,7 @@ func SquareLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha
 		} else {
 			grad.Apply(func(j, o int, theta float64) float64 {
 				g := 0.
-				for i := 0; i < nSamples; i++ {
+				for i, rows := 0, Ypred.RawMatrix().Rows; i < rows; i++ {
 					h := Ypred.At(i, o)
 					g += Ydiff.At(i, o) * X.At(i, j) * activation.Fprime(h)
 				}
@@ -56,7 +56,7 @@ func SquareLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha
 		}
 	}
 	if Alpha > 0. {
-		J += regularization(Theta, grad, Alpha, L1Ratio, disableRegularizationOfFirstFeature)
+		J += regularization(Theta, grad, Alpha, L1Ratio, .5, disableRegularizationOfFirstFeature)
 	}
 	J /= 2. * float64(nSamples)
 	if grad != nil {
@@ -93,9 +93,11 @@ func LogLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha, L
 	if grad != nil {
 		grad.Apply(func(j, o int, theta float64) float64 {
 			g := 0.
-			for i := 0; i < nSamples; i++ {
+			for i, rows := 0, Ypred.RawMatrix().Rows; i < rows; i++ {
 				h := Ypred.At(i, o)
-				g += -Ytrue.At(i, o) * activation.Fprime(h) / h
+				if h != 0. {
+					g += -Ytrue.At(i, o) * activation.Fprime(h) / h * X.At(i, j)
+				}
 			}
 			return g
 		}, Theta)
@@ -103,7 +105,7 @@ func LogLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha, L
 
 	// add regularization to cost and grad
 	if Alpha > 0. {
-		J += regularization(Theta, grad, Alpha, L1Ratio, disableRegularizationOfFirstFeature)
+		J += regularization(Theta, grad, Alpha, L1Ratio, 1., disableRegularizationOfFirstFeature)
 	}
 	J /= float64(nSamples)
 	if grad != nil {
@@ -150,16 +152,21 @@ func CrossEntropyLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense,
 			// // for Logistic activation only
 			grad.Apply(func(j, o int, theta float64) float64 {
 				g := 0.
-				for i := 0; i < nSamples; i++ {
+				for i, rows := 0, Ypred.RawMatrix().Rows; i < rows; i++ {
 					h := Ypred.At(i, o)
+					if h <= 0. || h >= 1. {
+						// J is constant there
+						continue
+					}
 					y := Ytrue.At(i, o)
+					x := X.At(i, j)
 					hprime := activation.Fprime(h)
 					if y == 1. {
-						g += -y * hprime / h
+						g += -y * hprime / h * x
 					} else if y == 0. {
-						g += (1. - y) * hprime / (1. - h)
+						g += (1. - y) * hprime / (1. - h) * x
 					} else {
-						g += -y*hprime/h + (1.-y)*hprime/(1.-h)
+						g += (-y*hprime/h + (1.-y)*hprime/(1.-h)) * x
 					}
 					if math.IsNaN(g) {
 						panic(fmt.Errorf("g is NaN h=%g y=%g ", h, y))
@@ -246,7 +253,8 @@ func panicIfNaN(v float64) float64 {
 	return v
 }
 
-func regularization(Theta, grad *mat.Dense, Alpha, L1Ratio float64, disableRegularizationOfFirstFeature bool) float64 {
+// regularization returns the regularization term and adds gradFactor times its gradient to grad
+func regularization(Theta, grad *mat.Dense, Alpha, L1Ratio, gradFactor float64, disableRegularizationOfFirstFeature bool) float64 {
 	JRegul := 0.
 	// add regularization to cost and grad
 	if Alpha > 0. {
@@ -277,11 +285,11 @@ func regularization(Theta, grad *mat.Dense, Alpha, L1Ratio float64, disableRegul
 				for o := 0; o < NOutputs; o++ {
 					g := grad.At(j, o)
 					t := Theta.At(j, o)
-					if L1Ratio > 0. {
-						g += L1Ratio * t / featureL1
+					if L1Ratio > 0. && featureL1 > 0. {
+						g += gradFactor * Alpha * L1Ratio * t / featureL1
 					}
 					if L1Ratio < 1. {
-						g += (1. - L1Ratio) * t
+						g += gradFactor * Alpha * (1. - L1Ratio) * 2. * t
 					}
 					grad.Set(j, o, g)
 				}
-- 
2.43.0


From ccdfd17288e4b2a4f98d44c97976d70a92c46d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:29 +0000
Subject: [PATCH 43/81] fix: SGDRegressor minimized with a gradient which is
 not the one of its loss

---
 linear_model/Base.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 30aaede..aeda8e6 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -222,7 +222,7 @@ func (regr *SGDRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 			tmp.Sub(tmp, Y.ColView(o))       // Ydiff
 			gradmat := mat.NewDense(nFeatures, 1, nil)
 			gradmat.Mul(X.T(), tmp) // X dot Ydiff
-			al1 := regr.Alpha * regr.L1Ratio / float(nSamples)
+			al1 := regr.Alpha * regr.L1Ratio / 2. / float(nSamples)
 			al2 := regr.Alpha * (1. - regr.L1Ratio) / float(nSamples)
 			sgn := func(x float) float {
 				if x < 0. {
@@ -234,7 +234,7 @@ func (regr *SGDRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 				return 0.
 			}
 			gradmat.Apply(func(j int, o int, gradj float64) float64 {
-				grad[j] = gradj + al1*sgn(gradj) + al2*gradj
+				grad[j] = gradj/float(nSamples) + al1*sgn(coef[j]) + al2*coef[j]
 				return grad[j]
 			}, gradmat)
 		}
-- 
2.43.0


From a94abbbed52907516096376180cdb7b4a204fd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:31 +0000
Subject: [PATCH 44/81] fix: ElasticNet with WarmStart: first fit, other
 dimensions, coefficients shared with clones

---
 linear_model/coordinatedescent.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/linear_model/coordinatedescent.go b/linear_model/coordinatedescent.go
index 37d1257..04624cd 100644
--- a/linear_model/coordinatedescent.go
+++ b/linear_model/coordinatedescent.go
@@ -60,9 +60,14 @@ func (regr *ElasticNet) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 
 	l1reg := regr.Alpha * regr.L1Ratio * float64(NSamples)
 	l2reg := regr.Alpha * (1. - regr.L1Ratio) * float64(NSamples)
-	if !regr.WarmStart {
-		regr.Coef = mat.NewDense(NFeatures, NOutputs, nil)
+	coef := mat.NewDense(NFeatures, NOutputs, nil)
+	if regr.WarmStart && regr.Coef != nil {
+		if r, c := regr.Coef.Dims(); r == NFeatures && c == NOutputs {
+			// a clone may share the previous ones
+			coef.Copy(regr.Coef)
+		}
 	}
+	regr.Coef = coef
 	random := strings.EqualFold("random", regr.Selection)
 	if NOutputs == 1 {
 		y := &mat.VecDense{}
-- 
2.43.0


From b8445c84f6d0d5e023f86d75c40b6ff76b777e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:54 +0000
Subject: [PATCH 45/81] fix: BayesianRidge precisions (effective number of
 parameters, squared error) and standard deviation of predictions

---
 linear_model/bayes.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/linear_model/bayes.go b/linear_model/bayes.go
index 87522b6..108905e 100644
--- a/linear_model/bayes.go
+++ b/linear_model/bayes.go
@@ -137,26 +137,26 @@ func (regr *BayesianRidge) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		diff.Mul(X, coef)
 		diff.Sub(diff, Y)
 
-		rmse := mat.Norm(diff, 2)
+		rmse := math.Pow(mat.Norm(diff, 2), 2)
 
 		// gamma = (np.sum((alpha * eigenVals) /(lambda + alpha*eigenVals)))
 		gamma := 0.
 		{
-			var left, right []float
+			left, right := make([]float, len(eigenVals)), make([]float, len(eigenVals))
 			copy(left, eigenVals)
 
 			floats.Scale(alpha, left)
 			copy(right, left)
 			floats.AddConst(lambda, right)
 			floats.Div(left, right)
-			gamma = floats.Sum(left)
+			gamma = float(nOutputs) * floats.Sum(left)
 		}
 		//lambda = ((gamma + 2*lambda1) /(np.sum(coef**2) + 2*lambda2))
 		coef2.MulElem(coef, coef)
 		sumcoef2 := mat.Sum(coef2)
 		lambda = (gamma + 2*lambda1) / (mat.Sum(coef2) + 2*lambda2)
 		//alpha_ = ((n_samples - gamma_ + 2 * alpha_1) /(rmse_ + 2 * alpha_2))
-		alpha = ((float(nSamples) - gamma + 2*alpha1) / (rmse + 2*alpha2))
+		alpha = ((float(nSamples*nOutputs) - gamma + 2*alpha1) / (rmse + 2*alpha2))
 		log := math.Log
 		// # Compute the objective function
 		if regr.ComputeScore {
@@ -193,6 +193,7 @@ func (regr *BayesianRidge) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	//regr.sigma = (1. / alpha) * sigma
 	sigma = calcsigma(VhT, eigenVals, lambda, alpha)
 	regr.Alpha = alpha
+	regr.Lambda = lambda
 	regr.Sigma = mat.NewDense(nFeatures, nFeatures, nil)
 	regr.Sigma.Scale(1./alpha, sigma)
 
@@ -252,13 +253,14 @@ func (regr *BayesianRidge) Predict2(X, Y, yStd *mat.Dense) {
 	sigmasSquaredData.Apply(func(i int, _ int, _ float64) float64 {
 		v := 0.
 		for j := 0; j < nFeatures; j++ {
-			x := Xn.At(i, j)
-			v += x * regr.Sigma.At(0, j) * x
+			for k := 0; k < nFeatures; k++ {
+				v += Xn.At(i, j) * regr.Sigma.At(j, k) * Xn.At(i, k)
+			}
 		}
 		return v
 	}, sigmasSquaredData)
 	*yStd = *mat.NewDense(nSamples, 1, nil)
 	yStd.Apply(func(i int, j int, sigmasSquaredData float64) float64 {
-		return sigmasSquaredData + 1./regr.Alpha
+		return math.Sqrt(sigmasSquaredData + 1./regr.Alpha)
 	}, sigmasSquaredData)
 }
-- 
2.43.0


From 7ad033a807c754ddf3daf8bff5d5227afc525c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:55 +0000
Subject: [PATCH 46/81] fix: LogisticRegression kept the last evaluated
 parameters instead of the best ones, refit with other labels, strided labels,
 softmax overflow

---
 linear_model/logistic.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index ddeda9e..33122fd 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -81,9 +81,10 @@ var logregActivation = map[string]func(z blas64.General){
 	"softmax": func(z blas64.General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			sum := float64(0)
+			max := floats.Max(z.Data[zpos : zpos+z.Cols])
 			for col := 0; col < z.Cols; col++ {
 
-				z.Data[zpos+col] = math.Exp(z.Data[zpos+col])
+				z.Data[zpos+col] = math.Exp(z.Data[zpos+col] - max)
 				sum += z.Data[zpos+col]
 			}
 			for col := 0; col < z.Cols; col++ {
@@ -251,9 +252,9 @@ func (m *LogisticRegression) backprop(X, y blas64.General, activations []blas64.
 	{
 		H := activations[len(activations)-1]
 		D := deltas
-		for r, pos := 0, 0; r < y.Rows; r, pos = r+1, pos+y.Stride {
-			for o, posc := 0, pos; o < y.Cols; o, posc = o+1, posc+1 {
-				D.Data[posc] = H.Data[posc] - y.Data[posc]
+		for r := 0; r < y.Rows; r++ {
+			for o := 0; o < y.Cols; o++ {
+				D.Data[r*D.Stride+o] = H.Data[r*H.Stride+o] - y.Data[r*y.Stride+o]
 			}
 		}
 	}
@@ -336,15 +337,9 @@ func (m *LogisticRegression) IsClassifier() bool {
 
 // Fit compute Coef and Intercept
 func (m *LogisticRegression) Fit(X, Y mat.Matrix) base.Fiter {
-	var xb, yb *mat.Dense
-	if xg, ok := X.(*mat.Dense); ok {
-		if yg, ok := Y.(*mat.Dense); ok {
-			xb, yb = xg, yg
-		}
-	} else {
-		xb = mat.DenseCopyOf(X)
-		yb = mat.DenseCopyOf(Y)
-	}
+	xb, yb := base.ToDense(X), base.ToDense(Y)
+	m.lb = nil
+	m.LossCurve = nil
 	if m.IsClassifier() && !isBinarized(yb) {
 		m.lb = preprocessing.NewLabelBinarizer(0, 1)
 		xbin, ybin := m.lb.FitTransform(X, Y)
@@ -444,6 +439,9 @@ func (m *LogisticRegression) fitLbfgs(X, y blas64.General, activations []blas64.
 	if err != nil {
 		log.Panic(err)
 	}
+	// last evaluated parameters are not always the best ones
+	copy(m.packedParameters, res.X)
+	m.Loss = res.F
 	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", m.MaxIter)
 	}
-- 
2.43.0


From 547415eba56aa97b5fd5d25c83bf84b6bf54efa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:24 +0000
Subject: [PATCH 47/81] fix: LogisticRegression panicked when the line search
 can't improve the solution any more

---
 linear_model/logistic.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index 33122fd..bdc32f1 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -436,13 +436,16 @@ func (m *LogisticRegression) fitLbfgs(X, y blas64.General, activations []blas64.
 		m.beforeMinimize(problem, w)
 	}
 	res, err := optimize.Minimize(problem, w, settings, method)
-	if err != nil {
+	if res == nil {
 		log.Panic(err)
 	}
 	// last evaluated parameters are not always the best ones
 	copy(m.packedParameters, res.X)
 	m.Loss = res.F
-	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
+	if err != nil {
+		// the line search can't improve res.X any more
+		log.Printf("lbfgs optimizer: %s\n", err)
+	} else if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", m.MaxIter)
 	}
 }
-- 
2.43.0


From bb43078f5b7e40b5a135d2275318517a8054f919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:31 +0000
Subject: [PATCH 48/81] fix: SVC rejected every update which decreases the
 second multiplier

---
 svm/svm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svm/svm.go b/svm/svm.go
index 06749b9..69e1678 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -112,7 +112,7 @@ func svmTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 				// % Clip
 				alphas[j] = math.Max(L, math.Min(H, alphas[j]))
 				// % Check if change in alpha is significant
-				if alphas[j]-alphajold < Tol {
+				if math.Abs(alphas[j]-alphajold) < Tol {
 					alphas[j] = alphajold
 					continue
 				}
-- 
2.43.0


From 4470a0bb72e6d2c71c5ce4d8d3a5492f05c9080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:33 +0000
Subject: [PATCH 49/81] fix: SVC and SVR panicked when no sample is a support
 vector

---
 svm/svm.go | 5 ++++-
 svm/svr.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/svm/svm.go b/svm/svm.go
index 69e1678..284c231 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -154,13 +154,16 @@ func svmTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 		}
 	}
 	model := &Model{
-		X:              mat.NewDense(len(idx), n, nil),
+		X:              &mat.Dense{},
 		Y:              make([]float64, len(idx)),
 		KernelFunction: KernelFunction,
 		B:              b,
 		Alphas:         make([]float64, len(idx)),
 		Support:        idx,
 	}
+	if len(idx) > 0 {
+		model.X = mat.NewDense(len(idx), n, nil)
+	}
 	for ii, i := range idx {
 		model.X.SetRow(ii, X.RawRowView(i))
 		model.Y[ii] = Y[i]
diff --git a/svm/svr.go b/svm/svr.go
index 780f841..a21b874 100644
--- a/svm/svr.go
+++ b/svm/svr.go
@@ -177,12 +177,15 @@ func svrTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 	}
 
 	model := &Model{
-		X:              mat.NewDense(len(idx), n, nil),
+		X:              &mat.Dense{},
 		KernelFunction: KernelFunction,
 		B:              b,
 		Alphas:         make([]float64, len(idx)),
 		Support:        idx,
 	}
+	if len(idx) > 0 {
+		model.X = mat.NewDense(len(idx), n, nil)
+	}
 	for ii, i := range idx {
 		model.X.SetRow(ii, X.RawRowView(i))
 		model.Alphas[ii] = alphas[i]
-- 
2.43.0


From fb3cbc5c2f3e41e1e5142a2b4dd0726031590a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:35 +0000
Subject: [PATCH 50/81] fix: SVC and SVR outputs drew concurrently from the
 same random state

---
 svm/svm.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/svm/svm.go b/svm/svm.go
index 284c231..96baa70 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -295,11 +295,19 @@ func (m *BaseLibSVM) fit(X, Y *mat.Dense, svmTrain func(X *mat.Dense, Y []float6
 	}
 	m.Support = make([][]int, Noutputs)
 	m.SupportVectors = make([][][]float64, Noutputs)
+	randomStates := make([]base.Source, Noutputs)
+	for output := range randomStates {
+		randomStates[output] = m.RandomState
+		if m.RandomState != nil && Noutputs > 1 {
+			// outputs are trained concurrently
+			randomStates[output] = base.NewSource(m.RandomState.Uint64())
+		}
+	}
 	base.Parallelize(-1, Noutputs, func(th, start, end int) {
 		y := make([]float64, NSamples)
 		for output := start; output < end; output++ {
 			mat.Col(y, output, Y)
-			m.Model[output] = svmTrain(X, y, m.C, m.Epsilon, K, m.Tol, m.MaxIter, m.CacheSize, m.RandomState)
+			m.Model[output] = svmTrain(X, y, m.C, m.Epsilon, K, m.Tol, m.MaxIter, m.CacheSize, randomStates[output])
 			model := m.Model[output]
 			m.Support[output] = model.Support
 			m.SupportVectors[output] = make([][]float64, len(model.Support))
-- 
2.43.0


From f3a4b75071b4cdbed1ca5d93688d2c5ad5540cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:36 +0000
Subject: [PATCH 51/81] fix: SVC with 0,1 labels, and score with -1,1 labels

---
 svm/svm.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/svm/svm.go b/svm/svm.go
index 96baa70..62a0ee0 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -255,7 +255,14 @@ func (m *SVC) IsClassifier() bool { return true }
 // Fit for SVC
 func (m *SVC) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	_, m.nOutputs = Ymatrix.Dims()
-	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
+	// negative samples are 0 or -1
+	X, Y := base.ToDense(Xmatrix), mat.DenseCopyOf(Ymatrix)
+	Y.Apply(func(i, j int, y float64) float64 {
+		if y > 0 {
+			return 1
+		}
+		return -1
+	}, Y)
 	m.BaseLibSVM.fit(X, Y, svmTrain)
 	return m
 }
@@ -341,5 +348,12 @@ func (m *SVC) Predict(Xmatrix mat.Matrix, Ymutable mat.Mutable) *mat.Dense {
 // Score for SVC returns accuracy
 func (m *SVC) Score(X, Y mat.Matrix) float64 {
 	Ypred := m.Predict(X, nil)
-	return metrics.AccuracyScore(Y, Ypred, true, nil)
+	Ytrue := mat.DenseCopyOf(Y)
+	Ytrue.Apply(func(i, j int, y float64) float64 {
+		if y > 0 {
+			return 1
+		}
+		return 0
+	}, Ytrue)
+	return metrics.AccuracyScore(Ytrue, Ypred, true, nil)
 }
-- 
2.43.0


From 6d8839022d382693fbd6d7a59fbced503d9419dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:04 +0000
Subject: [PATCH 52/81] fix: SVR pair selection and clipping of multipliers of
 opposite signs (training did not terminate)

---
 svm/svr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svm/svr.go b/svm/svr.go
index a21b874..fbe6d6a 100644
--- a/svm/svr.go
+++ b/svm/svr.go
@@ -107,7 +107,7 @@ func svrTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 						continue
 					}
 					E[j3] = f(j3) - Y[j3]
-					if (E[j3] < -Epsilon) || (E[j] > Epsilon) {
+					if (E[j3] < -Epsilon) || (E[j3] > Epsilon) {
 						j = j3
 						break
 					}
@@ -132,7 +132,7 @@ func svrTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 
 				if alphas[i]*alphas[j] < 0 {
 					aai, aaj := abs(alphas[i]), abs(alphas[j])
-					if aai > delta || aaj > delta {
+					if aai > delta && aaj > delta {
 						alphas[j] -= sgn(alphas[j]) * delta
 					} else {
 						alphas[j] = step(aaj-aai) * s
-- 
2.43.0


From e69c77fd9484c93b3eebd7c0668710ee7acc10f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:35 +0000
Subject: [PATCH 53/81] fix: covariance kernels: gradients of RBF with several
 length scales, WhiteKernel and Exponentiation, clones of WhiteKernel,
 Exponentiation and kernels with fixed parameters

---
 gaussian_process/kernels/kernels.go | 96 +++++++++++++++++------------
 gaussian_process/kernels/matutil.go |  3 +
 2 files changed, 59 insertions(+), 40 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index 9302e93..7391555 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -2,7 +2,6 @@ package kernels
 
 import (
 	"fmt"
-	"github.com/pa-m/sklearn/base"
 	"math"
 
 	"gonum.org/v1/gonum/floats"
@@ -126,12 +125,15 @@ func (k KernelOperator) CloneWithTheta(theta mat.Matrix) Kernel {
 	if theta == mat.Matrix(nil) {
 		return KernelOperator{K1: k.K1.CloneWithTheta(nil), K2: k.K2.CloneWithTheta(nil)}
 	}
-	var td = base.ToDense(theta)
 	n1, _ := k.K1.Theta().Dims()
 	n2, _ := k.K2.Theta().Dims()
+	// part has no row when all parameters of a kernel are fixed
+	part := func(first, n int) mat.Matrix {
+		return matFromFunc{r: n, c: 1, at: func(i, j int) float64 { return theta.At(first+i, j) }}
+	}
 	return KernelOperator{
-		K1: k.K1.CloneWithTheta(td.Slice(0, n1, 0, 1)),
-		K2: k.K2.CloneWithTheta(td.Slice(n1, n1+n2, 0, 1)),
+		K1: k.K1.CloneWithTheta(part(0, n1)),
+		K2: k.K2.CloneWithTheta(part(n1, n2)),
 	}
 }
 
@@ -172,7 +174,7 @@ func (k *Sum) Eval(X, Y mat.Matrix, evalGradient bool) (*mat.Dense, *t.Dense) {
 	K2, K2g := k.K2.Eval(X, Y, evalGradient)
 	K1.Add(K1, K2)
 	var Kg *t.Dense
-	if evalGradient {
+	if K1g != nil && K2g != nil {
 		s1, s2 := K1g.Shape(), K2g.Shape()
 		s := t.Shape{s1[0], s1[1], s1[2] + s2[2]}
 		Kg = t.NewDense(K1g.Dtype(), s)
@@ -228,7 +230,7 @@ func (k *Product) Eval(X, Y mat.Matrix, evalGradient bool) (*mat.Dense, *t.Dense
 	K := &mat.Dense{}
 	K.MulElem(K1, K2)
 	var Kg *t.Dense
-	if evalGradient {
+	if K1g != nil && K2g != nil {
 		s1, s2 := K1g.Shape(), K2g.Shape()
 		s := t.Shape{s1[0], s1[1], s1[2] + s2[2]}
 		Kg = t.NewDense(K1g.Dtype(), s)
@@ -281,7 +283,7 @@ type Exponentiation struct {
 
 // hyperparameters ...
 func (k Exponentiation) hyperparameters() hyperparameters {
-	hps := k.hyperparameters()
+	hps := k.Kernel.hyperparameters()
 	params := make(hyperparameters, len(hps))
 	for i, p := range hps {
 		p.Name = "kernel_" + p.Name
@@ -290,19 +292,26 @@ func (k Exponentiation) hyperparameters() hyperparameters {
 	return params
 }
 
+// CloneWithTheta ...
+func (k Exponentiation) CloneWithTheta(theta mat.Matrix) Kernel {
+	return &Exponentiation{Kernel: k.Kernel.CloneWithTheta(theta), Exponent: k.Exponent}
+}
+
 // Eval return the kernel k(X, Y) and optionally its gradient
 func (k *Exponentiation) Eval(X, Y mat.Matrix, evalGradient bool) (*mat.Dense, *t.Dense) {
 	K, Kg := k.Kernel.Eval(X, Y, evalGradient)
-	K.Apply(func(_, _ int, v float64) float64 {
-		return math.Pow(v, k.Exponent)
-	}, K)
-	if evalGradient {
+	if Kg != nil {
+		// d(K**e) = e * K**(e-1) * dK, for each hyperparameter
 		Kdata := K.RawMatrix().Data
 		Kgdata := Kg.Data().([]float64)
+		nparams := Kg.Shape()[2]
 		for i := range Kgdata {
-			Kgdata[i] *= k.Exponent * math.Pow(Kdata[i], k.Exponent-1)
+			Kgdata[i] *= k.Exponent * math.Pow(Kdata[i/nparams], k.Exponent-1)
 		}
 	}
+	K.Apply(func(_, _ int, v float64) float64 {
+		return math.Pow(v, k.Exponent)
+	}, K)
 	return K, Kg
 }
 
@@ -436,7 +445,7 @@ func (k WhiteKernel) Bounds() mat.Matrix {
 // CloneWithTheta ...
 func (k WhiteKernel) CloneWithTheta(theta mat.Matrix) Kernel {
 	clone := k
-	matCopy(k.Theta().(mat.Mutable), theta)
+	matCopy(clone.Theta().(mat.Mutable), theta)
 	return &clone
 }
 
@@ -470,9 +479,7 @@ func (k *WhiteKernel) Eval(X, Y mat.Matrix, evalGradient bool) (*mat.Dense, *t.D
 			it := Kg.Iterator()
 			Kgdata := Kg.Data().([]float64)
 			for i, e := it.Start(); e == nil; i, e = it.Next() {
-				if i%(nx+1) == 0 {
-					Kgdata[i] = k.NoiseLevel
-				}
+				Kgdata[i] = Kr.Data[i]
 			}
 		}
 	}
@@ -516,8 +523,10 @@ type RBF struct {
 func (k *RBF) hyperparameters() hyperparameters {
 	params := make(hyperparameters, len(k.LengthScale))
 	for i := range k.LengthScale {
-		params[i] = hyperparameter{Name: fmt.Sprintf("length_scale_%d", i), PValue: &k.LengthScale[i], PBounds: &k.LengthScaleBounds[i]}
-
+		params[i] = hyperparameter{Name: fmt.Sprintf("length_scale_%d", i), PValue: &k.LengthScale[i]}
+		if i < len(k.LengthScaleBounds) {
+			params[i].PBounds = &k.LengthScaleBounds[i]
+		}
 	}
 	return params
 }
@@ -582,28 +591,35 @@ func (k *RBF) Eval(X, Y mat.Matrix, evalGradient bool) (K *mat.Dense, Kg *t.Dens
 		}
 	}
 	if evalGradient && Y == X {
-		if k.hyperparameters()[0].IsFixed() {
-			Kg = t.NewDense(t.Float64, t.Shape{nx, nx, 0}, t.WithBacking(nil))
-		} else {
-			Kg = t.NewDense(t.Float64, t.Shape{nx, nx, 1}, t.WithBacking(make([]float64, nx*nx)))
-			it := Kg.Iterator()
-			Kgdata := Kg.Data().([]float64)
-			Kdata := K.RawMatrix().Data
-			xr, xc, xd := mat.NewVecDense(nfeat, nil), mat.NewVecDense(nfeat, nil), mat.NewVecDense(nfeat, nil)
-			for i, e := it.Start(); e == nil; i, e = it.Next() {
-				r, c := i/nx, i%nx
-				mat.Row(xr.RawVector().Data, r, X)
-				mat.Row(xc.RawVector().Data, c, X)
-				xd.SubVec(xr, xc)
-				switch len(k.LengthScale) {
-				case 1:
-					xd.ScaleVec(1/k.LengthScale[0], xd)
-				case nfeat:
-					xd.DivElemVec(xd, mat.NewVecDense(nfeat, k.LengthScale))
-				default:
-					panic("dim error")
-				}
-				Kgdata[i] = Kdata[i] * mat.Dot(xd, xd)
+		// free is the list of length scales which are not fixed
+		free := make([]int, 0, len(k.LengthScale))
+		for i, p := range k.hyperparameters() {
+			if !p.IsFixed() {
+				free = append(free, i)
+			}
+		}
+		nfree := len(free)
+		Kg = t.NewDense(t.Float64, t.Shape{nx, nx, nfree}, t.WithBacking(make([]float64, nx*nx*nfree)))
+		it := Kg.Iterator()
+		Kgdata := Kg.Data().([]float64)
+		Kdata := K.RawMatrix().Data
+		xr, xc, xd := mat.NewVecDense(nfeat, nil), mat.NewVecDense(nfeat, nil), mat.NewVecDense(nfeat, nil)
+		for i, e := it.Start(); e == nil; i, e = it.Next() {
+			p := i / nfree
+			r, c := p/nx, p%nx
+			mat.Row(xr.RawVector().Data, r, X)
+			mat.Row(xc.RawVector().Data, c, X)
+			xd.SubVec(xr, xc)
+			switch len(k.LengthScale) {
+			case 1:
+				xd.ScaleVec(1/k.LengthScale[0], xd)
+				Kgdata[i] = Kdata[p] * mat.Dot(xd, xd)
+			case nfeat:
+				xd.DivElemVec(xd, mat.NewVecDense(nfeat, k.LengthScale))
+				d := xd.AtVec(free[i%nfree])
+				Kgdata[i] = Kdata[p] * d * d
+			default:
+				panic("dim error")
 			}
 		}
 	}
diff --git a/gaussian_process/kernels/matutil.go b/gaussian_process/kernels/matutil.go
index 6147008..42e4e11 100644
--- a/gaussian_process/kernels/matutil.go
+++ b/gaussian_process/kernels/matutil.go
@@ -49,6 +49,9 @@ func (m matFromFunc) T() mat.Matrix {
 }
 
 func matCopy(dst mat.Mutable, src mat.Matrix) {
+	if src == mat.Matrix(nil) {
+		return
+	}
 	r, c := src.Dims()
 	for i := 0; i < r; i++ {
 		for j := 0; j < c; j++ {
-- 
2.43.0


From 32564c2c32117d92c9f7e3801e62bd94287c60d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:29 +0000
Subject: [PATCH 54/81] fix: gaussian process Regressor predicted with its
 noise level as dual coefficients, refitted on the data it scores, clones of a
 fitted regressor panicked

---
 gaussian_process/gpr.go | 109 +++++++++++++++++++++++++++++-----------
 1 file changed, 80 insertions(+), 29 deletions(-)

diff --git a/gaussian_process/gpr.go b/gaussian_process/gpr.go
index d540063..22c81a6 100644
--- a/gaussian_process/gpr.go
+++ b/gaussian_process/gpr.go
@@ -28,6 +28,8 @@ type Regressor struct {
 	KernelOpt                  kernels.Kernel
 	L                          *mat.Cholesky
 	LogMarginalLikelihoodValue float64
+	// dual coefficients (K + diag(Alpha))^-1 * (Ytrain - YtrainMean)
+	dualCoef *mat.Dense
 }
 
 // NewRegressor ...
@@ -54,11 +56,19 @@ func (m *Regressor) PredicterClone() base.Predicter {
 
 		clone.Ytrain = mat.DenseCopyOf(m.Ytrain)
 	}
+	if m.YtrainMean != nil {
+		clone.YtrainMean = mat.DenseCopyOf(m.YtrainMean)
+	}
+	if m.dualCoef != nil {
+		clone.dualCoef = mat.DenseCopyOf(m.dualCoef)
+	}
+	clone.Alpha = append([]float64(nil), m.Alpha...)
 	clone.Kernel = m.Kernel.CloneWithTheta(m.Kernel.Theta())
 	if m.KernelOpt != kernels.Kernel(nil) {
 		clone.KernelOpt = m.KernelOpt.CloneWithTheta(m.KernelOpt.Theta())
 	}
 	if m.L != nil {
+		clone.L = &mat.Cholesky{}
 		clone.L.Clone(m.L)
 	}
 	return &clone
@@ -74,25 +84,56 @@ func (m *Regressor) GetNOutputs() int {
 
 // Fit Gaussian process regression model
 func (m *Regressor) Fit(X, Y mat.Matrix) base.Fiter {
-	_, ry := Y.Dims()
-	m.Xtrain = mat.DenseCopyOf(X)
-	m.Ytrain = mat.DenseCopyOf(Y)
+	ry, cy := Y.Dims()
 	if len(m.Alpha) != 1 && len(m.Alpha) != ry {
 		panic(fmt.Errorf("alpha must be a scalar or an array with same number of entries as y.(%d != %d)", len(m.Alpha), ry))
 	}
+	m.Xtrain = mat.DenseCopyOf(X)
+	m.Ytrain = mat.DenseCopyOf(Y)
+	m.YtrainMean = mat.NewDense(1, cy, nil)
+	if m.NormalizeY {
+		for j := 0; j < cy; j++ {
+			m.YtrainMean.Set(0, j, mat.Sum(m.Ytrain.ColView(j))/float64(ry))
+		}
+		m.Ytrain.Apply(func(_, j int, v float64) float64 { return v - m.YtrainMean.At(0, j) }, m.Ytrain)
+	}
+	m.KernelOpt = m.Kernel
+	K, _ := m.Kernel.Eval(m.Xtrain, nil, false)
+	m.L = &mat.Cholesky{}
+	if !m.L.Factorize(m.addAlpha(K)) {
+		panic(fmt.Errorf("the kernel %s is not returning a positive definite matrix. Try gradually increasing Alpha", m.Kernel))
+	}
+	m.dualCoef = &mat.Dense{}
+	if err := m.L.SolveTo(m.dualCoef, m.Ytrain); err != nil {
+		if _, ok := err.(mat.Condition); !ok {
+			panic(err)
+		}
+	}
+	m.LogMarginalLikelihoodValue, _ = m.LogMarginalLikelihood(m.Kernel.Theta(), false)
 	return m
 }
 
+// addAlpha adds m.Alpha to the diagonal of K and returns it as a symmetric matrix
+func (m *Regressor) addAlpha(K *mat.Dense) *mat.SymDense {
+	Kraw := K.RawMatrix()
+	alphainc := 1
+	if len(m.Alpha) == 1 {
+		alphainc = 0
+	}
+	for i := 0; i < Kraw.Rows; i++ {
+		Kraw.Data[i*(Kraw.Stride+1)] += m.Alpha[i*alphainc]
+	}
+	Ksym := &mat.SymDense{}
+	Ksym.SetRawSymmetric(blas64.Symmetric{Uplo: blas.Upper, N: Kraw.Rows, Stride: Kraw.Stride, Data: Kraw.Data})
+	return Ksym
+}
+
 // PredictEx predicts using the Gaussian process regression model, returning Ymean and std or cov
 func (m *Regressor) PredictEx(X mat.Matrix, Y mat.Mutable, returnStd, returnCov bool) (*mat.Dense, *mat.DiagDense, *mat.Dense) {
 	NSamples, _ := X.Dims()
 	var Ymean, Ycov *mat.Dense
 	var Ystd *mat.DiagDense
-	if _, ok := Y.(*mat.Dense); ok {
-		Ymean = Y.(*mat.Dense)
-	} else {
-		Ymean = mat.NewDense(NSamples, m.GetNOutputs(), nil)
-	}
+	Ymean = mat.NewDense(NSamples, m.GetNOutputs(), nil)
 	if m.Xtrain == nil {
 		// # Unfitted;predict based on GP prior
 		// y_mean = np.zeros(X.shape[0])
@@ -112,12 +153,29 @@ func (m *Regressor) PredictEx(X mat.Matrix, Y mat.Mutable, returnStd, returnCov
 		//y_mean = self._y_train_mean + y_mean  # undo normal.
 
 		Ktrans, _ := m.Kernel.Eval(X, m.Xtrain, false)
-		Ymean.Mul(Ktrans, mat.NewDense(NSamples, 1, m.Alpha))
-		Ymean.Add(Ymean, m.YtrainMean)
-		if returnStd {
-			// TODO
-		} else if returnCov {
-			// TODO
+		Ymean.Mul(Ktrans, m.dualCoef)
+		Ymean.Apply(func(_, j int, v float64) float64 { return v + m.YtrainMean.At(0, j) }, Ymean)
+		if returnCov || returnStd {
+			// V = (K + diag(Alpha))^-1 * Ktrans.T
+			V := &mat.Dense{}
+			if err := m.L.SolveTo(V, Ktrans.T()); err != nil {
+				if _, ok := err.(mat.Condition); !ok {
+					panic(err)
+				}
+			}
+			if returnCov {
+				Ycov, _ = m.Kernel.Eval(X, nil, false)
+				KV := &mat.Dense{}
+				KV.Mul(Ktrans, V)
+				Ycov.Sub(Ycov, KV)
+			} else {
+				Ystd = m.Kernel.Diag(X)
+				for i := 0; i < NSamples; i++ {
+					// rounding errors can make the variance slightly negative
+					variance := math.Max(0, Ystd.At(i, i)-mat.Dot(Ktrans.RowView(i), V.ColView(i)))
+					Ystd.SetDiag(i, math.Sqrt(variance))
+				}
+			}
 		}
 	}
 	return base.FromDense(Y, Ymean), Ystd, Ycov
@@ -126,12 +184,11 @@ func (m *Regressor) PredictEx(X mat.Matrix, Y mat.Mutable, returnStd, returnCov
 // Predict using the Gaussian process regression model
 func (m *Regressor) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
 	Ymean, _, _ := m.PredictEx(X, Y, false, false)
-	return base.FromDense(Y, Ymean)
+	return Ymean
 }
 
 // Score returns R2 score
 func (m *Regressor) Score(X, Y mat.Matrix) float64 {
-	m.Fit(X, Y)
 	pred := m.Predict(X, nil)
 	return metrics.R2Score(Y, pred, nil, "").At(0, 0)
 }
@@ -154,18 +211,8 @@ func (m *Regressor) LogMarginalLikelihood(Theta mat.Matrix, evalGradient bool) (
 	K, Kg = kernel.Eval(m.Xtrain, nil, evalGradient)
 
 	// add m.Alpha to K diagonal
-	Kraw := K.RawMatrix()
-	Kdata := Kraw.Data
-	alphainc := 1
-	if len(m.Alpha) == 1 {
-		alphainc = 0
-	}
 	nx, _ := m.Xtrain.Dims()
-	for i := 0; i < nx; i++ {
-		Kdata[i*(nx+1)] += m.Alpha[i*alphainc]
-	}
-	Ksym := &mat.SymDense{}
-	Ksym.SetRawSymmetric(blas64.Symmetric{Uplo: blas.Upper, N: Kraw.Rows, Stride: Kraw.Stride, Data: Kraw.Data})
+	Ksym := m.addAlpha(K)
 	cho := &mat.Cholesky{}
 
 	posdef := cho.Factorize(Ksym)
@@ -184,7 +231,7 @@ func (m *Regressor) LogMarginalLikelihood(Theta mat.Matrix, evalGradient bool) (
 	alpha := &mat.Dense{}
 	err := cho.SolveTo(alpha, m.Ytrain)
 
-	if err != nil {
+	if _, ok := err.(mat.Condition); err != nil && !ok {
 		panic(err)
 	}
 	// log_likelihood_dims = -0.5 * np.einsum("ik,ik->k", y_train, alpha)
@@ -221,7 +268,7 @@ func (m *Regressor) LogMarginalLikelihood(Theta mat.Matrix, evalGradient bool) (
 		// log_likelihood_gradient = log_likelihood_gradient_dims.sum(-1)
 		choSolved := &mat.Dense{}
 		err = cho.SolveTo(choSolved, eye(nx))
-		if err != nil {
+		if _, ok := err.(mat.Condition); err != nil && !ok {
 			panic(err)
 		}
 		ni, nk := alpha.Dims()
@@ -245,6 +292,10 @@ func (m *Regressor) LogMarginalLikelihood(Theta mat.Matrix, evalGradient bool) (
 		//0.5 * np.einsum("ijl,ijk->kl", tmp, K_gradient)
 		tmpShape, tmpStrides := tmp.Shape(), tmp.Strides()
 		KgShape, KgStrides := Kg.Shape(), Kg.Strides()
+		if KgShape[2] == 0 {
+			// all hyperparameters are fixed
+			return lml, []float64{}
+		}
 		llgdims := mat.NewDense(KgShape[2], tmpShape[2], nil)
 		Kgd := Kg.Data().([]float64)
 		{
-- 
2.43.0


From b9d7d1e61a89a6a4ef1354571daa4a88e5d9a289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:38 +0000
Subject: [PATCH 55/81] fix: SGDOptimizer used as an optimize.Method panicked
 on convergence

---
 base/optimizers.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/base/optimizers.go b/base/optimizers.go
index 3ee6bbc..0e97ba0 100644
--- a/base/optimizers.go
+++ b/base/optimizers.go
@@ -77,8 +77,8 @@ type SGDOptimizer struct {
 	Beta1, Beta2 float64
 	Mt, Vt       *mat.Dense
 
-	status optimize.Status
-	err    error
+	// gd is the method run when SGDOptimizer is used as an optimize.Method
+	gd *optimize.GradientDescent
 }
 
 // NewSGDOptimizer returns an initialized *SGDOptimizer with stepsize 1e-4 and momentum 0.9
@@ -319,9 +319,8 @@ func colNorm(m mat.Matrix, o int) float64 {
 // and returns the first operation to be carried out by the caller.
 // The initial location must be valid as specified by Needs.
 func (s *SGDOptimizer) Init(dim, tasks int) int {
-	s.status = optimize.NotTerminated
-	s.err = nil
-	return 1
+	s.gd = &optimize.GradientDescent{}
+	return s.gd.Init(dim, tasks)
 }
 
 func (s *SGDOptimizer) initLocal(loc *optimize.Location) (op optimize.Operation, err error) {
@@ -343,7 +342,12 @@ func (s *SGDOptimizer) initLocal(loc *optimize.Location) (op optimize.Operation,
 
 // Run implements optimize.Method.Run for SGDOptimizer
 func (s *SGDOptimizer) Run(operation chan<- optimize.Task, result <-chan optimize.Task, tasks []optimize.Task) {
-	(&optimize.GradientDescent{}).Run(operation, result, tasks)
+	s.gd.Run(operation, result, tasks)
+}
+
+// Status implements optimize.Statuser, which is required to end on convergence
+func (s *SGDOptimizer) Status() (optimize.Status, error) {
+	return s.gd.Status()
 }
 
 // Uses  is for when SGDOptimizer is used as an optimize.Method
-- 
2.43.0


From 1c5a4627522682cb0235abe2200731b47677d8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:12 +0000
Subject: [PATCH 56/81] fix: clones of SGDRegressor shared the state of their
 optimization method

---
 linear_model/Base.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index aeda8e6..a691d72 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -11,6 +11,7 @@ import (
 
 	//"gonum.org/v1/gonum/diff/fd"
 	"math"
+	"reflect"
 	"runtime"
 
 	"golang.org/x/exp/rand"
@@ -157,9 +158,38 @@ func (*SGDRegressor) IsClassifier() bool { return false }
 // PredicterClone for SGDRegressor
 func (regr *SGDRegressor) PredicterClone() base.Predicter {
 	clone := *regr
+	if regr.Method != nil {
+		clone.Method = cloneMethod(regr.Method).(optimize.Method)
+	}
 	return &clone
 }
 
+// cloneMethod returns a copy of the settings (exported fields) of a method,
+// without its running state: clones may be fitted concurrently
+func cloneMethod(m interface{}) interface{} {
+	if sgd, ok := m.(*base.SGDOptimizer); ok {
+		clone := *sgd
+		return &clone
+	}
+	v := reflect.ValueOf(m)
+	if v.Kind() != reflect.Ptr || v.IsNil() || v.Elem().Type().PkgPath() != reflect.TypeOf(optimize.LBFGS{}).PkgPath() {
+		return m
+	}
+	clone := reflect.New(v.Elem().Type())
+	for i := 0; i < v.Elem().NumField(); i++ {
+		dst, src := clone.Elem().Field(i), v.Elem().Field(i)
+		if !dst.CanSet() {
+			continue
+		}
+		if src.Kind() == reflect.Interface && !src.IsNil() {
+			dst.Set(reflect.ValueOf(cloneMethod(src.Interface())))
+		} else {
+			dst.Set(src)
+		}
+	}
+	return clone.Interface()
+}
+
 // Fit learns Coef
 func (regr *SGDRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X0, y0 := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
-- 
2.43.0


From 7bcea03ba39ac538628a17bad3154c1047edb8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:02 +0000
Subject: [PATCH 57/81] fix: tanh activation of neural networks is tanh(z), not
 tanh(-z)

---
 neural_network/basemlp32.go | 2 +-
 neural_network/basemlp64.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index bcdbc41..a0a23b3 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -88,7 +88,7 @@ var Activations32 = map[string]func(z blas32General){
 	"tanh": func(z blas32General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			for col := 0; col < z.Cols; col++ {
-				z.Data[zpos+col] = M32.Tanh(-z.Data[zpos+col])
+				z.Data[zpos+col] = M32.Tanh(z.Data[zpos+col])
 			}
 		}
 	},
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index d50f893..bc64be9 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -88,7 +88,7 @@ var Activations64 = map[string]func(z blas64General){
 	"tanh": func(z blas64General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			for col := 0; col < z.Cols; col++ {
-				z.Data[zpos+col] = M64.Tanh(-z.Data[zpos+col])
+				z.Data[zpos+col] = M64.Tanh(z.Data[zpos+col])
 			}
 		}
 	},
-- 
2.43.0


From 06e031900166ac415991c1f1eef7b4545de9604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:04 +0000
Subject: [PATCH 58/81] fix: softmax does not overflow for large activations

---
 neural_network/basemlp32.go | 4 +++-
 neural_network/basemlp64.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index a0a23b3..3f1c48a 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -104,9 +104,11 @@ var Activations32 = map[string]func(z blas32General){
 	"softmax": func(z blas32General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			sum := float32(0)
+			// subtract the largest value so that Exp can not overflow
+			zmax := z.Data[zpos+MaxIdx32(z.Data[zpos:zpos+z.Cols])]
 			for col := 0; col < z.Cols; col++ {
 
-				z.Data[zpos+col] = M32.Exp(z.Data[zpos+col])
+				z.Data[zpos+col] = M32.Exp(z.Data[zpos+col] - zmax)
 				sum += z.Data[zpos+col]
 			}
 			for col := 0; col < z.Cols; col++ {
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index bc64be9..26d0244 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -104,9 +104,11 @@ var Activations64 = map[string]func(z blas64General){
 	"softmax": func(z blas64General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			sum := float64(0)
+			// subtract the largest value so that Exp can not overflow
+			zmax := z.Data[zpos+MaxIdx64(z.Data[zpos:zpos+z.Cols])]
 			for col := 0; col < z.Cols; col++ {
 
-				z.Data[zpos+col] = M64.Exp(z.Data[zpos+col])
+				z.Data[zpos+col] = M64.Exp(z.Data[zpos+col] - zmax)
 				sum += z.Data[zpos+col]
 			}
 			for col := 0; col < z.Cols; col++ {
-- 
2.43.0


From e9f537b5c722388da5b341018597dfcf3239b0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:39 +0000
Subject: [PATCH 59/81] fix: early stopping keeps validation rows out of
 training and starts from a clean history

---
 neural_network/basemlp32.go | 25 +++++++++++++++++++------
 neural_network/basemlp64.go | 25 +++++++++++++++++++------
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 3f1c48a..6b3c19a 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -482,6 +482,10 @@ func (mlp *BaseMultilayerPerceptron32) initialize(yCols int, layerUnits []int, i
 	}
 
 	mlp.BestLoss = M32.Inf(1)
+	mlp.BestValidationScore = M32.Inf(-1)
+	mlp.NoImprovementCount = 0
+	mlp.LossCurve = nil
+	mlp.ValidationScores = nil
 }
 
 func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool) {
@@ -761,7 +765,9 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 		testSize = int(M32.Ceil(mlp.ValidationFraction * float32(nSamples)))
 		XVal = blas32General(General32(X).RowSlice(nSamples-testSize, nSamples))
 		yVal = blas32General(General32(y).RowSlice(nSamples-testSize, nSamples))
-		mlp.bestParameters = make([]float32, len(mlp.packedParameters))
+		mlp.bestParameters = append([]float32{}, mlp.packedParameters...)
+		// rows kept for validation must not be trained on
+		nSamples -= testSize
 		// if isClassifier(self):
 		// 	yVal = self.LabelBinarizer32.inverseTransform(yVal)
 	}
@@ -790,9 +796,9 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 				rndShuffle(nSamples, indexedXY{idx: sort.IntSlice(idx), X: general32FastSwap(X), Y: general32FastSwap(y)}.Swap)
 			}
 			accumulatedLoss := float32(0.0)
-			for batch := [2]int{0, batchSize}; batch[0] < nSamples-testSize; batch = [2]int{batch[1], batch[1] + batchSize} {
-				if batch[1] > nSamples-testSize {
-					batch[1] = nSamples - testSize
+			for batch := [2]int{0, batchSize}; batch[0] < nSamples; batch = [2]int{batch[1], batch[1] + batchSize} {
+				if batch[1] > nSamples {
+					batch[1] = nSamples
 				}
 				// activations[0] = X[batchSlice]
 				Xbatch := blas32General(General32(X).RowSlice(batch[0], batch[1]))
@@ -935,10 +941,17 @@ func (mlp *BaseMultilayerPerceptron32) predict(X, Y blas32General) {
 }
 
 func (mlp *BaseMultilayerPerceptron32) score(X, Y blas32General) float32 {
-	H := blas32General{Rows: Y.Rows, Cols: Y.Cols, Stride: Y.Stride, Data: make([]float32, len(Y.Data))}
-	mlp.predict(X, H)
+	// Y holds outputs of the network: for a classifier they may be binarized labels
+	H := blas32General{Rows: Y.Rows, Cols: Y.Cols, Stride: Y.Cols, Data: make([]float32, Y.Rows*Y.Cols)}
+	mlp.predictProbas(X, H)
 	if mlp.LossFuncName != "square_loss" {
 		// accuracy
+		if mlp.lb != nil {
+			_, Yclasses := mlp.lb.InverseTransform(General32(X), General32(Y))
+			_, Hclasses := mlp.lb.InverseTransform(General32(X), General32(H))
+			return accuracyScore32(Yclasses.RawMatrix(), Hclasses.RawMatrix())
+		}
+		toLogits32(H)
 		return accuracyScore32(Y, H)
 	}
 	// R2Score
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 26d0244..66f30de 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -482,6 +482,10 @@ func (mlp *BaseMultilayerPerceptron64) initialize(yCols int, layerUnits []int, i
 	}
 
 	mlp.BestLoss = M64.Inf(1)
+	mlp.BestValidationScore = M64.Inf(-1)
+	mlp.NoImprovementCount = 0
+	mlp.LossCurve = nil
+	mlp.ValidationScores = nil
 }
 
 func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool) {
@@ -761,7 +765,9 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 		testSize = int(M64.Ceil(mlp.ValidationFraction * float64(nSamples)))
 		XVal = blas64General(General64(X).RowSlice(nSamples-testSize, nSamples))
 		yVal = blas64General(General64(y).RowSlice(nSamples-testSize, nSamples))
-		mlp.bestParameters = make([]float64, len(mlp.packedParameters))
+		mlp.bestParameters = append([]float64{}, mlp.packedParameters...)
+		// rows kept for validation must not be trained on
+		nSamples -= testSize
 		// if isClassifier(self):
 		// 	yVal = self.LabelBinarizer64.inverseTransform(yVal)
 	}
@@ -790,9 +796,9 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 				rndShuffle(nSamples, indexedXY{idx: sort.IntSlice(idx), X: general64FastSwap(X), Y: general64FastSwap(y)}.Swap)
 			}
 			accumulatedLoss := float64(0.0)
-			for batch := [2]int{0, batchSize}; batch[0] < nSamples-testSize; batch = [2]int{batch[1], batch[1] + batchSize} {
-				if batch[1] > nSamples-testSize {
-					batch[1] = nSamples - testSize
+			for batch := [2]int{0, batchSize}; batch[0] < nSamples; batch = [2]int{batch[1], batch[1] + batchSize} {
+				if batch[1] > nSamples {
+					batch[1] = nSamples
 				}
 				// activations[0] = X[batchSlice]
 				Xbatch := blas64General(General64(X).RowSlice(batch[0], batch[1]))
@@ -935,10 +941,17 @@ func (mlp *BaseMultilayerPerceptron64) predict(X, Y blas64General) {
 }
 
 func (mlp *BaseMultilayerPerceptron64) score(X, Y blas64General) float64 {
-	H := blas64General{Rows: Y.Rows, Cols: Y.Cols, Stride: Y.Stride, Data: make([]float64, len(Y.Data))}
-	mlp.predict(X, H)
+	// Y holds outputs of the network: for a classifier they may be binarized labels
+	H := blas64General{Rows: Y.Rows, Cols: Y.Cols, Stride: Y.Cols, Data: make([]float64, Y.Rows*Y.Cols)}
+	mlp.predictProbas(X, H)
 	if mlp.LossFuncName != "square_loss" {
 		// accuracy
+		if mlp.lb != nil {
+			_, Yclasses := mlp.lb.InverseTransform(General64(X), General64(Y))
+			_, Hclasses := mlp.lb.InverseTransform(General64(X), General64(H))
+			return accuracyScore64(Yclasses.RawMatrix(), Hclasses.RawMatrix())
+		}
+		toLogits64(H)
 		return accuracyScore64(Y, H)
 	}
 	// R2Score
-- 
2.43.0


From 04d4cf14ec3a9e13d78e188fd16375546692a827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:41 +0000
Subject: [PATCH 60/81] fix: r2 score of neural networks for constant targets
 and strided predictions

---
 neural_network/basemlp32.go | 13 ++++++++-----
 neural_network/basemlp64.go | 13 ++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 6b3c19a..a7e6763 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1121,16 +1121,19 @@ func r2Score32(yTrue, yPred blas32General) float32 {
 		yTrueAvg /= float32(yTrue.Rows)
 		// yDen = YTrue-YTrueAvg
 
-		for r, ypos := 0, 0; r < yTrue.Rows; r, ypos = r+1, ypos+yTrue.Stride {
-			t := yPred.Data[ypos+c] - yTrue.Data[ypos+c]
+		for r, ypos, ppos := 0, 0, 0; r < yTrue.Rows; r, ypos, ppos = r+1, ypos+yTrue.Stride, ppos+yPred.Stride {
+			t := yPred.Data[ppos+c] - yTrue.Data[ypos+c]
 			yNum += t * t
 			t = yTrue.Data[ypos+c] - yTrueAvg
 			yDen += t * t
 		}
-		if yDen == 0 {
-			panic("yDen=0")
+		// score of a constant target is 1 for a perfect prediction, else 0
+		var r2 float32
+		if yDen != 0 {
+			r2 = 1 - yNum/yDen
+		} else if yNum == 0 {
+			r2 = 1
 		}
-		r2 := 1 - yNum/yDen
 		r2acc += r2
 	}
 	return r2acc / float32(yTrue.Cols)
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 66f30de..75298f4 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1121,16 +1121,19 @@ func r2Score64(yTrue, yPred blas64General) float64 {
 		yTrueAvg /= float64(yTrue.Rows)
 		// yDen = YTrue-YTrueAvg
 
-		for r, ypos := 0, 0; r < yTrue.Rows; r, ypos = r+1, ypos+yTrue.Stride {
-			t := yPred.Data[ypos+c] - yTrue.Data[ypos+c]
+		for r, ypos, ppos := 0, 0, 0; r < yTrue.Rows; r, ypos, ppos = r+1, ypos+yTrue.Stride, ppos+yPred.Stride {
+			t := yPred.Data[ppos+c] - yTrue.Data[ypos+c]
 			yNum += t * t
 			t = yTrue.Data[ypos+c] - yTrueAvg
 			yDen += t * t
 		}
-		if yDen == 0 {
-			panic("yDen=0")
+		// score of a constant target is 1 for a perfect prediction, else 0
+		var r2 float64
+		if yDen != 0 {
+			r2 = 1 - yNum/yDen
+		} else if yNum == 0 {
+			r2 = 1
 		}
-		r2 := 1 - yNum/yDen
 		r2acc += r2
 	}
 	return r2acc / float64(yTrue.Cols)
-- 
2.43.0


From f442eb5e0ffa7ab155c8371720f027a6f1c7de9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:43 +0000
Subject: [PATCH 61/81] fix: neural network LabelBinarizer inverts several
 outputs and writes NegLabel

---
 neural_network/basemlp32.go | 7 ++++---
 neural_network/basemlp64.go | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index a7e6763..2f14ac9 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1329,6 +1329,9 @@ func (m *LabelBinarizer32) Transform(X, Y mat.Matrix) (Xout, Yout General32) {
 	}
 
 	Yout = General32{Rows: NSamples, Cols: NOutputs, Stride: NOutputs, Data: make([]float32, NSamples*NOutputs)}
+	for i := range Yout.Data {
+		Yout.Data[i] = m.NegLabel
+	}
 	y, yo := ToDense32(Y).RawMatrix(), Yout.RawMatrix()
 	baseCol := 0
 	for j := 0; j < y.Cols; j++ {
@@ -1340,8 +1343,6 @@ func (m *LabelBinarizer32) Transform(X, Y mat.Matrix) (Xout, Yout General32) {
 			val := y.Data[yi+j]
 			if classNo, ok := cmap[val]; ok {
 				yo.Data[yo0+baseCol+classNo] = m.PosLabel
-			} else {
-				yo.Data[yo0+baseCol+classNo] = m.NegLabel
 			}
 		}
 		baseCol += len(m.Classes[j])
@@ -1363,7 +1364,7 @@ func (m *LabelBinarizer32) InverseTransform(X, Y General32) (Xout, Yout General3
 
 	Yout = General32{Rows: NSamples, Cols: NOutputs, Stride: NOutputs, Data: make([]float32, NSamples*NOutputs)}
 	y, yo := Y.RawMatrix(), Yout.RawMatrix()
-	for j, baseCol := 0, 0; baseCol < y.Cols; j, baseCol = j+1, baseCol+len(m.Classes[j]) {
+	for j, baseCol := 0, 0; j < NOutputs; j++ {
 		for i, yi, yo0 := 0, 0, 0; i < y.Rows; i, yi, yo0 = i+1, yi+y.Stride, yo0+yo.Stride {
 			classNo := MaxIdx32(y.Data[yi+baseCol : yi+baseCol+len(m.Classes[j])])
 
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 75298f4..9099539 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1329,6 +1329,9 @@ func (m *LabelBinarizer64) Transform(X, Y mat.Matrix) (Xout, Yout General64) {
 	}
 
 	Yout = General64{Rows: NSamples, Cols: NOutputs, Stride: NOutputs, Data: make([]float64, NSamples*NOutputs)}
+	for i := range Yout.Data {
+		Yout.Data[i] = m.NegLabel
+	}
 	y, yo := ToDense64(Y).RawMatrix(), Yout.RawMatrix()
 	baseCol := 0
 	for j := 0; j < y.Cols; j++ {
@@ -1340,8 +1343,6 @@ func (m *LabelBinarizer64) Transform(X, Y mat.Matrix) (Xout, Yout General64) {
 			val := y.Data[yi+j]
 			if classNo, ok := cmap[val]; ok {
 				yo.Data[yo0+baseCol+classNo] = m.PosLabel
-			} else {
-				yo.Data[yo0+baseCol+classNo] = m.NegLabel
 			}
 		}
 		baseCol += len(m.Classes[j])
@@ -1363,7 +1364,7 @@ func (m *LabelBinarizer64) InverseTransform(X, Y General64) (Xout, Yout General6
 
 	Yout = General64{Rows: NSamples, Cols: NOutputs, Stride: NOutputs, Data: make([]float64, NSamples*NOutputs)}
 	y, yo := Y.RawMatrix(), Yout.RawMatrix()
-	for j, baseCol := 0, 0; baseCol < y.Cols; j, baseCol = j+1, baseCol+len(m.Classes[j]) {
+	for j, baseCol := 0, 0; j < NOutputs; j++ {
 		for i, yi, yo0 := 0, 0, 0; i < y.Rows; i, yi, yo0 = i+1, yi+y.Stride, yo0+yo.Stride {
 			classNo := MaxIdx64(y.Data[yi+baseCol : yi+baseCol+len(m.Classes[j])])
 
-- 
2.43.0


From dfbba37c6cb099aef506ac76495d5d21f2e0198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:45 +0000
Subject: [PATCH 62/81] fix: neural network matrix copies and row slices honour
 strides

---
 neural_network/general.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/neural_network/general.go b/neural_network/general.go
index 849345d..b1e3741 100644
--- a/neural_network/general.go
+++ b/neural_network/general.go
@@ -240,13 +240,21 @@ func (mat General64) Slice(i, j, k, l int) Matrix {
 // RowSlice provides view on submatrix(startRow,endRow) as General32
 // returned matrix can be casted to *General32
 func (mat General32) RowSlice(i, j int) General32 {
-	return General32{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : j*mat.Stride]}
+	if i == j {
+		return General32{Cols: mat.Cols, Stride: mat.Stride}
+	}
+	// the last row of a view may be shorter than its stride
+	return General32{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : (j-1)*mat.Stride+mat.Cols]}
 }
 
 // RowSlice provides view on submatrix(startRow,endRow) as General64
 // returned matrix can be casted to *General64
 func (mat General64) RowSlice(i, j int) General64 {
-	return General64{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : j*mat.Stride]}
+	if i == j {
+		return General64{Cols: mat.Cols, Stride: mat.Stride}
+	}
+	// the last row of a view may be shorter than its stride
+	return General64{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : (j-1)*mat.Stride+mat.Cols]}
 }
 
 // Copy fills receiver with input matrix
@@ -258,9 +266,7 @@ func (mat *General32) Copy(a Matrix) {
 	} else {
 		*mat = General32{Rows: rows, Cols: cols, Stride: cols, Data: mat.Data[:size]}
 	}
-	if g, ok := a.(*General32); ok {
-		copy(mat.Data, g.Data)
-	} else if g, ok := a.(RawMatrixer32); ok && mat.Stride == g.RawMatrix().Stride {
+	if g, ok := a.(RawMatrixer32); ok && mat.Stride == g.RawMatrix().Stride {
 		copy(mat.Data, g.RawMatrix().Data)
 	} else if rrv, ok := a.(RawRowViewer32); ok {
 		for r, rowpos := 0, 0; r < rows; r, rowpos = r+1, rowpos+mat.Stride {
@@ -284,9 +290,7 @@ func (mat *General64) Copy(a Matrix) {
 	} else {
 		*mat = General64{Rows: rows, Cols: cols, Stride: cols, Data: mat.Data[:size]}
 	}
-	if g, ok := a.(General64); ok {
-		copy(mat.Data, g.Data)
-	} else if g, ok := a.(RawMatrixer64); ok && mat.Stride == g.RawMatrix().Stride {
+	if g, ok := a.(RawMatrixer64); ok && mat.Stride == g.RawMatrix().Stride {
 		copy(mat.Data, g.RawMatrix().Data)
 	} else if rrv, ok := a.(RawRowViewer64); ok {
 		for r, rowpos := 0, 0; r < rows; r, rowpos = r+1, rowpos+mat.Stride {
-- 
2.43.0


From 935b7dc98213d35cba381763b8157d835015f157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:46 +0000
Subject: [PATCH 63/81] fix: batch normalization of a unit with null activation
 does not produce NaN

---
 neural_network/basemlp32.go | 5 ++++-
 neural_network/basemlp64.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 2f14ac9..94f79d9 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -305,7 +305,10 @@ func (mlp *BaseMultilayerPerceptron32) batchNormalize(activations []blas32Genera
 func (mlp *BaseMultilayerPerceptron32) batchNormalizeDeltas(deltas blas32General, batchNorm []float32) {
 	for r, rpos := 0, 0; r < deltas.Rows; r, rpos = r+1, rpos+deltas.Stride {
 		for o := 0; o < deltas.Cols; o++ {
-			deltas.Data[rpos+o] /= batchNorm[o]
+			// activations with a null norm were not divided
+			if batchNorm[o] > 0 {
+				deltas.Data[rpos+o] /= batchNorm[o]
+			}
 		}
 	}
 }
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 9099539..bec80e2 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -305,7 +305,10 @@ func (mlp *BaseMultilayerPerceptron64) batchNormalize(activations []blas64Genera
 func (mlp *BaseMultilayerPerceptron64) batchNormalizeDeltas(deltas blas64General, batchNorm []float64) {
 	for r, rpos := 0, 0; r < deltas.Rows; r, rpos = r+1, rpos+deltas.Stride {
 		for o := 0; o < deltas.Cols; o++ {
-			deltas.Data[rpos+o] /= batchNorm[o]
+			// activations with a null norm were not divided
+			if batchNorm[o] > 0 {
+				deltas.Data[rpos+o] /= batchNorm[o]
+			}
 		}
 	}
 }
-- 
2.43.0


From 47160490affea1c158bca4741eb4c422c4f0d841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:22 +0000
Subject: [PATCH 64/81] fix: MLPRegressor stays a regressor for 0/1 targets, a
 first warm start initializes, a refit forgets previous labels, shuffling does
 not touch the matrices of the caller

---
 neural_network/basemlp32.go             | 15 ++++++---------
 neural_network/basemlp64.go             | 15 ++++++---------
 neural_network/multilayer_perceptron.go |  4 +++-
 3 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 94f79d9..f3d4e69 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -509,15 +509,9 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	if mlp.RandomState == nil {
 		mlp.RandomState = rand.New(base.NewLockedSource(uint64(time.Now().UnixNano())))
 	}
-	if !mlp.WarmStart && !incremental {
+	if mlp.packedParameters == nil || (!mlp.WarmStart && !incremental) {
 		//# First time training the model
-		var isClassifier, isMulticlass = true, y.Cols > 1
-		for _, yval := range y.Data {
-			if yval != 0 && yval != 1 {
-				isClassifier = false
-				break
-			}
-		}
+		var isClassifier, isMulticlass = mlp.IsClassifier(), y.Cols > 1
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
 	}
 
@@ -600,7 +594,10 @@ func (mlp *BaseMultilayerPerceptron32) Fit(X, Y Matrix) {
 		tmp.Copy(Y)
 		yb = tmp.RawMatrix()
 	}
-	if mlp.IsClassifier() && !isBinarized32(yb) {
+	if mlp.WarmStart && mlp.lb != nil {
+		_, ybin := mlp.lb.Transform(General32(xb), General32(yb))
+		yb = blas32.General(ybin)
+	} else if mlp.lb = nil; mlp.IsClassifier() && !isBinarized32(yb) {
 		mlp.lb = NewLabelBinarizer32(0, 1)
 		xbin, ybin := mlp.lb.FitTransform(General32(xb), General32(yb))
 		xb, yb = blas32.General(xbin), blas32.General(ybin)
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index bec80e2..b5a0827 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -509,15 +509,9 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	if mlp.RandomState == nil {
 		mlp.RandomState = rand.New(base.NewLockedSource(uint64(time.Now().UnixNano())))
 	}
-	if !mlp.WarmStart && !incremental {
+	if mlp.packedParameters == nil || (!mlp.WarmStart && !incremental) {
 		//# First time training the model
-		var isClassifier, isMulticlass = true, y.Cols > 1
-		for _, yval := range y.Data {
-			if yval != 0 && yval != 1 {
-				isClassifier = false
-				break
-			}
-		}
+		var isClassifier, isMulticlass = mlp.IsClassifier(), y.Cols > 1
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
 	}
 
@@ -600,7 +594,10 @@ func (mlp *BaseMultilayerPerceptron64) Fit(X, Y Matrix) {
 		tmp.Copy(Y)
 		yb = tmp.RawMatrix()
 	}
-	if mlp.IsClassifier() && !isBinarized64(yb) {
+	if mlp.WarmStart && mlp.lb != nil {
+		_, ybin := mlp.lb.Transform(General64(xb), General64(yb))
+		yb = blas64.General(ybin)
+	} else if mlp.lb = nil; mlp.IsClassifier() && !isBinarized64(yb) {
 		mlp.lb = NewLabelBinarizer64(0, 1)
 		xbin, ybin := mlp.lb.FitTransform(General64(xb), General64(yb))
 		xb, yb = blas64.General(xbin), blas64.General(ybin)
diff --git a/neural_network/multilayer_perceptron.go b/neural_network/multilayer_perceptron.go
index 436735f..d027f97 100644
--- a/neural_network/multilayer_perceptron.go
+++ b/neural_network/multilayer_perceptron.go
@@ -24,6 +24,7 @@ func NewMLPRegressor(hiddenLayerSizes []int, activation string, solver string, A
 	mlp.Activation = activation
 	mlp.Solver = solver
 	mlp.Alpha = Alpha
+	mlp.LossFuncName = "square_loss"
 	return mlp
 }
 
@@ -45,7 +46,8 @@ func (mlp *MLPRegressor) PredicterClone() base.Predicter {
 // Fit ...
 func (mlp *MLPRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
-	mlp.fit(X.RawMatrix(), Y.RawMatrix(), false)
+	mlp.LossFuncName = "square_loss"
+	mlp.BaseMultilayerPerceptron64.Fit(X, Y)
 	return mlp
 }
 
-- 
2.43.0


From 9430c9d41419d55071770cb5809fa7a87aad4e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:23 +0000
Subject: [PATCH 65/81] fix: neural network Fit and Predict accept any mix of
 matrix types and strided outputs

---
 neural_network/basemlp32.go | 22 ++++++----------------
 neural_network/basemlp64.go | 22 ++++++----------------
 2 files changed, 12 insertions(+), 32 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index f3d4e69..c48ee6a 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -581,10 +581,8 @@ func (mlp *BaseMultilayerPerceptron32) IsClassifier() bool {
 // Fit compute Coefs and Intercepts
 func (mlp *BaseMultilayerPerceptron32) Fit(X, Y Matrix) {
 	var xb, yb blas32.General
-	if xg, ok := X.(RawMatrixer32); ok && !mlp.Shuffle {
-		if yg, ok := Y.(RawMatrixer32); ok {
-			xb, yb = xg.RawMatrix(), yg.RawMatrix()
-		}
+	if !mlp.Shuffle {
+		xb, yb = ToDense32(X).RawMatrix(), ToDense32(Y).RawMatrix()
 	} else {
 		var tmp General32
 		tmp = General32(xb)
@@ -615,15 +613,7 @@ func (mlp *BaseMultilayerPerceptron32) GetNOutputs() int {
 
 // Predict do forward pass and fills Y (Y must be Mutable)
 func (mlp *BaseMultilayerPerceptron32) Predict(X mat.Matrix, Y Mutable) {
-	var xb, yb General32
-	if xg, ok := X.(RawMatrixer32); ok {
-		if yg, ok := Y.(RawMatrixer32); ok {
-			xb, yb = General32(xg.RawMatrix()), General32(yg.RawMatrix())
-		}
-	} else {
-		xb.Copy(X)
-		yb.Copy(Y)
-	}
+	xb, yb := ToDense32(X), ToDense32(Y)
 	mlp.predict(xb.RawMatrix(), yb.RawMatrix())
 
 	FromDense32(Y, yb)
@@ -932,9 +922,9 @@ func (mlp *BaseMultilayerPerceptron32) predict(X, Y blas32General) {
 	mlp.predictProbas(X, ybin.RawMatrix())
 	if mlp.lb != nil {
 		_, Yclasses := mlp.lb.InverseTransform(General32(X), ybin)
-		var tmp = General32(Y)
-		tmp.Copy(Yclasses)
-		Y = tmp.RawMatrix()
+		for r := 0; r < Y.Rows; r++ {
+			copy(General32(Y).RawRowView(r), Yclasses.RawRowView(r))
+		}
 	} else if mlp.IsClassifier() {
 		toLogits32(Y)
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index b5a0827..a1c6927 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -581,10 +581,8 @@ func (mlp *BaseMultilayerPerceptron64) IsClassifier() bool {
 // Fit compute Coefs and Intercepts
 func (mlp *BaseMultilayerPerceptron64) Fit(X, Y Matrix) {
 	var xb, yb blas64.General
-	if xg, ok := X.(RawMatrixer64); ok && !mlp.Shuffle {
-		if yg, ok := Y.(RawMatrixer64); ok {
-			xb, yb = xg.RawMatrix(), yg.RawMatrix()
-		}
+	if !mlp.Shuffle {
+		xb, yb = ToDense64(X).RawMatrix(), ToDense64(Y).RawMatrix()
 	} else {
 		var tmp General64
 		tmp = General64(xb)
@@ -615,15 +613,7 @@ func (mlp *BaseMultilayerPerceptron64) GetNOutputs() int {
 
 // Predict do forward pass and fills Y (Y must be Mutable)
 func (mlp *BaseMultilayerPerceptron64) Predict(X mat.Matrix, Y Mutable) {
-	var xb, yb General64
-	if xg, ok := X.(RawMatrixer64); ok {
-		if yg, ok := Y.(RawMatrixer64); ok {
-			xb, yb = General64(xg.RawMatrix()), General64(yg.RawMatrix())
-		}
-	} else {
-		xb.Copy(X)
-		yb.Copy(Y)
-	}
+	xb, yb := ToDense64(X), ToDense64(Y)
 	mlp.predict(xb.RawMatrix(), yb.RawMatrix())
 
 	FromDense64(Y, yb)
@@ -932,9 +922,9 @@ func (mlp *BaseMultilayerPerceptron64) predict(X, Y blas64General) {
 	mlp.predictProbas(X, ybin.RawMatrix())
 	if mlp.lb != nil {
 		_, Yclasses := mlp.lb.InverseTransform(General64(X), ybin)
-		var tmp = General64(Y)
-		tmp.Copy(Yclasses)
-		Y = tmp.RawMatrix()
+		for r := 0; r < Y.Rows; r++ {
+			copy(General64(Y).RawRowView(r), Yclasses.RawRowView(r))
+		}
 	} else if mlp.IsClassifier() {
 		toLogits64(Y)
 	}
-- 
2.43.0


From 3071e45a376ec3b205cff6f71a205be04139ae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:25 +0000
Subject: [PATCH 66/81] fix: lbfgs keeps the best weights it found and survives
 a failed line search

---
 neural_network/basemlp32.go | 16 ++++++++++++++--
 neural_network/basemlp64.go | 16 ++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index c48ee6a..192f388 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -682,6 +682,7 @@ func (mlp *BaseMultilayerPerceptron32) fitLbfgs(X, y blas32General, activations,
 	}
 
 	var mu sync.Mutex // sync access to mlp.Loss on LossCurve
+	bestLoss, bestW := M32.Inf(1), []float64(nil)
 	problem := optimize.Problem{
 		Func: func(w []float64) float64 {
 			for i := range w {
@@ -694,6 +695,9 @@ func (mlp *BaseMultilayerPerceptron32) fitLbfgs(X, y blas32General, activations,
 			if mlp.BestLoss > mlp.Loss {
 				mlp.BestLoss = mlp.Loss
 			}
+			if bestW == nil || bestLoss > mlp.Loss {
+				bestLoss, bestW = mlp.Loss, append(bestW[:0], w...)
+			}
 			mu.Unlock()
 			return loss
 		},
@@ -715,10 +719,18 @@ func (mlp *BaseMultilayerPerceptron32) fitLbfgs(X, y blas32General, activations,
 		mlp.beforeMinimize(problem, w)
 	}
 	res, err := optimize.Minimize(problem, w, settings, method)
-	if err != nil {
+	if res == nil {
 		log.Panic(err)
 	}
-	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
+	// keep the best parameters, the last ones evaluated may be worse
+	for i := range bestW {
+		mlp.packedParameters[i] = float32(bestW[i])
+	}
+	mlp.Loss = mlp.backprop(X, y, activations, deltas, coefGrads, interceptGrads)
+	if err != nil {
+		// a failure of the line search only means that no better point was found
+		log.Printf("lbfgs optimizer: %s\n", err)
+	} else if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", mlp.MaxIter)
 	}
 }
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index a1c6927..7ef319e 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -682,6 +682,7 @@ func (mlp *BaseMultilayerPerceptron64) fitLbfgs(X, y blas64General, activations,
 	}
 
 	var mu sync.Mutex // sync access to mlp.Loss on LossCurve
+	bestLoss, bestW := M64.Inf(1), []float64(nil)
 	problem := optimize.Problem{
 		Func: func(w []float64) float64 {
 			for i := range w {
@@ -694,6 +695,9 @@ func (mlp *BaseMultilayerPerceptron64) fitLbfgs(X, y blas64General, activations,
 			if mlp.BestLoss > mlp.Loss {
 				mlp.BestLoss = mlp.Loss
 			}
+			if bestW == nil || bestLoss > mlp.Loss {
+				bestLoss, bestW = mlp.Loss, append(bestW[:0], w...)
+			}
 			mu.Unlock()
 			return loss
 		},
@@ -715,10 +719,18 @@ func (mlp *BaseMultilayerPerceptron64) fitLbfgs(X, y blas64General, activations,
 		mlp.beforeMinimize(problem, w)
 	}
 	res, err := optimize.Minimize(problem, w, settings, method)
-	if err != nil {
+	if res == nil {
 		log.Panic(err)
 	}
-	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
+	// keep the best parameters, the last ones evaluated may be worse
+	for i := range bestW {
+		mlp.packedParameters[i] = float64(bestW[i])
+	}
+	mlp.Loss = mlp.backprop(X, y, activations, deltas, coefGrads, interceptGrads)
+	if err != nil {
+		// a failure of the line search only means that no better point was found
+		log.Printf("lbfgs optimizer: %s\n", err)
+	} else if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", mlp.MaxIter)
 	}
 }
-- 
2.43.0


From 2069a9644ef0e995ad0ca72e20eccba330d88b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:26 +0000
Subject: [PATCH 67/81] fix: fitting a neural network does not overwrite
 BatchSize

---
 neural_network/basemlp32.go | 28 ++++++++++++++--------------
 neural_network/basemlp64.go | 28 ++++++++++++++--------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 192f388..af97cda 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -516,17 +516,18 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	}
 
 	//    # lbfgs does not support mini-batches
+	batchSize := mlp.BatchSize
 	if strings.EqualFold(mlp.Solver, "lbfgs") {
-		mlp.BatchSize = nSamples
-	} else if mlp.BatchSize <= 0 {
-		mlp.BatchSize = nSamples
-		if mlp.BatchSize > 200 {
-			mlp.BatchSize = 200
+		batchSize = nSamples
+	} else if batchSize <= 0 {
+		batchSize = nSamples
+		if batchSize > 200 {
+			batchSize = 200
 		}
 	} else {
-		if mlp.BatchSize > nSamples {
+		if batchSize > nSamples {
 			log.Printf("Got batchsize larger than sample size.  It is going to be clipped.\n")
-			mlp.BatchSize = nSamples
+			batchSize = nSamples
 		}
 	}
 	// # Initialize lists
@@ -536,16 +537,16 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	// compute size of activations and deltas
 	off := 0
 	for _, nFanOut := range layerUnits[1:] {
-		size := mlp.BatchSize * nFanOut
+		size := batchSize * nFanOut
 		off += size + size
 	}
 	mem := make([]float32, off)
 	off = 0
 	for _, nFanOut := range layerUnits[1:] {
-		size := mlp.BatchSize * nFanOut
-		activations = append(activations, blas32General{Rows: mlp.BatchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
+		size := batchSize * nFanOut
+		activations = append(activations, blas32General{Rows: batchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
 		off += size
-		deltas = append(deltas, blas32General{Rows: mlp.BatchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
+		deltas = append(deltas, blas32General{Rows: batchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
 		off += size
 	}
 
@@ -568,7 +569,7 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	} else {
 		// # Run the Stochastic optimization solver
 		mlp.fitStochastic(X, y, activations, deltas, CoefsGrads,
-			InterceptsGrads, packedGrads, layerUnits, incremental)
+			InterceptsGrads, packedGrads, layerUnits, batchSize, incremental)
 	}
 	mlp.packedGrads = packedGrads
 }
@@ -736,7 +737,7 @@ func (mlp *BaseMultilayerPerceptron32) fitLbfgs(X, y blas32General, activations,
 }
 
 func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activations, deltas, coefGrads []blas32General,
-	interceptGrads [][]float32, packedGrads []float32, layerUnits []int, incremental bool) {
+	interceptGrads [][]float32, packedGrads []float32, layerUnits []int, batchSize int, incremental bool) {
 	if !incremental || mlp.optimizer == Optimizer32(nil) {
 		params := mlp.packedParameters
 		switch mlp.Solver {
@@ -773,7 +774,6 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 		// if isClassifier(self):
 		// 	yVal = self.LabelBinarizer32.inverseTransform(yVal)
 	}
-	batchSize := mlp.BatchSize
 	idx := make([]int, nSamples)
 	for i := range idx {
 		idx[i] = i
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 7ef319e..b4748b8 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -516,17 +516,18 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	}
 
 	//    # lbfgs does not support mini-batches
+	batchSize := mlp.BatchSize
 	if strings.EqualFold(mlp.Solver, "lbfgs") {
-		mlp.BatchSize = nSamples
-	} else if mlp.BatchSize <= 0 {
-		mlp.BatchSize = nSamples
-		if mlp.BatchSize > 200 {
-			mlp.BatchSize = 200
+		batchSize = nSamples
+	} else if batchSize <= 0 {
+		batchSize = nSamples
+		if batchSize > 200 {
+			batchSize = 200
 		}
 	} else {
-		if mlp.BatchSize > nSamples {
+		if batchSize > nSamples {
 			log.Printf("Got batchsize larger than sample size.  It is going to be clipped.\n")
-			mlp.BatchSize = nSamples
+			batchSize = nSamples
 		}
 	}
 	// # Initialize lists
@@ -536,16 +537,16 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	// compute size of activations and deltas
 	off := 0
 	for _, nFanOut := range layerUnits[1:] {
-		size := mlp.BatchSize * nFanOut
+		size := batchSize * nFanOut
 		off += size + size
 	}
 	mem := make([]float64, off)
 	off = 0
 	for _, nFanOut := range layerUnits[1:] {
-		size := mlp.BatchSize * nFanOut
-		activations = append(activations, blas64General{Rows: mlp.BatchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
+		size := batchSize * nFanOut
+		activations = append(activations, blas64General{Rows: batchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
 		off += size
-		deltas = append(deltas, blas64General{Rows: mlp.BatchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
+		deltas = append(deltas, blas64General{Rows: batchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
 		off += size
 	}
 
@@ -568,7 +569,7 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	} else {
 		// # Run the Stochastic optimization solver
 		mlp.fitStochastic(X, y, activations, deltas, CoefsGrads,
-			InterceptsGrads, packedGrads, layerUnits, incremental)
+			InterceptsGrads, packedGrads, layerUnits, batchSize, incremental)
 	}
 	mlp.packedGrads = packedGrads
 }
@@ -736,7 +737,7 @@ func (mlp *BaseMultilayerPerceptron64) fitLbfgs(X, y blas64General, activations,
 }
 
 func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activations, deltas, coefGrads []blas64General,
-	interceptGrads [][]float64, packedGrads []float64, layerUnits []int, incremental bool) {
+	interceptGrads [][]float64, packedGrads []float64, layerUnits []int, batchSize int, incremental bool) {
 	if !incremental || mlp.optimizer == Optimizer64(nil) {
 		params := mlp.packedParameters
 		switch mlp.Solver {
@@ -773,7 +774,6 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 		// if isClassifier(self):
 		// 	yVal = self.LabelBinarizer64.inverseTransform(yVal)
 	}
-	batchSize := mlp.BatchSize
 	idx := make([]int, nSamples)
 	for i := range idx {
 		idx[i] = i
-- 
2.43.0


From 9f56995a843ee3c7059e4b4f6e3e31ecfd9db386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:53 +0000
Subject: [PATCH 68/81] fix: a network loaded from json knows its hidden layers
 and output activation

---
 neural_network/basemlp32.go | 17 ++++++++++++++---
 neural_network/basemlp64.go | 17 ++++++++++++++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index af97cda..3b79f2b 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1164,7 +1164,12 @@ func (mlp *BaseMultilayerPerceptron32) SetParams(params map[string]interface{})
 			return strings.EqualFold(s, k)
 		})
 		if field.Kind() != 0 {
-			field.Set(reflect.ValueOf(v))
+			val := reflect.ValueOf(v)
+			// json numbers are float64
+			if val.Kind() == reflect.Float64 && val.Type() != field.Type() && val.Type().ConvertibleTo(field.Type()) {
+				val = val.Convert(field.Type())
+			}
+			field.Set(val)
 		}
 	}
 }
@@ -1175,7 +1180,7 @@ func (mlp *BaseMultilayerPerceptron32) Unmarshal(buf []byte) error {
 	mp := Map{}
 	err := json.Unmarshal(buf, &mp)
 	if err != nil {
-		panic(err)
+		return err
 	}
 	if params, ok := mp["params"]; ok {
 		if pmap, ok := params.(Map); ok {
@@ -1215,7 +1220,13 @@ func (mlp *BaseMultilayerPerceptron32) Unmarshal(buf []byte) error {
 				packedSize += (1 + layerUnits[il]) * layerUnits[il+1]
 			}
 			layerUnits[mlp.NLayers-1] = mlp.NOutputs
-			mlp.initialize(mlp.NOutputs, layerUnits, true, mlp.NOutputs > 1)
+			copy(mlp.HiddenLayerSizes, layerUnits[1:])
+			isClassifier, isMultiClass := mlp.IsClassifier(), mlp.NOutputs > 1
+			if outActivation, ok := mp["out_activation_"].(string); ok {
+				isClassifier, isMultiClass = outActivation != "identity", outActivation == "softmax"
+			}
+			mlp.lb = nil
+			mlp.initialize(mlp.NOutputs, layerUnits, isClassifier, isMultiClass)
 
 			for i := 0; i < mlp.NLayers-1; i++ {
 				intercept64 := floats64FromInterface(intercepts2[i])
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index b4748b8..b886f83 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1164,7 +1164,12 @@ func (mlp *BaseMultilayerPerceptron64) SetParams(params map[string]interface{})
 			return strings.EqualFold(s, k)
 		})
 		if field.Kind() != 0 {
-			field.Set(reflect.ValueOf(v))
+			val := reflect.ValueOf(v)
+			// json numbers are float64
+			if val.Kind() == reflect.Float64 && val.Type() != field.Type() && val.Type().ConvertibleTo(field.Type()) {
+				val = val.Convert(field.Type())
+			}
+			field.Set(val)
 		}
 	}
 }
@@ -1175,7 +1180,7 @@ func (mlp *BaseMultilayerPerceptron64) Unmarshal(buf []byte) error {
 	mp := Map{}
 	err := json.Unmarshal(buf, &mp)
 	if err != nil {
-		panic(err)
+		return err
 	}
 	if params, ok := mp["params"]; ok {
 		if pmap, ok := params.(Map); ok {
@@ -1215,7 +1220,13 @@ func (mlp *BaseMultilayerPerceptron64) Unmarshal(buf []byte) error {
 				packedSize += (1 + layerUnits[il]) * layerUnits[il+1]
 			}
 			layerUnits[mlp.NLayers-1] = mlp.NOutputs
-			mlp.initialize(mlp.NOutputs, layerUnits, true, mlp.NOutputs > 1)
+			copy(mlp.HiddenLayerSizes, layerUnits[1:])
+			isClassifier, isMultiClass := mlp.IsClassifier(), mlp.NOutputs > 1
+			if outActivation, ok := mp["out_activation_"].(string); ok {
+				isClassifier, isMultiClass = outActivation != "identity", outActivation == "softmax"
+			}
+			mlp.lb = nil
+			mlp.initialize(mlp.NOutputs, layerUnits, isClassifier, isMultiClass)
 
 			for i := 0; i < mlp.NLayers-1; i++ {
 				intercept64 := floats64FromInterface(intercepts2[i])
-- 
2.43.0


From 491f9dd29562c82e30009641ca39db7466b70dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:54 +0000
Subject: [PATCH 69/81] fix: clones of neural networks share no state with the
 original

---
 neural_network/basemlp64.go             | 34 +++++++++++++++++++++++++
 neural_network/multilayer_perceptron.go |  9 ++-----
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index b886f83..0b6722a 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -604,6 +604,40 @@ func (mlp *BaseMultilayerPerceptron64) Fit(X, Y Matrix) {
 	mlp.fit(xb, yb, false)
 }
 
+// clone returns a copy which shares no mutable state with mlp
+func (mlp *BaseMultilayerPerceptron64) clone() BaseMultilayerPerceptron64 {
+	clone := *mlp
+	if sourceCloner, ok := clone.RandomState.(base.SourceCloner); ok && sourceCloner != base.SourceCloner(nil) {
+		clone.RandomState = sourceCloner.SourceClone()
+	}
+	clone.HiddenLayerSizes = append([]int(nil), mlp.HiddenLayerSizes...)
+	clone.LossCurve = append([]float64(nil), mlp.LossCurve...)
+	clone.ValidationScores = append([]float64(nil), mlp.ValidationScores...)
+	clone.optimizer, clone.packedGrads, clone.bestParameters = nil, nil, nil
+	if mlp.batchNorm != nil {
+		clone.batchNorm = make([][]float64, len(mlp.batchNorm))
+		for i := range mlp.batchNorm {
+			clone.batchNorm[i] = append([]float64(nil), mlp.batchNorm[i]...)
+		}
+	}
+	if mlp.packedParameters != nil {
+		// intercepts and coefs are views on packedParameters
+		mem := append([]float64(nil), mlp.packedParameters...)
+		clone.packedParameters = mem
+		clone.Intercepts = make([][]float64, len(mlp.Intercepts))
+		clone.Coefs = make([]blas64General, len(mlp.Coefs))
+		off := 0
+		for i, coefs := range mlp.Coefs {
+			clone.Intercepts[i] = mem[off : off+coefs.Cols]
+			off += coefs.Cols
+			clone.Coefs[i] = coefs
+			clone.Coefs[i].Data = mem[off : off+coefs.Rows*coefs.Cols]
+			off += coefs.Rows * coefs.Cols
+		}
+	}
+	return clone
+}
+
 // GetNOutputs returns output columns number for Y to pass to predict
 func (mlp *BaseMultilayerPerceptron64) GetNOutputs() int {
 	if mlp.lb != nil {
diff --git a/neural_network/multilayer_perceptron.go b/neural_network/multilayer_perceptron.go
index d027f97..e221fbf 100644
--- a/neural_network/multilayer_perceptron.go
+++ b/neural_network/multilayer_perceptron.go
@@ -36,11 +36,7 @@ func (mlp *MLPRegressor) PredicterClone() base.Predicter {
 	if mlp == nil {
 		return nil
 	}
-	clone := *mlp
-	if sourceCloner, ok := clone.RandomState.(base.SourceCloner); ok && sourceCloner != base.SourceCloner(nil) {
-		clone.RandomState = sourceCloner.SourceClone()
-	}
-	return &clone
+	return &MLPRegressor{BaseMultilayerPerceptron64: mlp.clone()}
 }
 
 // Fit ...
@@ -93,8 +89,7 @@ func NewMLPClassifier(hiddenLayerSizes []int, activation string, solver string,
 
 // PredicterClone returns an (possibly unfitted) copy of predicter
 func (mlp *MLPClassifier) PredicterClone() base.Predicter {
-	clone := *mlp
-	return &clone
+	return &MLPClassifier{BaseMultilayerPerceptron64: mlp.clone()}
 }
 
 // IsClassifier returns true for MLPClassifier
-- 
2.43.0


From 04fc40078ddbc7a8d09d6e33cdcd03a85a319f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:19 +0000
Subject: [PATCH 70/81] fix: backprop honours the stride of its targets

---
 neural_network/basemlp32.go | 6 +++---
 neural_network/basemlp64.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 3b79f2b..90ae5fb 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -379,9 +379,9 @@ func (mlp *BaseMultilayerPerceptron32) backprop(X, y blas32General, activations,
 	{
 		H := activations[len(activations)-1]
 		D := deltas[last]
-		for r, pos := 0, 0; r < y.Rows; r, pos = r+1, pos+y.Stride {
-			for o, posc := 0, pos; o < y.Cols; o, posc = o+1, posc+1 {
-				D.Data[posc] = H.Data[posc] - y.Data[posc]
+		for r, ypos, hpos, dpos := 0, 0, 0, 0; r < y.Rows; r, ypos, hpos, dpos = r+1, ypos+y.Stride, hpos+H.Stride, dpos+D.Stride {
+			for o := 0; o < y.Cols; o++ {
+				D.Data[dpos+o] = H.Data[hpos+o] - y.Data[ypos+o]
 			}
 		}
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 0b6722a..91a4ce4 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -379,9 +379,9 @@ func (mlp *BaseMultilayerPerceptron64) backprop(X, y blas64General, activations,
 	{
 		H := activations[len(activations)-1]
 		D := deltas[last]
-		for r, pos := 0, 0; r < y.Rows; r, pos = r+1, pos+y.Stride {
-			for o, posc := 0, pos; o < y.Cols; o, posc = o+1, posc+1 {
-				D.Data[posc] = H.Data[posc] - y.Data[posc]
+		for r, ypos, hpos, dpos := 0, 0, 0, 0; r < y.Rows; r, ypos, hpos, dpos = r+1, ypos+y.Stride, hpos+H.Stride, dpos+D.Stride {
+			for o := 0; o < y.Cols; o++ {
+				D.Data[dpos+o] = H.Data[hpos+o] - y.Data[ypos+o]
 			}
 		}
 	}
-- 
2.43.0


From 340406d908097b6ce48ff788f11c0e2a1e71499c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:15 +0000
Subject: [PATCH 71/81] fix: clones of a Shuffler have a random state of their
 own

---
 preprocessing/data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 5bf773a..87bad3a 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -809,6 +809,9 @@ func NewShuffler() *Shuffler { return &Shuffler{} }
 // TransformerClone ...
 func (m *Shuffler) TransformerClone() base.Transformer {
 	var clone = *m
+	if sourceCloner, ok := clone.RandomState.(base.SourceCloner); ok && sourceCloner != base.SourceCloner(nil) {
+		clone.RandomState = sourceCloner.SourceClone()
+	}
 	return &clone
 }
 
-- 
2.43.0


From 8f1319a5cf89ac0f00ed416fec3fe524df315e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:07 +0000
Subject: [PATCH 72/81] fix: BayesianRidge doesn't write to the targets of its
 caller

---
 linear_model/bayes.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/linear_model/bayes.go b/linear_model/bayes.go
index 108905e..169a7d1 100644
--- a/linear_model/bayes.go
+++ b/linear_model/bayes.go
@@ -53,10 +53,12 @@ func (regr *BayesianRidge) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	var _, nOutputs = Y.Dims()
 	//alpha_ = 1. / np.var(y)
 	alpha := 0.
-	Y.Apply(func(i int, j int, y float64) float64 {
-		alpha += y * y
-		return y
-	}, Y)
+	// Y may be the one passed by the caller, so it's only read
+	for i := 0; i < nSamples; i++ {
+		for j := 0; j < nOutputs; j++ {
+			alpha += Y.At(i, j) * Y.At(i, j)
+		}
+	}
 	alpha = float64(nSamples*nOutputs) / alpha
 
 	lambda := 1.
-- 
2.43.0


From 6860afa0851e328faea718d6d3fcdaedc248f930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:12 +0000
Subject: [PATCH 73/81] fix: Normalizer may be used concurrently

---
 preprocessing/data.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 87bad3a..8642b70 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math"
 	"sort"
+	"sync"
 
 	"golang.org/x/exp/rand"
 
@@ -1014,11 +1015,16 @@ type Normalizer struct {
 	nrmValues []float64
 }
 
+// normalizerLock protects nrmValues, which is set by Transform
+var normalizerLock sync.Mutex
+
 // NewNormalizer returns a normaliser with Norm l2 and axis 1
 func NewNormalizer() *Normalizer { return &Normalizer{Norm: "l2", Axis: 1} }
 
 // TransformerClone ...
 func (m *Normalizer) TransformerClone() base.Transformer {
+	normalizerLock.Lock()
+	defer normalizerLock.Unlock()
 	var clone = *m
 	return &clone
 }
@@ -1032,6 +1038,7 @@ func (m *Normalizer) Transform(Xmatrix, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	NSamples, NFeatures := X.Dims()
 
 	Xout = mat.NewDense(NSamples, NFeatures, nil)
+	var nrmValues []float64
 	var norm = 2.
 	switch m.Norm {
 	case "l1":
@@ -1041,11 +1048,11 @@ func (m *Normalizer) Transform(Xmatrix, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	}
 	if m.Axis == 0 {
 		tmp := make([]float64, NSamples)
-		m.nrmValues = make([]float64, NFeatures)
+		nrmValues = make([]float64, NFeatures)
 		for i := 0; i < NFeatures; i++ {
 			mat.Col(tmp, i, X)
 			nrm := mat.Norm(mat.NewVecDense(NSamples, tmp), norm)
-			m.nrmValues[i] = nrm
+			nrmValues[i] = nrm
 			if nrm != 0 {
 				floats.Scale(1/nrm, tmp)
 			}
@@ -1053,17 +1060,20 @@ func (m *Normalizer) Transform(Xmatrix, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 		}
 	} else {
 		tmp := make([]float64, NFeatures)
-		m.nrmValues = make([]float64, NSamples)
+		nrmValues = make([]float64, NSamples)
 		for i := 0; i < NSamples; i++ {
 			mat.Row(tmp, i, X)
 			nrm := mat.Norm(mat.NewVecDense(NFeatures, tmp), norm)
-			m.nrmValues[i] = nrm
+			nrmValues[i] = nrm
 			if nrm != 0 {
 				floats.Scale(1/nrm, tmp)
 			}
 			Xout.SetRow(i, tmp)
 		}
 	}
+	normalizerLock.Lock()
+	m.nrmValues = nrmValues
+	normalizerLock.Unlock()
 	Yout = base.ToDense(Y)
 	return
 }
@@ -1081,11 +1091,14 @@ func (m *Normalizer) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
 	}
 	NSamples, NFeatures := X.Dims()
 	Xout, Yout = mat.NewDense(NSamples, NFeatures, nil), Y
+	normalizerLock.Lock()
+	nrmValues := m.nrmValues
+	normalizerLock.Unlock()
 	if m.Axis == 0 {
 		tmp := make([]float64, NSamples)
 		for i := 0; i < NFeatures; i++ {
 			mat.Col(tmp, i, X)
-			nrm := m.nrmValues[i]
+			nrm := nrmValues[i]
 			floats.Scale(nrm, tmp)
 			Xout.SetCol(i, tmp)
 		}
@@ -1093,7 +1106,7 @@ func (m *Normalizer) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
 		tmp := make([]float64, NFeatures)
 		for i := 0; i < NSamples; i++ {
 			mat.Row(tmp, i, X)
-			nrm := m.nrmValues[i]
+			nrm := nrmValues[i]
 			floats.Scale(nrm, tmp)
 			Xout.SetRow(i, tmp)
 		}
-- 
2.43.0


From 8ed0b79a100f0d65675229fb3f2cafa1d793d9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:14 +0000
Subject: [PATCH 74/81] fix: KMeans.Fit ends when the assignments oscillate

---
 cluster/kmeans.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cluster/kmeans.go b/cluster/kmeans.go
index 8d93089..86806b7 100644
--- a/cluster/kmeans.go
+++ b/cluster/kmeans.go
@@ -17,6 +17,9 @@ type KMeans struct {
 	// Optional members
 	NJobs    int
 	Distance func(X, Y mat.Vector) float64
+	// MaxIter is the maximum number of iterations (300 when not set):
+	// assignments may oscillate forever with some distances or because of rounding
+	MaxIter int
 	// Runtime filled members
 	Centroids *mat.Dense
 }
@@ -73,7 +76,11 @@ func (m *KMeans) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		m.NJobs = runtime.NumCPU()
 	}
 
-	for unchangeCount < 2 {
+	maxIter := m.MaxIter
+	if maxIter <= 0 {
+		maxIter = 300
+	}
+	for unchangeCount < 2 && epoch < maxIter {
 		epoch++
 		changed = false
 		// find nearest centroids
-- 
2.43.0


From 6150add82f4c44f3051916ecb83cadd37417ce83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:21 +0000
Subject: [PATCH 75/81] fix: SumRows sums the rows

---
 neural_network/general.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/neural_network/general.go b/neural_network/general.go
index b1e3741..ab3b4a4 100644
--- a/neural_network/general.go
+++ b/neural_network/general.go
@@ -307,18 +307,24 @@ func (mat *General64) Copy(a Matrix) {
 
 // SumRows sums rows of a into mat
 func (mat *General32) SumRows(a General32) {
-	for i, mpos, apos := 0, 0, 0; i < a.Rows; i, mpos, apos = i+1, mpos+mat.Stride, apos+a.Stride {
+	for c := 0; c < a.Cols; c++ {
+		mat.Data[c] = 0
+	}
+	for i, apos := 0, 0; i < a.Rows; i, apos = i+1, apos+a.Stride {
 		for c := 0; c < a.Cols; c++ {
-			mat.Data[c] = a.Data[apos+c]
+			mat.Data[c] += a.Data[apos+c]
 		}
 	}
 }
 
 // SumRows sums rows of a into mat
 func (mat *General64) SumRows(a General64) {
-	for i, mpos, apos := 0, 0, 0; i < a.Rows; i, mpos, apos = i+1, mpos+mat.Stride, apos+a.Stride {
+	for c := 0; c < a.Cols; c++ {
+		mat.Data[c] = 0
+	}
+	for i, apos := 0, 0; i < a.Rows; i, apos = i+1, apos+a.Stride {
 		for c := 0; c < a.Cols; c++ {
-			mat.Data[c] = a.Data[apos+c]
+			mat.Data[c] += a.Data[apos+c]
 		}
 	}
 }
-- 
2.43.0


From f4a3e772925feae0347fce0b8f1260acc074affc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:27 +0000
Subject: [PATCH 76/81] fix: neighbors missing because fewer samples were
 fitted are reported by brute force too

---
 neighbors/unsupervised.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index 5972dee..e5cf29e 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -88,6 +88,12 @@ func (m *NearestNeighbors) KNeighbors(X mat.Matrix, NNeighbors int) (distances,
 			})
 			sort.Slice(idx, func(i, j int) bool { return sampleDistance[idx[i]] < sampleDistance[idx[j]] })
 			for ik := 0; ik < NNeighbors; ik++ {
+				if ik >= NFitSamples {
+					// missing neighbor, reported like KDTree does
+					indices.Set(sample, ik, float64(NFitSamples))
+					distances.Set(sample, ik, math.Inf(1))
+					continue
+				}
 				indices.Set(sample, ik, float64(idx[ik]))
 				distances.Set(sample, ik, sampleDistance[idx[ik]])
 			}
@@ -111,7 +117,7 @@ func (m *NearestNeighbors) KNeighborsGraph(X *mat.Dense, NNeighbors int, mode st
 		for sample := start; sample < end; sample++ {
 			for ik := 0; ik < NNeighbors; ik++ {
 				index := int(indices.At(sample, ik))
-				if sample == index && !includeSelf {
+				if index >= NSamplesFit || sample == index && !includeSelf {
 					continue
 				}
 				if mode == "connectivity" {
-- 
2.43.0


From b01e438c56eb5b9ce4da8499d0f3d9d340fb4830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:16 +0000
Subject: [PATCH 77/81] fix: the default gamma of support vector machines
 follows the data of each fit

---
 svm/svm.go | 14 ++++++++------
 svm/svr.go |  2 +-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/svm/svm.go b/svm/svm.go
index 62a0ee0..8ced4a2 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -228,7 +228,7 @@ type SVC struct {
 
 // NewSVC ...
 // Kernel: "linear","poly","rbf","sigmoid" default is "rbf"
-// if Gamma<=0 il will be changed to 1/NFeatures
+// if Gamma<=0, 1/NFeatures is used instead
 // Cachesize is in MB. defaults to 200
 func NewSVC() *SVC {
 	m := &SVC{
@@ -273,8 +273,10 @@ func (m *SVC) GetNOutputs() int { return m.nOutputs }
 func (m *BaseLibSVM) fit(X, Y *mat.Dense, svmTrain func(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func(X1, X2 []float64) float64, Tol float64, MaxPasses int, CacheSize uint, RandomState base.Source) *Model) {
 	NSamples, NFeatures := X.Dims()
 	_, Noutputs := Y.Dims()
-	if m.Gamma <= 0. {
-		m.Gamma = 1. / float64(NFeatures)
+	// Gamma is left as it is, because the next fit may have another number of features
+	gamma := m.Gamma
+	if gamma <= 0. {
+		gamma = 1. / float64(NFeatures)
 	}
 	m.Model = make([]*Model, Noutputs)
 	var K func(a, b []float64) float64
@@ -286,11 +288,11 @@ func (m *BaseLibSVM) fit(X, Y *mat.Dense, svmTrain func(X *mat.Dense, Y []float6
 		case "linear":
 			K = (LinearKernel{}).Func
 		case "poly", "polynomial":
-			K = (PolynomialKernel{gamma: m.Gamma, coef0: m.Coef0, degree: m.Degree}).Func
+			K = (PolynomialKernel{gamma: gamma, coef0: m.Coef0, degree: m.Degree}).Func
 		case "sigmoid":
-			K = (SigmoidKernel{gamma: m.Gamma, coef0: m.Coef0}).Func
+			K = (SigmoidKernel{gamma: gamma, coef0: m.Coef0}).Func
 		default: //rbf
-			K = (RBFKernel{gamma: m.Gamma}).Func
+			K = (RBFKernel{gamma: gamma}).Func
 		}
 	case Kernel:
 		K = v.Func
diff --git a/svm/svr.go b/svm/svr.go
index fbe6d6a..de98c4b 100644
--- a/svm/svr.go
+++ b/svm/svr.go
@@ -20,7 +20,7 @@ type SVR struct {
 
 // NewSVR ...
 // Kernel: "linear","poly","rbf","sigmoid" default is "rbf"
-// if Gamma<=0 il will be changed to 1/NFeatures
+// if Gamma<=0, 1/NFeatures is used instead
 // Cachesize is in MB. defaults to 200
 func NewSVR() *SVR {
 	m := &SVR{
-- 
2.43.0


From c30b6ee801bf6362c8d4dcc3839734857c9ba425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:22 +0000
Subject: [PATCH 78/81] fix: logistic regression stopped before its first
 iteration keeps the parameters evaluated

---
 linear_model/logistic.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index bdc32f1..2f1fdfe 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -440,8 +440,10 @@ func (m *LogisticRegression) fitLbfgs(X, y blas64.General, activations []blas64.
 		log.Panic(err)
 	}
 	// last evaluated parameters are not always the best ones
-	copy(m.packedParameters, res.X)
-	m.Loss = res.F
+	if !math.IsInf(res.F, 1) { // it is when stopped before the first iteration
+		copy(m.packedParameters, res.X)
+		m.Loss = res.F
+	}
 	if err != nil {
 		// the line search can't improve res.X any more
 		log.Printf("lbfgs optimizer: %s\n", err)
-- 
2.43.0


From ff29c0fcc07427ea073421a7c20c1be17b8f2d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:50 +0000
Subject: [PATCH 79/81] fix: a warm start of coordinate descent does not keep
 coefficients of null features

---
 linear_model/cdfast.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/linear_model/cdfast.go b/linear_model/cdfast.go
index bc90623..a189ddb 100644
--- a/linear_model/cdfast.go
+++ b/linear_model/cdfast.go
@@ -76,6 +76,7 @@ func enetCoordinateDescent(w *mat.VecDense, alpha, beta float64, X *mat.Dense, Y
 				ii = fIter
 			}
 			if normColsX[ii] == 0. {
+				w.SetVec(ii, 0) // a warm start may have brought another value
 				continue
 			}
 			// # w_ii = W[:, ii] # Store previous value
@@ -211,6 +212,7 @@ func enetCoordinateDescentMultiTask(w *mat.Dense, l1reg, l2reg float64, X *mat.D
 				ii = fIter
 			}
 			if normColsX[ii] == 0. {
+				w.RowView(ii).(*mat.VecDense).Zero() // a warm start may have brought other values
 				continue
 			}
 			// # w_ii = W[:, ii] # Store previous value
-- 
2.43.0


From 3298f42c83c254bea4e39ddbd77bdd19af38c490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:37 +0000
Subject: [PATCH 80/81] fix: clones of MinMaxScaler and RobustScaler do not
 share their ranges

---
 preprocessing/data.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 8642b70..7099809 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -42,6 +42,7 @@ func NewMinMaxScaler(featureRange []float) *MinMaxScaler {
 // TransformerClone ...
 func (scaler *MinMaxScaler) TransformerClone() base.Transformer {
 	var clone = *scaler
+	clone.FeatureRange = append([]float(nil), scaler.FeatureRange...)
 	return &clone
 }
 
@@ -337,6 +338,10 @@ func NewDefaultRobustScaler() *RobustScaler {
 // TransformerClone ...
 func (scaler *RobustScaler) TransformerClone() base.Transformer {
 	var clone = *scaler
+	if scaler.Quantiles != nil {
+		quantiles := *scaler.Quantiles
+		clone.Quantiles = &quantiles
+	}
 	return &clone
 }
 
-- 
2.43.0


From 48ce0ee7fd54483c8516f6e335f34de14f0db85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:55 +0000
Subject: [PATCH 81/81] fix: MaxAbsScaler.PartialFit of a batch without samples
 keeps what was seen

---
 preprocessing/data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 7099809..d32fe4d 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -947,6 +947,9 @@ func (m *MaxAbsScaler) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 // PartialFit for MaxAbsScaler ...
 func (m *MaxAbsScaler) PartialFit(X, Y *mat.Dense) base.Transformer {
 	Xmat := X.RawMatrix()
+	if Xmat.Rows == 0 {
+		return m
+	}
 	// the current slices may be shared with clones
 	maxAbs := make([]float64, Xmat.Cols)
 	if m.NSamplesSeen > 0 {
-- 
2.43.0

