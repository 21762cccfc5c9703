package main

import (
	"fmt"
	"math"

	"github.com/pa-m/sklearn/cluster"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register(&Property{
		ID: "C09",
		Rule: "a case draws samples (blobs, grids with exact ties, duplicates, constant columns), a configuration and a layout; K-means results are checked for being a fixed point and DBSCAN labels against the definition of density clusters; " +
			"distinct by configuration and hash of the data",
		Families: []Family{
			{Name: "kmeans", Quick: 700, Thorough: 15000, Run: clKMeans},
			{Name: "cycle", Quick: 1, Thorough: 1, Run: clCycle},
			{Name: "dbscan", Quick: 900, Thorough: 20000, Run: clDBSCAN},
		},
	})
}

func (c *C) blobs(n, f int) *mat.Dense {
	k := 1 + c.Intn(5)
	ctr := c.RandMat(k, f, KGauss)
	X := mat.NewDense(n, f, nil)
	sd := .1 + c.Float64()*.6
	for i := 0; i < n; i++ {
		q := c.Intn(k)
		for j := 0; j < f; j++ {
			X.Set(i, j, 3*ctr.At(q, j)+sd*c.NormFloat64())
		}
	}
	return X
}

func clKMeans(c *C) {
	n, f := c.Rarely(c.Size(1, 60, 1500), 8000), c.Size(1, 4, 20)
	X, kind := c.Mat(n, f)
	if c.Intn(2) == 0 {
		X, kind = c.blobs(n, f), "blobs"
	}
	k := 1 + c.Intn(minInt(n, 8))
	if c.Intn(8) == 0 {
		k = 1 + c.Intn(minInt(n, 40))
	}
	unit := 1.
	switch c.Intn(8) {
	case 0: // any scale
		unit = math.Pow(10, float64(c.Intn(17)-8))
	case 1: // a slow convergence
		for i, s := 0, c.Intn(2); i < n; i++ {
			X.Set(i, 0, 20*float64(i+s*c.Intn(4))/float64(n))
		}
		kind = "sorted"
	}
	X.Scale(unit, X)
	p := 2.
	km := &cluster.KMeans{NClusters: k, NJobs: []int{0, 1, 3, -1}[c.Intn(4)]}
	if c.Intn(4) == 0 {
		p = []float64{1, 3, math.Inf(1)}[c.Intn(3)]
		km.Distance = cluster.MinkowskiDistance(p)
	}
	dist := minkowski(p)
	lx := c.Intn(nLayouts)
	Xl, _ := Layout(X, lx)
	if c.Intn(4) == 0 { // refit
		km.Fit(c.RandMat(n+3, f+1, KGauss), nil)
	}
	c.Stage("KMeans.Fit")
	km.MaxIter = 1000
	km.Fit(Xl, nil)
	converged := true
	if p != 2 {
		// convergence is only guaranteed for the Euclidean distance: is the next iterate the same?
		km2 := &cluster.KMeans{NClusters: k, Distance: km.Distance, MaxIter: 1001}
		km2.Fit(Xl, nil)
		converged = SameValues(km.Centroids, km2.Centroids)
		if !converged {
			c.Count("oscillations", 1)
		}
	}
	what := fmt.Sprintf("KMeans(%d clusters) n=%d f=%d p=%v %s %s", k, n, f, p, kind, layoutNames[lx])
	C := km.Centroids
	if !c.True("dims", dimsAre(C, k, f), "%s: centroid dims", what) {
		return
	}
	pred := km.Predict(Xl, nil)
	cnt := make([]int, k)
	sums := mat.NewDense(k, f, nil)
	for i := 0; i < n; i++ {
		l := int(pred.At(i, 0))
		if !c.True("label", l >= 0 && l < k && float64(l) == pred.At(i, 0), "%s: label %v", what, pred.At(i, 0)) {
			return
		}
		ds := allDist(C, row(X, i), dist)
		for q := range ds {
			c.True("nearest", ds[l] <= ds[q]+1e-9*(unit+ds[q]), "%s: sample %d %v goes to centroid %d at %v, centroid %d is at %v", what, i, row(X, i), l, ds[l], q, ds[q])
		}
		cnt[l]++
		for j := 0; j < f; j++ {
			sums.Set(l, j, sums.At(l, j)+X.At(i, j))
		}
	}
	// samples at the same distance of two centroids may be counted either way
	ambiguous := false
	for i := 0; i < n; i++ {
		ds := sortedCopy(allDist(C, row(X, i), dist))
		if k > 1 && ds[1]-ds[0] < 1e-7*(unit+ds[1]) {
			ambiguous = true
		}
	}
	for q := 0; q < k; q++ {
		for j := 0; j < f; j++ {
			v := sortedCopy(col(X, j))
			c.True("hull", C.At(q, j) >= v[0]-1e-9*(unit+math.Abs(v[0])) && C.At(q, j) <= v[n-1]+1e-9*(unit+math.Abs(v[n-1])), "%s: centroid %d coordinate %d is %v, samples are within [%v,%v]", what, q, j, C.At(q, j), v[0], v[n-1])
			if cnt[q] > 0 && !ambiguous && converged {
				c.NearRel("mean", C.At(q, j), sums.At(q, j)/float64(cnt[q]), unit+math.Abs(C.At(q, j)), 1e-9, "%s: centroid %d coordinate %d vs mean of its %d samples", what, q, j, cnt[q])
			}
		}
		if cnt[q] == 0 {
			c.Count("empty clusters", 1)
		}
	}
	// no worse than the starting assignment (first samples as centroids)
	in0, in1 := 0., 0.
	for i := 0; i < n; i++ {
		best := math.Inf(1)
		for q := 0; q < k; q++ {
			best = math.Min(best, dist(row(X, i), row(X, q)))
		}
		in0 += best * best
		d := dist(row(X, i), row(C, int(pred.At(i, 0))))
		in1 += d * d
	}
	c.True("inertia", p != 2 || in1 <= in0*(1+1e-9)+1e-12*unit*unit, "%s: inertia %v, of the starting centroids %v", what, in1, in0)
	c.kmPredictNew(km, f, k, dist, unit, what)
	c.Sig("%s %x", what, Hash(X))
}

func (c *C) kmPredictNew(km *cluster.KMeans, f, k int, dist func(a, b []float64) float64, unit float64, what string) {
	Q := c.RandMat(c.Size(1, 10, 300), f, KGauss)
	Q.Scale(unit, Q)
	q, _ := Q.Dims()
	Ql, _ := Layout(Q, c.Intn(nLayouts))
	out := mat.NewDense(q, 1, nil)
	for i := 0; i < q; i++ {
		out.Set(i, 0, 99)
	}
	km.Predict(Ql, out)
	for i := 0; i < q; i++ {
		ds := allDist(km.Centroids, row(Q, i), dist)
		l := int(out.At(i, 0))
		if !c.True("label", l >= 0 && l < k, "%s: label %d", what, l) {
			return
		}
		for z := range ds {
			c.True("nearest-new", ds[l] <= ds[z]+1e-9*(unit+ds[z]), "%s: new sample %v goes to centroid %d at %v, centroid %d is at %v", what, row(Q, i), l, ds[l], z, ds[z])
		}
	}
}

// clCycle: samples for which rounding makes the assignments oscillate.
func clCycle(c *C) {
	X := mat.NewDense(12, 1, []float64{4, 1, 3, 1, 3, 2, 0, 4, 4, 3, 1, 1})
	km := &cluster.KMeans{NClusters: 5, Distance: cluster.MinkowskiDistance(3)}
	c.Stage("KMeans.Fit of samples that oscillate")
	km.Fit(X, nil)
	c.True("dims", dimsAre(km.Centroids, 5, 1), "KMeans: centroid dims")
	c.kmPredictNew(km, 1, 5, minkowski(3), 1, "KMeans stopped while oscillating")
	c.Sig("cycle")
}

func clDBSCAN(c *C) {
	n, f := c.Size(1, 70, 800), c.Size(1, 3, 12)
	var X *mat.Dense
	kind := "blobs"
	grid := c.Intn(2) == 0
	if grid {
		X = mat.NewDense(n, f, nil)
		for i := 0; i < n; i++ {
			for j := 0; j < f; j++ {
				X.Set(i, j, float64(c.Intn(10)))
			}
		}
		kind = "grid"
	} else if c.Intn(3) == 0 {
		X, kind = c.Mat(n, f)
		grid = kind == "int"
	} else {
		X = c.blobs(n, f)
	}
	m := c.metric()
	if m.name == "cosine" {
		m = metricSpec{"minkowski", 1, minkowski(1)}
	}
	cfg := &cluster.DBSCANConfig{Metric: m.name, P: m.p, Algorithm: c.algorithm(), LeafSize: []int{0, 1, 3, 30}[c.Intn(4)], NJobs: []int{-1, 0, 1, 2}[c.Intn(4)]}
	cfg.MinSamples = float64(1 + c.Intn(7))
	if c.Intn(5) == 0 {
		cfg.MinSamples += .5
	}
	if grid {
		cfg.Eps = float64(1 + c.Intn(3))
	} else {
		cfg.Eps = .1 + c.Float64()
	}
	if c.Intn(10) == 0 {
		cfg.Eps, cfg.MinSamples = 0, 0 // defaults
	}
	if c.Intn(12) == 0 {
		cfg.Metric, cfg.P, cfg.Algorithm = "", 0, "" // euclidean by default
		m = metricSpec{"euclidean", 2, minkowski(2)}
	}
	before := *cfg
	db := cluster.NewDBSCAN(cfg)
	if c.Intn(40) == 0 {
		*cfg, m = cluster.DBSCANConfig{}, metricSpec{"euclidean", 2, minkowski(2)}
		before, db = *cfg, cluster.NewDBSCAN(nil)
	}
	c.True("config", *cfg == before, "NewDBSCAN changed its argument: %+v was %+v", *cfg, before)
	eps, minS := before.Eps, before.MinSamples
	if eps == 0 {
		eps, minS = .5, 5
	}
	if c.Intn(4) == 0 { // another fit before
		db.Fit(c.blobs(20, 2), nil)
	}
	var w []float64
	if c.Intn(3) == 0 {
		w = make([]float64, n)
		for i := range w {
			w[i] = float64(c.Intn(5)-1) / 2
			if c.Intn(10) == 0 {
				w[i] = minS
			}
		}
		db.SampleWeight = w
	}
	D := make([][]float64, n)
	for i := range D {
		D[i] = allDist(X, row(X, i), m.dist)
		for _, d := range D[i] {
			exact := grid && (math.IsInf(m.p, 1) || d == math.Trunc(d) && (m.dist(make([]float64, 1), []float64{2}) == 2) && m.p != 3 && m.p != 1.5)
			if math.Abs(d-eps) < 1e-7 && !exact {
				c.Obs(1)
				return // a pair too close to the radius to judge
			}
		}
	}
	lx := c.Intn(nLayouts)
	Xl, _ := Layout(X, lx)
	c.Stage("DBSCAN.Fit")
	db.Fit(Xl, nil)
	what := fmt.Sprintf("DBSCAN eps=%v min=%v metric=%s p=%v %s n=%d f=%d %s weights=%v layout %s", eps, minS, m.name, m.p, before.Algorithm, n, f, kind, w != nil, layoutNames[lx])
	core := make([]bool, n)
	want := []int{}
	for i := range D {
		tot := 0.
		for s, d := range D[i] {
			if d <= eps {
				if w == nil {
					tot++
				} else {
					tot += w[s]
				}
			}
		}
		core[i] = tot >= minS
		if core[i] {
			want = append(want, i)
		}
	}
	if !c.True("core", fmt.Sprint(want) == fmt.Sprint(db.CoreSampleIndices) || len(want) == 0 && len(db.CoreSampleIndices) == 0, "%s: core samples %v want %v", what, db.CoreSampleIndices, want) {
		return
	}
	if !c.True("labels", len(db.Labels) == n, "%s: %d labels", what, len(db.Labels)) {
		return
	}
	// components of the core samples, numbered by their first core sample
	comp := make([]int, n)
	for i := range comp {
		comp[i] = -1
	}
	nc := 0
	for i := range comp {
		if !core[i] || comp[i] >= 0 {
			continue
		}
		comp[i] = nc
		stack := []int{i}
		for len(stack) > 0 {
			s := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			for t, d := range D[s] {
				if d <= eps && core[t] && comp[t] < 0 {
					comp[t] = nc
					stack = append(stack, t)
				}
			}
		}
		nc++
	}
	for i := range comp {
		if core[i] {
			c.True("cluster", db.Labels[i] == comp[i], "%s: core sample %d has label %d, want %d", what, i, db.Labels[i], comp[i])
			continue
		}
		ok := map[int]bool{}
		for t, d := range D[i] {
			if d <= eps && core[t] {
				ok[comp[t]] = true
			}
		}
		if len(ok) == 0 {
			c.Count("noise", 1)
			c.True("noise", db.Labels[i] == -1, "%s: sample %d has no core neighbour but label %d", what, i, db.Labels[i])
		} else {
			c.Count("border", 1)
			c.True("border", ok[db.Labels[i]], "%s: border sample %d has label %d, core neighbours are in %v", what, i, db.Labels[i], ok)
		}
	}
	P := db.Predict(Xl, nil)
	for i := range db.Labels {
		c.True("predict", P.At(i, 0) == float64(db.Labels[i]), "%s: Predict gives %v for label %d", what, P.At(i, 0), db.Labels[i])
	}
	c.Sig("%s %x", what, Hash(X))
}
