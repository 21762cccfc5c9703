package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/cluster"
	"github.com/pa-m/sklearn/neighbors"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register(&Property{
		ID: "C07",
		Rule: "a case draws a training set (Gaussian, integer grid with ties, very different scales, constant columns, duplicated rows, sparse), a metric, an algorithm, a leaf size, k or a radius and a query layout, " +
			"and compares every answer with a brute force computation; distinct by configuration and hash of the data",
		Families: []Family{
			{Name: "knn", Quick: 900, Thorough: 20000, Run: nbKnn},
			{Name: "kdtree", Quick: 700, Thorough: 15000, Run: nbTree},
			{Name: "radius", Quick: 700, Thorough: 15000, Run: nbRadius},
			{Name: "graph", Quick: 200, Thorough: 4000, Run: nbGraph},
			{Name: "distance", Quick: 300, Thorough: 4000, Run: nbDistance},
			{Name: "rectangle", Quick: 200, Thorough: 4000, Run: nbRectangle},
			{Name: "large", Quick: 60, Thorough: 120, Run: nbLarge},
		},
	})
	register(&Property{
		ID: "C08",
		Rule: "a case draws a training set with class labels or targets, K, weights and a metric, and recomputes every prediction, probability and score from a brute force neighbour list; " +
			"samples whose K-th neighbour is tied are judged on the neighbours the model itself reports; distinct by configuration and hash of the data",
		Families: []Family{
			{Name: "classifier", Quick: 500, Thorough: 12000, Run: nbClassifier},
			{Name: "regressor", Quick: 500, Thorough: 12000, Run: nbRegressor},
			{Name: "centroid", Quick: 400, Thorough: 8000, Run: nbCentroid},
		},
	})
}

type metricSpec struct {
	name string
	p    float64
	dist func(a, b []float64) float64
}

func minkowski(p float64) func(a, b []float64) float64 {
	return func(a, b []float64) float64 {
		s := 0.
		for i := range a {
			d := math.Abs(a[i] - b[i])
			switch {
			case math.IsInf(p, 1):
				s = math.Max(s, d)
			case p == 1:
				s += d
			case p == 2:
				s += d * d
			default:
				s += math.Pow(d, p)
			}
		}
		if p == 2 {
			return math.Sqrt(s)
		}
		if p == 1 || math.IsInf(p, 1) {
			return s
		}
		return math.Pow(s, 1/p)
	}
}

func cosineDist(a, b []float64) float64 {
	var ab, aa, bb float64
	for i := range a {
		ab += a[i] * b[i]
		aa += a[i] * a[i]
		bb += b[i] * b[i]
	}
	if aa == 0 || bb == 0 {
		return 1
	}
	return 1 - ab/math.Sqrt(aa)/math.Sqrt(bb)
}

func (c *C) metric() metricSpec {
	switch c.Intn(12) {
	case 0:
		return metricSpec{"manhattan", 2, minkowski(1)}
	case 1:
		return metricSpec{"cityblock", 2, minkowski(1)}
	case 2:
		return metricSpec{"l1", 2, minkowski(1)}
	case 3:
		return metricSpec{"l2", 2, minkowski(2)}
	case 4:
		return metricSpec{"cosine", 2, cosineDist}
	case 5:
		return metricSpec{"minkowski", 1, minkowski(1)}
	case 6:
		return metricSpec{"minkowski", 3, minkowski(3)}
	case 7:
		return metricSpec{"minkowski", 1.5, minkowski(1.5)}
	case 8:
		return metricSpec{"minkowski", math.Inf(1), minkowski(math.Inf(1))}
	case 9:
		return metricSpec{"minkowski", 2, minkowski(2)}
	}
	return metricSpec{"euclidean", 2, minkowski(2)}
}

func (c *C) algorithm() string {
	return []string{"auto", "brute", "kd_tree", "kd_tree", "ball_tree"}[c.Intn(5)]
}

func (c *C) newNN(m metricSpec) *neighbors.NearestNeighbors {
	nn := neighbors.NewNearestNeighbors()
	nn.Metric, nn.P = m.name, m.p
	nn.Algorithm = c.algorithm()
	nn.LeafSize = []int{0, 1, 2, 5, 30}[c.Intn(5)]
	nn.NJobs = []int{-1, 0, 1, 3}[c.Intn(4)]
	return nn
}

// trainMat draws a training set with at least one sample.
func (c *C) trainMat(maxN, maxF int) (*mat.Dense, string) {
	n, f := c.Rarely(c.Size(1, maxN, 12*maxN), 100*maxN), c.Size(1, maxF, 12*maxF)
	if c.Intn(6) == 0 {
		// one value repeated along the widest side of the box
		m := c.RandMat(n, f, KInt)
		for i := 0; i < n; i++ {
			if c.Intn(8) > 0 {
				m.Set(i, 0, 1)
			} else {
				m.Set(i, 0, float64(c.Intn(3))*50)
			}
		}
		return m, "cluster"
	}
	return c.Mat(n, f)
}

func (c *C) queryMat(X *mat.Dense, maxQ int) *mat.Dense {
	n, f := X.Dims()
	q := c.Size(1, maxQ, 20*maxQ)
	if c.Intn(12) == 0 {
		q = 8 + c.Intn(30) // several per worker
	}
	Q := mat.NewDense(q, f, nil)
	for i := 0; i < q; i++ {
		switch c.Intn(5) {
		case 4: // close to a training sample, or very far
			d := math.Pow(10, -float64(c.Intn(7)))
			if c.Intn(3) == 0 {
				d = math.Pow(10, float64(c.Intn(9)))
			}
			Q.SetRow(i, row(X, c.Intn(n)))
			for j := 0; j < f; j++ {
				Q.Set(i, j, Q.At(i, j)+d*c.NormFloat64())
			}
		case 0: // a training sample
			Q.SetRow(i, row(X, c.Intn(n)))
		case 1: // between two training samples
			a, b := row(X, c.Intn(n)), row(X, c.Intn(n))
			for j := range a {
				Q.Set(i, j, (a[j]+b[j])/2)
			}
		case 2: // far away
			for j := 0; j < f; j++ {
				Q.Set(i, j, 30*c.NormFloat64())
			}
		default:
			for j := 0; j < f; j++ {
				Q.Set(i, j, X.At(c.Intn(n), j)+.3*c.NormFloat64())
			}
		}
	}
	return Q
}

func allDist(X mat.Matrix, q []float64, d func(a, b []float64) float64) []float64 {
	n, _ := X.Dims()
	out := make([]float64, n)
	for i := range out {
		out[i] = d(q, row(X, i))
	}
	return out
}

func sortedCopy(v []float64) []float64 {
	w := append([]float64{}, v...)
	sort.Float64s(w)
	return w
}

// checkNeighbours checks one row of a neighbour query; the first len(ds) entries must be the nearest samples.
func checkNeighbours(c *C, key string, ds []float64, ix []int, all []float64, tol float64, what string) bool {
	seen := map[int]bool{}
	srt := sortedCopy(all)
	for k := range ds {
		if ix[k] < 0 || ix[k] >= len(all) {
			c.Failf(key+"/index", "%s: neighbour %d has index %d", what, k, ix[k])
			return false
		}
		if seen[ix[k]] {
			c.Failf(key+"/repeated", "%s: sample %d is returned twice: %v", what, ix[k], ix)
			return false
		}
		seen[ix[k]] = true
		if !c.Near(key+"/distance", ds[k], all[ix[k]], tol, "%s: distance reported for sample %d", what, ix[k]) {
			return false
		}
		if !c.Near(key+"/nearest", ds[k], srt[k], tol, "%s: distance of neighbour %d vs brute force", what, k) {
			return false
		}
		if k > 0 && !c.True(key+"/order", ds[k] >= ds[k-1], "%s: distances not ascending %v", what, ds) {
			return false
		}
	}
	return true
}

func ints(v []float64) []int {
	out := make([]int, len(v))
	for i := range v {
		out[i] = int(v[i])
	}
	return out
}

func nbKnn(c *C) {
	X, kind := c.trainMat(60, 5)
	n, _ := X.Dims()
	m := c.metric()
	nn := c.newNN(m)
	lx, lq := c.Intn(nLayouts), c.Intn(nLayouts)
	Xl, _ := Layout(X, lx)
	if c.Intn(5) == 0 { // a model fitted before on something else
		Z, _ := c.trainMat(40, 4)
		nn.Fit(Z, nil)
		nn.Algorithm = c.algorithm()
	}
	nn.Fit(Xl, mat.Matrix(nil))
	Q := c.queryMat(X, 6)
	Ql, _ := Layout(Q, lq)
	k := 1 + c.Intn(n)
	if c.Intn(10) == 0 {
		k = n + 1 + c.Intn(3) // more than there are
	}
	c.Stage("KNeighbors")
	D, I := nn.KNeighbors(Ql, k)
	what := fmt.Sprintf("KNeighbors(k=%d) metric=%s p=%v algorithm=%s leaf=%d n=%d %s layouts %s/%s", k, m.name, m.p, nn.Algorithm, nn.LeafSize, n, kind, layoutNames[lx], layoutNames[lq])
	q, _ := Q.Dims()
	c.True("dims", dimsAre(D, q, k) && dimsAre(I, q, k), "%s: dims", what)
	tol := 1e-9
	if m.name == "cosine" {
		tol = 1e-7
	}
	for i := 0; i < q; i++ {
		for j := n; j < k; j++ {
			c.True("missing", math.IsInf(D.At(i, j), 1) && I.At(i, j) == float64(n), "%s: missing neighbour reported at distance %v with index %v", what, D.At(i, j), I.At(i, j))
		}
		if !checkNeighbours(c, "knn", row(D, i)[:minInt(k, n)], ints(row(I, i))[:minInt(k, n)], allDist(X, row(Q, i), m.dist), tol, what) {
			return
		}
	}
	c.Sig("%s %x", what, Hash(X, Q))
}

func dimsAre(m mat.Matrix, r, k int) bool {
	a, b := m.Dims()
	return a == r && b == k
}

func nbTree(c *C) {
	X, kind := c.trainMat(80, 4)
	n, _ := X.Dims()
	leaf := []int{0, 1, 2, 3, 10, 100}[c.Intn(6)]
	p := []float64{1, 2, 3, math.Inf(1), 1.5}[c.Intn(5)]
	Xl, _ := Layout(X, c.Intn(nLayouts))
	c.Stage("NewKDTree")
	tree := neighbors.NewKDTree(Xl, leaf)
	Q := c.queryMat(X, 5)
	Ql, _ := Layout(Q, c.Intn(nLayouts))
	k := 1 + c.Intn(n+3)
	eps := []float64{0, 0, 1e-15, .1, 1, 3}[c.Intn(6)]
	bound := math.Inf(1)
	dist := minkowski(p)
	if c.Intn(2) == 0 {
		bound = dist(row(X, c.Intn(n)), row(Q, 0)) * (.5 + c.Float64())
	}
	c.Stage("Query")
	D, I := tree.Query(Ql, k, eps, p, bound)
	what := fmt.Sprintf("KDTree.Query(k=%d eps=%v p=%v bound=%v) leaf=%d n=%d %s", k, eps, p, bound, leaf, n, kind)
	q, _ := Q.Dims()
	for i := 0; i < q; i++ {
		all := allDist(X, row(Q, i), dist)
		srt := sortedCopy(all)
		ds, ix := row(D, i), ints(row(I, i))
		got := 0
		for got < k && !math.IsInf(ds[got], 1) {
			got++
		}
		for j := got; j < k; j++ {
			c.True("missing", math.IsInf(ds[j], 1) && ix[j] == n, "%s: missing neighbours must come last with infinite distance: %v", what, ds)
		}
		within, surely := 0, 0
		for _, d := range all {
			if d <= bound*(1+1e-9)+1e-300 {
				within++
			}
			if d < bound*(1-1e-9) {
				surely++
			}
		}
		if within > k {
			within = k
		}
		if surely > k {
			surely = k
		}
		if !c.True("bound", got <= within, "%s: %d neighbours returned, only %d within the bound: %v", what, got, within, ds) {
			return
		}
		if eps <= 1e-12 {
			if !c.True("bound-complete", got >= surely, "%s: %d neighbours returned, %d are within the bound: %v brute %v", what, got, surely, ds, srt) {
				return
			}
			if !checkNeighbours(c, "tree", ds[:got], ix[:got], all, 1e-9, what) {
				return
			}
			continue
		}
		// approximate: each reported distance is exact, and the k-th is within a factor 1+eps
		seen := map[int]bool{}
		for j := 0; j < got; j++ {
			if !c.True("tree/index", ix[j] >= 0 && ix[j] < n && !seen[ix[j]], "%s: bad index %v", what, ix) {
				return
			}
			seen[ix[j]] = true
			c.Near("tree/distance", ds[j], all[ix[j]], 1e-9, "%s: distance of sample %d", what, ix[j])
			c.True("tree/eps", ds[j] <= srt[j]*(1+eps)*(1+1e-9)+1e-12 || !math.IsInf(bound, 1), "%s: neighbour %d at %v, true %v", what, j, ds[j], srt[j])
		}
		if math.IsInf(bound, 1) {
			want := k
			if n < k {
				want = n
			}
			c.True("tree/count", got == want, "%s: %d neighbours, want %d", what, got, want)
		}
	}
	c.Sig("%s %x", what, Hash(X, Q))
}

func nbRadius(c *C) {
	X, kind := c.trainMat(60, 4)
	if c.Intn(2) == 0 {
		n, f := X.Dims()
		X, kind = c.RandMat(n, f, KInt), "int"
	}
	m := c.metric()
	nn := c.newNN(m)
	nn.Fit(X, nil)
	Q := c.queryMat(X, 5)
	if kind == "int" && c.Intn(2) == 0 {
		_, f := X.Dims()
		Q = c.RandMat(1+c.Intn(5), f, KInt)
	}
	var radius float64
	all0 := allDist(X, row(Q, 0), m.dist)
	switch c.Intn(4) {
	case 0:
		radius = all0[c.Intn(len(all0))] // a training sample sits on the boundary
	case 1:
		radius = float64(c.Intn(6))
	case 2:
		radius = 0
	default:
		radius = all0[c.Intn(len(all0))] * (.5 + c.Float64())
	}
	c.Stage("RadiusNeighbors")
	D, I := nn.RadiusNeighbors(DenseView(Q, c.Intn(2) == 0), radius)
	what := fmt.Sprintf("RadiusNeighbors(%v) metric=%s p=%v algorithm=%s leaf=%d %s", radius, m.name, m.p, nn.Algorithm, nn.LeafSize, kind)
	q, _ := Q.Dims()
	if !c.True("dims", len(D) == q && len(I) == q, "%s: %d answers", what, len(D)) {
		return
	}
	// on an integer grid the 1-norm, the maximum norm and Pythagorean distances are exact
	exact := kind == "int" && (m.name == "manhattan" || m.name == "cityblock" || m.name == "l1" || m.name == "euclidean" || m.name == "l2" || m.p == 1 || math.IsInf(m.p, 1))
	for i := 0; i < q; i++ {
		isInt := true
		for _, v := range row(Q, i) {
			isInt = isInt && v == math.Trunc(v)
		}
		all := allDist(X, row(Q, i), m.dist)
		in := map[int]bool{}
		if !c.True("pairs", len(D[i]) == len(I[i]), "%s: %d distances, %d indices", what, len(D[i]), len(I[i])) {
			return
		}
		tol := 1e-9
		if m.name == "cosine" {
			tol = 1e-7
		}
		for k, ind := range I[i] {
			if !c.True("index", ind >= 0 && ind < len(all) && !in[ind], "%s: bad or repeated index in %v", what, I[i]) {
				return
			}
			in[ind] = true
			c.Near("distance", D[i][k], all[ind], tol, "%s: distance of sample %d", what, ind)
		}
		for s, d := range all {
			if exact && isInt {
				c.Count("boundary points", b2i(d == radius))
				c.True("exact", in[s] == (d <= radius), "%s: sample %d at distance %v from %v: included=%v", what, s, d, row(Q, i), in[s])
				continue
			}
			if d <= radius-tol*(1+radius) {
				c.True("complete", in[s], "%s: sample %d at distance %v is missing", what, s, d)
			}
			if d > radius+tol*(1+radius) {
				c.True("sound", !in[s], "%s: sample %d at distance %v is returned", what, s, d)
			}
		}
	}
	c.Sig("%s %x", what, Hash(X, Q))
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func nbGraph(c *C) {
	X, kind := c.trainMat(30, 4)
	n, fx := X.Dims()
	if n > 600 {
		n = 600
		X = X.Slice(0, n, 0, fx).(*mat.Dense)
	}
	m := c.metric()
	nn := c.newNN(m)
	nn.Fit(X, nil)
	mode := []string{"connectivity", "distance"}[c.Intn(2)]
	self := c.Intn(2) == 0
	Q := X
	if c.Intn(2) == 0 {
		Q = c.queryMat(X, 8)
	}
	k := 1 + c.Intn(n)
	if c.Intn(10) == 0 {
		k = n + 1 + c.Intn(3)
	}
	G := nn.KNeighborsGraph(DenseView(Q, c.Intn(2) == 0), k, mode, self)
	D, I := nn.KNeighbors(Q, k)
	q, _ := Q.Dims()
	want := mat.NewDense(q, n, nil)
	for i := 0; i < q; i++ {
		for j := 0; j < k && j < n; j++ {
			s := int(I.At(i, j))
			if s == i && !self {
				continue
			}
			v := 1.
			if mode == "distance" {
				v = m.dist(row(Q, i), row(X, s))
				if m.name == "cosine" {
					v = D.At(i, j)
				}
			}
			want.Set(i, s, v)
		}
	}
	c.NearMat("graph", G, want, 1e-9, "KNeighborsGraph(k=%d,%s,self=%v) metric=%s algorithm=%s %s", k, mode, self, m.name, nn.Algorithm, kind)
	c.Sig("%d %s %v %s %x", k, mode, self, m.name, Hash(X, Q))
}

// stridedVec is a vector whose elements are not adjacent in memory.
func stridedVec(v []float64) *mat.VecDense {
	d := mat.NewDense(len(v), 3, nil)
	for i := range v {
		d.Set(i, 0, 1e9)
		d.Set(i, 1, v[i])
		d.Set(i, 2, -1e9)
	}
	return d.ColView(1).(*mat.VecDense)
}

type opaqueVec struct{ v []float64 }

func (o opaqueVec) Dims() (int, int)    { return len(o.v), 1 }
func (o opaqueVec) At(i, j int) float64 { return o.v[i] }
func (o opaqueVec) AtVec(i int) float64 { return o.v[i] }
func (o opaqueVec) Len() int            { return len(o.v) }
func (o opaqueVec) T() mat.Matrix       { return mat.Transpose{Matrix: o} }

func nbDistance(c *C) {
	n := c.Size(1, 6, 200)
	a, b := row(c.RandMat(1, n, c.Intn(2)), 0), row(c.RandMat(1, n, c.Intn(2)), 0)
	switch c.Intn(8) {
	case 0: // tiny or huge
		for j, s := 0, math.Pow(10, float64(c.Intn(13)-6)); j < n; j++ {
			a[j], b[j] = s*a[j], s*b[j]
		}
	case 1:
		sa, sb := math.Pow(10, float64(c.Intn(241)-120)), 1.
		if c.Intn(2) == 0 {
			sb = math.Pow(10, float64(c.Intn(241)-120))
		}
		for j := range a {
			a[j], b[j] = sa*a[j], sb*b[j]
		}
		for k := 0; k < 9; k++ {
			c.Near("neighbors.Cosine", neighbors.CosineDistance(mat.NewVecDense(n, a), mat.NewVecDense(n, b)), cosineDist(a, b), 1e-9, "neighbors.CosineDistance(%v,%v)", a, b)
		}
		return
	case 2: // one coordinate dominates
		a[c.Intn(n)] *= 1e5
	}
	vec := func(v []float64, k int) mat.Vector {
		switch k {
		case 1:
			return stridedVec(v)
		case 2:
			return opaqueVec{v}
		}
		return mat.NewVecDense(len(v), append([]float64{}, v...))
	}
	for _, p := range []float64{1, 2, 3, 1.5, math.Inf(1), []float64{4, 5, 7, 10, 12, 20, 1.1, 2.5}[c.Intn(8)]} {
		want := minkowski(p)(a, b)
		for k := 0; k < 9; k++ {
			va, vb := vec(a, k%3), vec(b, k/3)
			c.NearRel("neighbors.Minkowski", neighbors.MinkowskiDistance(p)(va, vb), want, want, 1e-9, "neighbors.MinkowskiDistance(%v)(%v,%v) representation %d", p, a, b, k)
			c.NearRel("cluster.Minkowski", cluster.MinkowskiDistance(p)(va, vb), want, want, 1e-9, "cluster.MinkowskiDistance(%v)(%v,%v) representation %d", p, a, b, k)
			wp := want
			if !math.IsInf(p, 1) {
				wp = math.Pow(want, p)
			}
			c.NearRel("neighbors.MinkowskiP", neighbors.MinkowskiDistanceP(va, vb, p), wp, wp, 1e-9, "neighbors.MinkowskiDistanceP(%v,%v,%v)", a, b, p)
			c.NearRel("cluster.MinkowskiP", cluster.MinkowskiDistanceP(va, vb, p), wp, wp, 1e-9, "cluster.MinkowskiDistanceP(%v,%v,%v)", a, b, p)
			if p == 2 {
				c.NearRel("neighbors.Euclidean", neighbors.EuclideanDistance(va, vb), want, want, 1e-9, "neighbors.EuclideanDistance(%v,%v) representation %d", a, b, k)
				c.Near("neighbors.Cosine", neighbors.CosineDistance(va, vb), cosineDist(a, b), 1e-9, "neighbors.CosineDistance(%v,%v) representation %d", a, b, k)
				c.NearRel("cluster.Euclidean", cluster.EuclideanDistance(va, vb), want, want, 1e-9, "cluster.EuclideanDistance(%v,%v) representation %d", a, b, k)
			}
		}
	}
	c.Sig("%v %v", a, b)
}

func nbRectangle(c *C) {
	f := 1 + c.Intn(4)
	box := func() (mx, mn []float64, r *neighbors.Rectangle) {
		for j := 0; j < f; j++ {
			a, b := float64(c.Intn(9)-4), float64(c.Intn(9)-4)
			if c.Intn(2) == 0 {
				a, b = c.NormFloat64(), c.NormFloat64()
			}
			mx, mn = append(mx, math.Max(a, b)), append(mn, math.Min(a, b))
		}
		return mx, mn, neighbors.NewRectangle(append([]float64{}, mx...), append([]float64{}, mn...))
	}
	mx, mn, r := box()
	mx2, mn2, r2 := box()
	x := row(c.RandMat(1, f, KGauss), 0)
	vol := 1.
	lo, hi, lo2, hi2 := make([]float64, f), make([]float64, f), make([]float64, f), make([]float64, f)
	for j := 0; j < f; j++ {
		vol *= mx[j] - mn[j]
		// distances along one axis
		lo[j] = math.Max(0, math.Max(mn[j]-x[j], x[j]-mx[j]))
		hi[j] = math.Max(math.Abs(mn[j]-x[j]), math.Abs(mx[j]-x[j]))
		lo2[j] = math.Max(0, math.Max(mn[j]-mx2[j], mn2[j]-mx[j]))
		hi2[j] = math.Max(math.Abs(mx[j]-mn2[j]), math.Abs(mx2[j]-mn[j]))
	}
	zero := make([]float64, f)
	c.Near("volume", r.Volume(), vol, 1e-9, "Volume of %v", r)
	for _, p := range []float64{1, 2, math.Inf(1)} {
		d := minkowski(p)
		c.Near("minpoint", r.MinDistancePoint(x, p), d(lo, zero), 1e-9, "MinDistancePoint(%v,%v) of %v", x, p, r)
		c.Near("maxpoint", r.MaxDistancePoint(x, p), d(hi, zero), 1e-9, "MaxDistancePoint(%v,%v) of %v", x, p, r)
		c.Near("minrect", r.MinDistanceRectangle(r2, p), d(lo2, zero), 1e-9, "MinDistanceRectangle(%v,%v) p=%v", r, r2, p)
		c.Near("maxrect", r.MaxDistanceRectangle(r2, p), d(hi2, zero), 1e-9, "MaxDistanceRectangle(%v,%v) p=%v", r, r2, p)
	}
	d := c.Intn(f)
	at := mn[d] + (mx[d]-mn[d])*c.Float64()
	less, greater := r.Split(d, at)
	for j := 0; j < f; j++ {
		wl, wg := mx[j], mn[j]
		if j == d {
			wl, wg = at, at
		}
		c.True("split", less.Mins[j] == mn[j] && less.Maxes[j] == wl && greater.Mins[j] == wg && greater.Maxes[j] == mx[j], "Split(%d,%v) of %v: %v and %v", d, at, r, less, greater)
	}
	for j := 0; j < f; j++ {
		c.True("split-pure", r.Maxes[j] == mx[j] && r.Mins[j] == mn[j], "Split changed its receiver")
	}
	c.Sig("%v %v %v", r, r2, x)
}

// nbLarge: larger sets, above the automatic switch to the tree.
func nbLarge(c *C) {
	n, f := 110+c.Intn(1500), 1+c.Intn(6)
	if c.Intn(6) == 0 {
		n, f = 60+c.Intn(100), 17+c.Intn(20)
	}
	X := c.RandMat(n, f, c.Intn(nKinds))
	if c.Intn(2) == 0 { // the extremes of a column where the rows are last
		i := n - 1 - c.Intn(4)
		X.Set(i, c.Intn(f), 30*c.NormFloat64())
	}
	m := c.metric()
	nn := neighbors.NewNearestNeighbors()
	if c.Intn(3) == 0 {
		nn.LeafSize = 1 + c.Intn(20)
	}
	nn.Metric, nn.P = m.name, m.p
	nn.Fit(X, nil)
	Q := c.queryMat(X, 25)
	k := 1 + c.Intn(40)
	D, I := nn.KNeighbors(Q, k)
	q, _ := Q.Dims()
	tol := 1e-9
	if m.name == "cosine" {
		tol = 1e-7
	}
	for i := 0; i < q; i++ {
		if !checkNeighbours(c, "large", row(D, i), ints(row(I, i)), allDist(X, row(Q, i), m.dist), tol, fmt.Sprintf("KNeighbors n=%d f=%d k=%d %s p=%v", n, f, k, m.name, m.p)) {
			return
		}
	}
	c.Sig("%d %d %d %s %x", n, f, k, m.name, Hash(X))
}

// ---- estimators ----

// neighbourList returns the K nearest samples by brute force, and whether the choice is unambiguous.
func neighbourList(X *mat.Dense, q []float64, k int, dist func(a, b []float64) float64) (ix []int, all []float64, clear bool) {
	all = allDist(X, q, dist)
	ix = make([]int, len(all))
	for i := range ix {
		ix[i] = i
	}
	sort.SliceStable(ix, func(i, j int) bool { return all[ix[i]] < all[ix[j]] })
	clear = k == len(all) || all[ix[k]]-all[ix[k-1]] > 1e-7*(1+all[ix[k]])
	return ix[:k], all, clear
}

// neighbourWeights: uniform, or inverse distances where exact matches take everything.
// ok is false when distances are so small that the limit is not sharp.
func neighbourWeights(mode string, ds []float64) (w []float64, ok bool) {
	w = make([]float64, len(ds))
	ok = true
	zero := false
	for _, d := range ds {
		if d == 0 {
			zero = true
		}
		if d != 0 && d < 2e-8 {
			ok = false
		}
	}
	for i, d := range ds {
		switch {
		case mode != "distance":
			w[i] = 1
		case zero:
			w[i] = float64(b2i(d == 0))
		default:
			w[i] = 1 / d
		}
	}
	if mode != "distance" {
		ok = true
	}
	return
}

func (c *C) labels(n, o int) *mat.Dense {
	Y := mat.NewDense(n, o, nil)
	vals := [][]float64{{0, 1}, {-1, 1}, {3, 7, 11}, {0, 1, 2, 3}, {-2, 0, 2.5}, {1, 1 + 1e-9, 1e9, 1e9 + 1, -1e-12}}[c.Intn(6)]
	if c.Intn(6) == 0 { // many classes
		vals = nil
		for i, k := 0, c.Size(5, 15, 60); i < k; i++ {
			vals = append(vals, float64(i)*1.5-6)
		}
	}
	for i := 0; i < n; i++ {
		for j := 0; j < o; j++ {
			Y.Set(i, j, vals[c.Intn(len(vals))])
		}
	}
	return Y
}

func setOf(v []float64) []float64 {
	m := map[float64]bool{}
	for _, x := range v {
		m[x] = true
	}
	out := []float64{}
	for x := range m {
		out = append(out, x)
	}
	sort.Float64s(out)
	return out
}

func nbClassifier(c *C) {
	X, kind := c.trainMat(40, 4)
	n, _ := X.Dims()
	o := 1
	if c.Intn(4) == 0 {
		o = 2 + c.Intn(3)
	}
	Y := c.labels(n, o)
	K := 1 + c.Intn(minInt(n, 9))
	if c.Intn(8) == 0 {
		K = 1 + c.Intn(n)
	}
	mode := []string{"uniform", "distance", ""}[c.Intn(3)]
	m := c.metric()
	if m.name == "cosine" {
		m = metricSpec{"euclidean", 2, minkowski(2)}
	}
	clf := neighbors.NewKNeighborsClassifier(K, mode)
	clf.Algorithm, clf.Metric, clf.P = c.algorithm(), m.name, m.p
	lx, ly := c.Intn(nLayouts), c.Intn(nLayouts)
	Xl, _ := Layout(X, lx)
	Yl, _ := Layout(Y, ly)
	clf.Fit(Xl, Yl)
	Q := c.queryMat(X, 8)
	q, _ := Q.Dims()
	what := fmt.Sprintf("KNeighborsClassifier(K=%d,%q) metric=%s p=%v %s %s n=%d", K, mode, m.name, m.p, clf.Algorithm, kind, n)
	pred := mat.NewDense(q, o, nil)
	for i := range pred.RawMatrix().Data {
		pred.RawMatrix().Data[i] = 999
	}
	Ql, _ := Layout(Q, c.Intn(nLayouts))
	ret := clf.Predict(Ql, pred)
	c.True("returned", SameValues(ret, pred), "%s: the returned matrix differs from the filled one", what)
	auto := clf.Predict(Q, nil)
	c.True("allocated", SameValues(auto, pred), "%s: Predict into nil gives %s, into a matrix %s", what, MatString(auto), MatString(pred))
	_, I := clf.KNeighbors(Q, K)
	classes := make([][]float64, o)
	for j := range classes {
		classes[j] = setOf(col(Y, j))
		c.True("classes", fmt.Sprint(classes[j]) == fmt.Sprint(clf.Classes[j]), "%s: Classes %v want %v", what, clf.Classes, classes)
	}
	var prob *mat.Dense
	if o == 1 {
		prob = mat.NewDense(q, len(classes[0]), nil)
		for i := range prob.RawMatrix().Data {
			prob.RawMatrix().Data[i] = 999
		}
		clf.PredictProba(DenseView(Q, c.Intn(2) == 0), prob)
	}
	for i := 0; i < q; i++ {
		ix, all, clear := neighbourList(X, row(Q, i), K, m.dist)
		if !clear {
			ix = ints(row(I, i)) // tied: the model may pick any
			c.Count("tied queries", 1)
		}
		ds := make([]float64, K)
		for k := range ix {
			ds[k] = all[ix[k]]
		}
		w, ok := neighbourWeights(mode, ds)
		if !ok {
			continue
		}
		for j := 0; j < o; j++ {
			cw := map[float64]float64{}
			tot := 0.
			for k := range ix {
				cw[Y.At(ix[k], j)] += w[k]
				tot += w[k]
			}
			best, bw := 0., -1.
			for _, cl := range classes[j] {
				if cw[cl] > bw*(1+1e-12) {
					best, bw = cl, cw[cl]
				}
			}
			got := pred.At(i, j)
			if mode == "distance" {
				c.True("predict", cw[got] >= bw*(1-1e-9), "%s: predicted %v for %v, class weights %v", what, got, row(Q, i), cw)
			} else {
				c.True("predict", got == best, "%s: predicted %v for %v, class weights %v", what, got, row(Q, i), cw)
			}
			if prob != nil {
				for k, cl := range classes[0] {
					c.Near("proba", prob.At(i, k), cw[cl]/tot, 1e-6, "%s: probability of class %v", what, cl)
				}
			}
		}
	}
	if prob != nil {
		for i := 0; i < q; i++ {
			c.Near("proba-sum", sum(row(prob, i)), 1, 1e-9, "%s: probabilities of sample %d", what, i)
		}
	}
	// score is the accuracy of the predictions
	Yt := c.labels(q, o)
	match := 0.
	for i := 0; i < q; i++ {
		all := true
		for j := 0; j < o; j++ {
			all = all && Yt.At(i, j) == pred.At(i, j)
		}
		match += float64(b2i(all))
	}
	{
		c.Near("score", clf.Score(Q, Yt), match/float64(q), 1e-12, "%s: Score", what)
	}
	c.Sig("%s %x", what, Hash(X, Y, Q))
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func r2Ref(y, p []float64) float64 {
	m := mean(y)
	a, b := 0., 0.
	for i := range y {
		a += (y[i] - p[i]) * (y[i] - p[i])
		b += (y[i] - m) * (y[i] - m)
	}
	return 1 - a/b
}

func nbRegressor(c *C) {
	X, kind := c.trainMat(40, 4)
	n, _ := X.Dims()
	o := 1 + c.Intn(3)
	Y := c.RandMat(n, o, KGauss)
	K := 1 + c.Intn(minInt(n, 9))
	if c.Intn(8) == 0 {
		K = 1 + c.Intn(n)
	}
	m := c.metric()
	if m.name == "cosine" {
		m = metricSpec{"euclidean", 2, minkowski(2)}
	}
	var weights interface{}
	mode := []string{"uniform", "distance", "func"}[c.Intn(3)]
	weights = mode
	if mode == "func" {
		weights = func(dst, src []float64) {
			for i := range src {
				dst[i] = math.Exp(-src[i] * src[i] / 4)
			}
		}
	}
	reg := neighbors.NewKNeighborsRegressor(K, weights).(*neighbors.KNeighborsRegressor)
	reg.Algorithm, reg.Metric, reg.P = c.algorithm(), m.name, m.p
	Xl, _ := Layout(X, c.Intn(nLayouts))
	Yl, _ := Layout(Y, c.Intn(nLayouts))
	reg.Fit(Xl, Yl)
	Q := c.queryMat(X, 8)
	q, _ := Q.Dims()
	what := fmt.Sprintf("KNeighborsRegressor(K=%d,%s) metric=%s p=%v %s %s n=%d o=%d", K, mode, m.name, m.p, reg.Algorithm, kind, n, o)
	pred := mat.NewDense(q, o, nil)
	Ql, _ := Layout(Q, c.Intn(nLayouts))
	reg.Predict(Ql, pred)
	c.True("allocated", SameValues(reg.Predict(Q, nil), pred), "%s: Predict into nil differs", what)
	_, I := reg.KNeighbors(Q, K)
	for i := 0; i < q; i++ {
		ix, all, clear := neighbourList(X, row(Q, i), K, m.dist)
		if !clear {
			ix = ints(row(I, i))
			c.Count("tied queries", 1)
		}
		ds := make([]float64, K)
		for k := range ix {
			ds[k] = all[ix[k]]
		}
		w, ok := neighbourWeights(mode, ds)
		if mode == "func" {
			ok = true
			tot := 0.
			for k := range w {
				w[k] = math.Exp(-ds[k] * ds[k] / 4)
				tot += w[k]
			}
			if tot < 1e-200 {
				continue
			}
		}
		if !ok {
			continue
		}
		for j := 0; j < o; j++ {
			a, b := 0., 0.
			for k := range ix {
				a += w[k] * Y.At(ix[k], j)
				b += w[k]
			}
			c.Near("predict", pred.At(i, j), a/b, 1e-6, "%s: prediction for %v", what, row(Q, i))
		}
	}
	if q > 1 {
		Yt := c.RandMat(q, o, KGauss)
		r2 := 0.
		for j := 0; j < o; j++ {
			r2 += r2Ref(col(Yt, j), col(pred, j)) / float64(o)
		}
		{
			c.Near("score", reg.Score(Q, Yt), r2, 1e-9, "%s: Score", what)
		}
	}
	c.Sig("%s %x", what, Hash(X, Y, Q))
}

func nbCentroid(c *C) {
	X, kind := c.trainMat(40, 4)
	n, f := X.Dims()
	Y := c.labels(n, 1)
	metric := []string{"euclidean", "manhattan", "cosine", "l2"}[c.Intn(4)]
	clf := neighbors.NewNearestCentroid(metric, 0)
	Xl, _ := Layout(X, c.Intn(nLayouts))
	Yl, _ := Layout(Y, c.Intn(nLayouts))
	var fiter base.Fiter = clf.Fit(Xl, Yl)
	_ = fiter
	classes := setOf(col(Y, 0))
	cents := mat.NewDense(len(classes), f, nil)
	counts := []int{}
	for k, cl := range classes {
		cnt := 0
		for j := 0; j < f; j++ {
			v := []float64{}
			for i := 0; i < n; i++ {
				if Y.At(i, 0) == cl {
					v = append(v, X.At(i, j))
				}
			}
			cnt = len(v)
			if metric == "manhattan" {
				sort.Float64s(v)
				cents.Set(k, j, (v[(len(v)-1)/2]+v[len(v)/2])/2)
			} else {
				cents.Set(k, j, mean(v))
			}
		}
		counts = append(counts, cnt)
	}
	what := fmt.Sprintf("NearestCentroid(%s) n=%d f=%d %s", metric, n, f, kind)
	c.True("classes", fmt.Sprint(classes) == fmt.Sprint(clf.Classes[0]), "%s: classes %v want %v", what, clf.Classes[0], classes)
	c.True("counts", fmt.Sprint(counts) == fmt.Sprint(clf.ClassCount[0]), "%s: class counts %v want %v (classes %v)", what, clf.ClassCount[0], counts, classes)
	c.NearMat("centroids", clf.Centroids, cents, 1e-9, "%s: centroids", what)
	Q := c.queryMat(X, 8)
	q, _ := Q.Dims()
	dist := minkowski(2)
	switch metric {
	case "manhattan":
		dist = minkowski(1)
	case "cosine":
		dist = cosineDist
	}
	Ql, _ := Layout(Q, c.Intn(nLayouts))
	pred := clf.Predict(Ql, nil)
	good := 0.
	Yt := c.labels(q, 1)
	for i := 0; i < q; i++ {
		ds := allDist(cents, row(Q, i), dist)
		best := math.Inf(1)
		for _, d := range ds {
			best = math.Min(best, d)
		}
		ok := false
		for k := range ds {
			if ds[k] <= best+1e-9*(1+best) && pred.At(i, 0) == classes[k] {
				ok = true
			}
		}
		c.True("predict", ok, "%s: %v predicted for %v; classes %v at distances %v", what, pred.At(i, 0), row(Q, i), classes, ds)
		good += float64(b2i(Yt.At(i, 0) == pred.At(i, 0)))
	}
	c.Near("score", clf.Score(Q, Yt), good/float64(q), 1e-12, "%s: Score", what)
	c.Sig("%s %x", what, Hash(X, Y, Q))
}
