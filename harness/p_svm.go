package main

import (
	"fmt"
	"math"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/svm"
	xrand "golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register(&Property{
		ID: "C20",
		Rule: "a case draws samples, labels or targets, kernel and settings, trains a machine and checks dual feasibility, the optimality conditions or the distance to the optimum of an independent solver, and recomputes every prediction from the support vectors; " +
			"distinct by settings and hash of the data",
		Families: []Family{
			{Name: "svc", Quick: 2000, Thorough: 40000, Run: svSVC},
			{Name: "svr", Quick: 100, Thorough: 3000, Run: svSVR},
			{Name: "settings", Quick: 1000, Thorough: 10000, Run: svSettings},
			{Name: "eviction", Quick: 4, Thorough: 40, Run: svEviction},
		},
	})
}

// smo solves min 1/2 a'Qa + p'a, y'a = 0, 0 <= a <= C by maximal violating pairs.
func smo(Q [][]float64, p, y []float64, C float64) (a []float64, obj float64) {
	n := len(p)
	a = make([]float64, n)
	g := copyOf(p)
	for it := 0; it < 200000; it++ {
		up, lo := math.Inf(-1), math.Inf(1)
		i, j := -1, -1
		for t := 0; t < n; t++ {
			v := -y[t] * g[t]
			if (y[t] > 0 && a[t] < C) || (y[t] < 0 && a[t] > 0) {
				if v > up {
					up, i = v, t
				}
			}
			if (y[t] > 0 && a[t] > 0) || (y[t] < 0 && a[t] < C) {
				if v < lo {
					lo, j = v, t
				}
			}
		}
		if i < 0 || j < 0 || up-lo < 1e-10 {
			break
		}
		q := Q[i][i] + Q[j][j] - 2*y[i]*y[j]*Q[i][j]
		if q < 1e-12 {
			q = 1e-12
		}
		d := (up - lo) / q // along a_i += y_i d, a_j -= y_j d
		lim := func(t int, s float64) {
			if s > 0 {
				d = math.Min(d, C-a[t])
			} else {
				d = math.Min(d, a[t])
			}
		}
		lim(i, y[i])
		lim(j, -y[j])
		a[i] = math.Min(C, math.Max(0, a[i]+y[i]*d))
		a[j] = math.Min(C, math.Max(0, a[j]-y[j]*d))
		for t := 0; t < n; t++ {
			g[t] += Q[t][i]*y[i]*d - Q[t][j]*y[j]*d
		}
	}
	for t := 0; t < n; t++ {
		obj += a[t] * p[t]
		for s := 0; s < n; s++ {
			obj += .5 * a[t] * a[s] * Q[t][s]
		}
	}
	return
}

// svKernel draws a kernel: the setting for the machine and an independent evaluation.
func (c *C) svKernel(b *svm.BaseLibSVM, p int, positive bool) (f func(x, y []float64) float64, name string) {
	dot := func(x, y []float64) (s float64) {
		for i := range x {
			s += x[i] * y[i]
		}
		return
	}
	d2 := func(x, y []float64) (s float64) {
		for i := range x {
			s += (x[i] - y[i]) * (x[i] - y[i])
		}
		return
	}
	b.Gamma = []float64{0, .3, 1.5}[c.Intn(3)]
	gamma := b.Gamma
	if gamma <= 0 {
		gamma = 1 / float64(p)
	}
	b.Degree = float64(1 + c.Intn(3))
	b.Coef0 = []float64{0, 1, .5}[c.Intn(3)]
	coef0, degree := b.Coef0, b.Degree
	k := c.Intn(7)
	if positive && k == 3 {
		k = 2
	}
	switch k {
	case 0:
		b.Kernel = "linear"
		f = dot
	case 1:
		b.Kernel = []string{"poly", "polynomial"}[c.Intn(2)]
		f = func(x, y []float64) float64 { return math.Pow(gamma*dot(x, y)+coef0, degree) }
	case 2:
		b.Kernel = "rbf"
		f = func(x, y []float64) float64 { return math.Exp(-gamma * d2(x, y)) }
	case 3:
		b.Kernel = "sigmoid"
		f = func(x, y []float64) float64 { return math.Tanh(gamma*dot(x, y) + coef0) }
	case 4:
		f = func(x, y []float64) float64 { return math.Exp(-math.Sqrt(d2(x, y))) }
		b.Kernel = f
		return f, "func"
	case 5:
		b.Kernel = svm.LinearKernel{}
		f = dot
		return f, "LinearKernel"
	case 6: // the default of the constructor
		f = func(x, y []float64) float64 { return math.Exp(-gamma * d2(x, y)) }
		return f, "default(rbf)"
	}
	return f, fmt.Sprint(b.Kernel)
}

func (c *C) svState() base.Source {
	seed := uint64(c.Int63())
	switch c.Intn(3) {
	case 0:
		return base.NewLockedSource(seed)
	case 1:
		return base.NewSource(seed)
	}
	return xrand.NewSource(seed)
}

func (c *C) svCommon(what string, b *svm.BaseLibSVM, X *mat.Dense, o int) bool {
	n, p := X.Dims()
	if !c.True("outputs", len(b.Model) == o && len(b.Support) == o && len(b.SupportVectors) == o, "%s: models for %d outputs", what, len(b.Model)) {
		return false
	}
	for k, m := range b.Model {
		if !c.True("lengths", len(m.Alphas) == len(m.Support) && len(b.Support[k]) == len(m.Support) && len(b.SupportVectors[k]) == len(m.Support), "%s: lengths of the support differ", what) {
			return false
		}
		last := -1
		for q, i := range m.Support {
			if !c.True("support", i > last && i < n, "%s: support %v", what, m.Support) {
				return false
			}
			last = i
			for j := 0; j < p; j++ {
				c.True("vectors", m.X.At(q, j) == X.At(i, j) && b.SupportVectors[k][q][j] == X.At(i, j) && b.Support[k][q] == i, "%s: support vector %d is not sample %d", what, q, i)
			}
		}
	}
	return true
}

func svSVC(c *C) {
	n, p, o := c.Size(6, 20, 150), c.Size(1, 3, 10), 1
	if c.Intn(400) == 0 {
		n = 260 + c.Intn(80)
	} else if c.Intn(4) == 0 {
		o = 2 + c.Intn(2)
		if c.Intn(8) == 0 {
			n, o = 6+c.Intn(8), 9+c.Intn(10)
		}
	}
	X := c.RandMat(n, p, KGauss)
	Y := mat.NewDense(n, o, nil)
	neg := []float64{-1, 0}[c.Intn(2)]
	noise := c.Intn(2) == 0
	for k := 0; k < o; k++ {
		w := c.RandMat(p, 1, KGauss)
		for i := 0; i < n; i++ {
			s := .1
			for j := 0; j < p; j++ {
				s += X.At(i, j) * w.At(j, 0)
			}
			v := neg
			if s > 0 {
				v = 1
			} else {
				for j := 0; j < p && !noise; j++ {
					X.Set(i, j, X.At(i, j))
				}
			}
			if noise && c.Intn(6) == 0 {
				v = 1 + neg - v
			}
			if i == 0 {
				v = 1
			} else if i == 1 {
				v = neg
			}
			Y.Set(i, k, v)
		}
	}
	m := svm.NewSVC()
	ker, kname := c.svKernel(&m.BaseLibSVM, p, true)
	m.C = []float64{.1, 1, 10}[c.Intn(3)]
	m.Epsilon = []float64{1e-3, 1e-2, .1}[c.Intn(3)]
	m.Tol, m.MaxIter = 1e-7, 1000
	if n > 26 { // training is quadratic at best
		m.C, m.Epsilon = math.Min(m.C, 1), .1
	}
	m.CacheSize = uint(c.Intn(3))
	m.RandomState = c.svState()
	what := fmt.Sprintf("SVC(%s,C=%v,gamma=%v,coef0=%v,degree=%v,eps=%v) %s %v", kname, m.C, m.Gamma, m.Coef0, m.Degree, m.Epsilon, MatString(X), col(Y, 0))
	c.Stage("%s", what)
	m.Fit(c.layout(X), c.layout(Y))
	if !c.svCommon(what, &m.BaseLibSVM, X, o) {
		return
	}
	K := make([][]float64, n)
	kmax := 0.
	for i := range K {
		K[i] = make([]float64, n)
		for j := range K[i] {
			K[i][j] = ker(row(X, i), row(X, j))
			kmax = math.Max(kmax, math.Abs(K[i][j]))
		}
	}
	for k := 0; k < o; k++ {
		md := m.Model[k]
		a, y := make([]float64, n), make([]float64, n)
		for i := range y {
			y[i] = -1
			if Y.At(i, k) == 1 {
				y[i] = 1
			}
		}
		s := 0.
		for q, i := range md.Support {
			a[i] = md.Alphas[q]
			c.True("box", a[i] > 0 && a[i] <= m.C*(1+1e-12), "%s: multiplier %v outside (0,C]", what, a[i])
			c.True("label", md.Y[q] == y[i], "%s: label %v of support vector %d", what, md.Y[q], i)
			s += a[i] * y[i]
		}
		c.True("balance", math.Abs(s) <= 1e-6*float64(n)*(1+m.C), "%s: multipliers are not balanced: %v", what, s)
		Q := make([][]float64, n)
		pp := make([]float64, n)
		obj := 0.
		for i := range Q {
			pp[i] = -1
			Q[i] = make([]float64, n)
			for j := range Q[i] {
				Q[i][j] = y[i] * y[j] * K[i][j]
			}
		}
		for i := range Q {
			obj -= a[i]
			for j := range Q {
				obj += .5 * a[i] * a[j] * Q[i][j]
			}
		}
		_, best := smo(Q, pp, y, m.C)
		// worst violation of the conditions with the model's own threshold
		viol := 0.
		free := false
		for i := range a {
			free = free || a[i] > .01*m.C && a[i] < .99*m.C
		}
		for i := range y {
			f := md.B
			for j := range a {
				f += a[j] * y[j] * K[i][j]
			}
			e := y[i]*f - 1
			if a[i] < m.C-1e-6 && -e > viol {
				viol = -e
			}
			if a[i] > 1e-6 && e > viol {
				viol = e
			}
		}
		scale := float64(n) * m.C * m.Epsilon
		c.True("optimal", obj-best <= 1.01*scale+1e-6*(1+math.Abs(best)), "%s output %d: dual objective %v, the optimum is %v, tolerance allows %v", what, k, obj, best, scale)
		if free && obj-best > 1e-11*(1+math.Abs(best)) {
			c.Count("thresholds checked", 1)
			c.True("conditions", viol <= 1.01*m.Epsilon+1e-6, "%s output %d: optimality conditions violated by %v with threshold %v, tolerance %v", what, k, viol, md.B, m.Epsilon)
		}
	}
	// predictions, for training samples and new ones
	Q := X
	if c.Intn(2) == 0 {
		Q = c.RandMat(1+c.Intn(12), p, KGauss)
	}
	nq, _ := Q.Dims()
	pred := c.svPredict(what, m, Q, o)
	if pred == nil {
		return
	}
	hit := 0
	T := mat.NewDense(nq, o, nil)
	for i := 0; i < nq; i++ {
		good := true
		for k := 0; k < o; k++ {
			md := m.Model[k]
			f, abs := md.B, math.Abs(md.B)
			for q, s := range md.Support {
				y := -1.
				if Y.At(s, k) == 1 {
					y = 1
				}
				v := md.Alphas[q] * ker(row(Q, i), row(X, s))
				f += y * v
				abs += math.Abs(v)
			}
			c.True("binary", pred.At(i, k) == 0 || pred.At(i, k) == 1, "%s: predicted %v", what, pred.At(i, k))
			if math.Abs(f) > 1e-9*(1+abs) {
				c.True("predict", (f > 0) == (pred.At(i, k) == 1), "%s: sample %v output %d: decision %v, predicted %v", what, row(Q, i), k, f, pred.At(i, k))
			}
			v := pred.At(i, k)
			if c.Intn(4) == 0 {
				v, good = 1-v, false
			}
			if v == 0 {
				v = neg
			}
			T.Set(i, k, v)
		}
		if good {
			hit++
		}
	}
	c.Near("score", m.Score(c.layout(Q), c.layout(T)), float64(hit)/float64(nq), 1e-12, "%s: score", what)
	c.Sig("svc %s %v %v %x", kname, m.C, m.Gamma, Hash(X, Y))
}

// svPredict predicts into nothing and into a view and checks both agree.
func (c *C) svPredict(what string, m base.Predicter, Q *mat.Dense, o int) *mat.Dense {
	nq, _ := Q.Dims()
	pred := m.Predict(c.layout(Q), nil)
	if r, k := pred.Dims(); !c.True("dims", r == nq && k == o, "%s: predictions of %d samples are %d,%d", what, nq, r, k) {
		return nil
	}
	into := DenseView(c.RandMat(nq, o, KGauss), c.Intn(2) == 0)
	m.Predict(c.layout(Q), into)
	c.True("into", SameValues(into, pred), "%s: predictions into a given matrix differ: %s / %s", what, MatString(into), MatString(pred))
	return pred
}

// svSVR trains a dozen machines: each must be feasible, and they must be near the optimum on average.
func svSVR(c *C) {
	total, num := 0., 12
	for t := 0; t < num; t++ {
		gap, ok := c.svrOne()
		if !ok {
			return
		}
		total += gap
	}
	c.True("quality", total/float64(num) <= .6, "SVR: average relative distance to the optimum of the dual of %d machines %v", num, total/float64(num))
}

func (c *C) svrOne() (gap float64, ok bool) {
	n, p, o := c.Size(6, 20, 60), c.Size(1, 3, 10), 1
	if c.Intn(4) == 0 {
		o = 2 + c.Intn(2)
		if c.Intn(8) == 0 {
			n, o = 6+c.Intn(8), 9+c.Intn(10)
		}
	}
	X := c.RandMat(n, p, KGauss)
	Y := mat.NewDense(n, o, nil)
	flat := c.Intn(10) == 0
	for i := 0; i < n; i++ {
		for k := 0; k < o; k++ {
			v := math.Sin(X.At(i, 0)*float64(k+1)) + .5 + .1*c.NormFloat64()
			if flat {
				v *= .005
			}
			Y.Set(i, k, v)
		}
	}
	m := svm.NewSVR()
	ker, kname := c.svKernel(&m.BaseLibSVM, p, true)
	for kname[0] == 'p' && m.Degree*math.Max(m.Gamma, .3) > 1 { // large kernel values: slow training
		m.Kernel = "rbf"
		ker, kname = c.svKernel(&m.BaseLibSVM, p, true)
	}
	m.C = []float64{.1, 1, 10}[c.Intn(3)]
	m.Epsilon = []float64{1e-2, .1, .3}[c.Intn(3)]
	m.Tol, m.MaxIter = 1e-5, 30
	m.CacheSize = uint(c.Intn(3))
	m.RandomState = c.svState()
	what := fmt.Sprintf("SVR(%s,C=%v,gamma=%v,coef0=%v,degree=%v,eps=%v) %s %v", kname, m.C, m.Gamma, m.Coef0, m.Degree, m.Epsilon, MatString(X), col(Y, 0))
	c.Stage("SVR %s", kname)
	m.Fit(c.layout(X), c.layout(Y))
	if !c.svCommon(what, &m.BaseLibSVM, X, o) {
		return
	}
	K := make([][]float64, n)
	for i := range K {
		K[i] = make([]float64, n)
		for j := range K[i] {
			K[i][j] = ker(row(X, i), row(X, j))
		}
	}
	for k := 0; k < o; k++ {
		md := m.Model[k]
		a := make([]float64, n)
		for q, i := range md.Support {
			a[i] = md.Alphas[q]
		}
		obj, s := 0., 0.
		for i := range a {
			s += a[i]
			obj += m.Epsilon*math.Abs(a[i]) - Y.At(i, k)*a[i]
			for j := range a {
				obj += .5 * a[i] * a[j] * K[i][j]
			}
			c.True("box", math.Abs(a[i]) <= m.C*(1+1e-12), "%s: multiplier %v exceeds %v", what, a[i], m.C)
		}
		c.True("balance", math.Abs(s) <= m.Tol*float64(n)+1e-9, "%s: multipliers sum to %v", what, s)
		if k > 0 {
			continue
		}
		Q := make([][]float64, 2*n)
		pp, y := make([]float64, 2*n), make([]float64, 2*n)
		for i := range Q {
			Q[i] = make([]float64, 2*n)
			si := 1.
			if i >= n {
				si = -1
			}
			y[i] = si
			pp[i] = m.Epsilon - si*Y.At(i%n, 0)
			for j := range Q[i] {
				sj := 1.
				if j >= n {
					sj = -1
				}
				Q[i][j] = si * sj * K[i%n][j%n]
			}
		}
		_, best := smo(Q, pp, y, m.C)
		if best < -1e-6 {
			gap = (obj - best) / -best
			gap = math.Min(gap, 3)
		}
	}
	Q := X
	if c.Intn(2) == 0 {
		Q = c.RandMat(2+c.Intn(12), p, KGauss)
	}
	nq, _ := Q.Dims()
	pred := c.svPredict(what, m, Q, o)
	if pred == nil {
		return
	}
	for i := 0; i < nq; i++ {
		for k := 0; k < o; k++ {
			md := m.Model[k]
			f, abs := md.B, math.Abs(md.B)
			for q, s := range md.Support {
				v := md.Alphas[q] * ker(row(Q, i), row(X, s))
				f += v
				abs += math.Abs(v)
			}
			c.True("predict", math.Abs(f-pred.At(i, k)) <= 1e-10*(1+abs), "%s: sample %v output %d: support vectors give %v, predicted %v", what, row(Q, i), k, f, pred.At(i, k))
		}
	}
	T := c.RandMat(nq, o, KGauss)
	r2 := 0.
	for k := 0; k < o; k++ {
		num, den, mu := 0., 0., mean(col(T, k))
		for i := 0; i < nq; i++ {
			num += math.Pow(T.At(i, k)-pred.At(i, k), 2)
			den += math.Pow(T.At(i, k)-mu, 2)
		}
		r2 += (1 - num/den) / float64(o)
	}
	c.Near("score", m.Score(c.layout(Q), c.layout(T)), r2, 1e-9, "%s: score", what)
	c.Sig("svr %s %v %v %x", kname, m.C, m.Gamma, Hash(X, Y))
	return gap, true
}

// svEviction: more pairs of samples than the smallest cache holds.
func svEviction(c *C) {
	n, p := 363, 1+c.Intn(2)
	X, Y := c.RandMat(n, p, KGauss), mat.NewDense(n, 1, nil)
	for i := 0; i < n; i++ {
		y := float64(2*(i&1) - 1)
		for j := 0; j < p; j++ {
			X.Set(i, j, .2*X.At(i, j)+2*y)
		}
		Y.Set(i, 0, y)
	}
	seed := uint64(c.Int63())
	kernel := []string{"linear", "rbf", "poly"}[c.Intn(3)]
	evals := 0
	var first *svm.SVC
	for t, cache := range []uint{200, 1} {
		m := svm.NewSVC()
		m.C, m.Epsilon, m.MaxIter, m.CacheSize = 10, .5, 1, cache
		m.Kernel, m.RandomState = kernel, base.NewSource(seed)
		if kernel == "linear" {
			m.Kernel = func(a, b []float64) (s float64) {
				evals++
				for i := range a {
					s += a[i] * b[i]
				}
				return
			}
		}
		c.Stage("SVC %s, %d samples, cache of %d MB", kernel, n, cache)
		m.Fit(X, Y)
		if t == 0 {
			first = m
			if kernel == "linear" {
				c.True("evaluated once", evals <= n*(n+1)/2, "SVC, %d samples, cache of %d MB: %d evaluations of the kernel", n, cache, evals)
			}
			c.svCommon("SVC "+kernel, &m.BaseLibSVM, X, 1)
			continue
		}
		a, b := first.Model[0], m.Model[0]
		same := a.B == b.B && len(a.Alphas) == len(b.Alphas)
		for i := 0; same && i < len(a.Alphas); i++ {
			same = a.Alphas[i] == b.Alphas[i] && a.Support[i] == b.Support[i]
		}
		c.True("eviction", same, "SVC %s, %d samples, same seed, cache sizes 200 and 1 MB: models differ: %v %v / %v %v", kernel, n, a.B, a.Alphas, b.B, b.Alphas)
	}
	c.Sig("eviction %s %d %x", kernel, p, Hash(X))
}

// svSettings: the cache size and the layout do not matter, the seed does all, sigmoid kernels work too.
func svSettings(c *C) {
	n, p := c.Size(6, 20, 80), c.Size(1, 3, 10)
	X := c.RandMat(n, p, KGauss)
	Y := mat.NewDense(n, 1, nil)
	reg := c.Intn(2) == 0
	for i := 0; i < n; i++ {
		v := X.At(i, 0) + .3*c.NormFloat64()
		if !reg {
			if v > 0 || i == 0 {
				v = 1
			} else {
				v = -1
			}
			if i == 1 {
				v = -1
			}
		}
		Y.Set(i, 0, v)
	}
	var b svm.BaseLibSVM
	b.Kernel = "rbf"
	ker, kname := c.svKernel(&b, p, reg) // with kernels that are not positive, SVR may not settle
	for reg && kname[0] == 'p' && b.Degree*math.Max(b.Gamma, .3) > 1 {
		b.Kernel = "rbf"
		ker, kname = c.svKernel(&b, p, reg)
	}
	b.C, b.Epsilon, b.Tol, b.MaxIter = []float64{.1, 1, 10}[c.Intn(3)], []float64{.01, .1}[c.Intn(2)], 1e-6, 5
	seed := uint64(c.Int63())
	var first *svm.Model
	Q := c.RandMat(7, p, KGauss)
	var P *mat.Dense
	for t, cache := range []uint{200, 0, 1, 200} {
		b := b
		b.CacheSize, b.RandomState = cache, base.NewSource(seed)
		var md *svm.Model
		var pr *mat.Dense
		if reg {
			m := svm.NewSVR()
			m.BaseLibSVM = b
			m.Fit(c.layout(X), c.layout(Y))
			md, pr = m.Model[0], m.Predict(Q, nil)
			if t == 3 {
				again := m.PredicterClone().Predict(Q, nil)
				c.True("clone", SameValues(again, pr), "clone of SVR predicts differently")
			}
		} else {
			m := svm.NewSVC()
			m.BaseLibSVM = b
			m.Fit(c.layout(X), c.layout(Y))
			md, pr = m.Model[0], m.Predict(Q, nil)
		}
		if t == 0 {
			first, P = md, pr
			for x := 0; x < 20; x++ {
				u, v := row(c.RandMat(1, p, KGauss), 0), row(c.RandMat(1, p, KGauss), 0)
				c.Near("kernel", md.KernelFunction(u, v), ker(u, v), 1e-12, "kernel %s gamma=%v coef0=%v degree=%v of %v,%v", kname, b.Gamma, b.Coef0, b.Degree, u, v)
			}
			continue
		}
		same := md.B == first.B && len(md.Alphas) == len(first.Alphas) && SameValues(pr, P)
		for i := 0; same && i < len(md.Alphas); i++ {
			same = md.Alphas[i] == first.Alphas[i] && md.Support[i] == first.Support[i]
		}
		c.True("cache", same, "SVM regression=%v kernel %s C=%v: same seed, cache sizes 200 and %d MB: models differ: %v %v / %v %v", reg, kname, b.C, cache, first.B, first.Alphas, md.B, md.Alphas)
	}
	c.Sig("settings %v %s %x", reg, kname, Hash(X, Y))
}
