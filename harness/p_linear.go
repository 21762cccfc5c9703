package main

import (
	"fmt"
	"io"
	"log"
	"math"

	"github.com/pa-m/sklearn/base"
	linearmodel "github.com/pa-m/sklearn/linear_model"
	xrand "golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/gonum/optimize"
)

func init() {
	log.SetOutput(io.Discard)
	register(&Property{
		ID: "C18",
		Rule: "a case draws data (scaled, constant or correlated features, one or several targets, any matrix layout) and settings, fits a linear model and checks the optimality conditions of the documented objective at the returned coefficients, " +
			"recomputed from the data; distinct by settings and hash of the data",
		Families: []Family{
			{Name: "ols", Quick: 600, Thorough: 12000, Run: lnOLS},
			{Name: "ridge", Quick: 200, Thorough: 4000, Run: lnRidge},
			{Name: "enet", Quick: 500, Thorough: 10000, Run: lnEnet},
			{Name: "path", Quick: 100, Thorough: 2000, Run: lnPath},
			{Name: "bayes", Quick: 300, Thorough: 6000, Run: lnBayes},
			{Name: "preprocess", Quick: 400, Thorough: 8000, Run: lnPreprocess},
			{Name: "stochastic", Quick: 400, Thorough: 8000, Run: lnStochastic},
			{Name: "linfit", Quick: 200, Thorough: 4000, Run: lnLinFit},
		},
	})
	register(&Property{
		ID: "C19",
		Rule: "a case evaluates a loss at random parameters, targets and penalties and compares value and gradient with an independent evaluation and with finite differences, " +
			"or fits a logistic regression and checks stationarity of the penalized likelihood and the predictions; distinct by settings and hash of the data",
		Families: []Family{
			{Name: "losses", Quick: 1500, Thorough: 30000, Run: lnLosses},
			{Name: "logistic", Quick: 300, Thorough: 6000, Run: lnLogistic},
		},
	})
}

// solveSPD solves A x = b by Gaussian elimination with partial pivoting.
func solveLin(A [][]float64, b []float64) []float64 {
	n := len(b)
	M := make([][]float64, n)
	for i := range M {
		M[i] = append(append([]float64{}, A[i]...), b[i])
	}
	for k := 0; k < n; k++ {
		p := k
		for i := k + 1; i < n; i++ {
			if math.Abs(M[i][k]) > math.Abs(M[p][k]) {
				p = i
			}
		}
		M[k], M[p] = M[p], M[k]
		if M[k][k] == 0 {
			return nil
		}
		for i := k + 1; i < n; i++ {
			f := M[i][k] / M[k][k]
			for j := k; j <= n; j++ {
				M[i][j] -= f * M[k][j]
			}
		}
	}
	x := make([]float64, n)
	for i := n - 1; i >= 0; i-- {
		s := M[i][n]
		for j := i + 1; j < n; j++ {
			s -= M[i][j] * x[j]
		}
		x[i] = s / M[i][i]
	}
	return x
}

// centred returns copies of X and Y prepared as documented, with offsets and scales.
func prepared(X, Y *mat.Dense, intercept, normalize bool) (Xc, Yc *mat.Dense, xo, xs, yo []float64) {
	n, p := X.Dims()
	_, o := Y.Dims()
	Xc, Yc = Clone(X), Clone(Y)
	xo, xs, yo = make([]float64, p), make([]float64, p), make([]float64, o)
	for j := range xs {
		xs[j] = 1
	}
	if !intercept {
		return
	}
	for j := 0; j < p; j++ {
		xo[j] = mean(col(X, j))
		nn := 0.
		for i := 0; i < n; i++ {
			v := X.At(i, j) - xo[j]
			Xc.Set(i, j, v)
			nn += v * v
		}
		if normalize && nn > 0 {
			xs[j] = math.Sqrt(nn)
			for i := 0; i < n; i++ {
				Xc.Set(i, j, Xc.At(i, j)/xs[j])
			}
		}
	}
	for k := 0; k < o; k++ {
		yo[k] = mean(col(Y, k))
		for i := 0; i < n; i++ {
			Yc.Set(i, k, Y.At(i, k)-yo[k])
		}
	}
	return
}

// regData draws a regression problem: features of rank p, targets with noise.
func (c *C) regData(n, p, o int) (X, Y *mat.Dense) {
	X = c.RandMat(n, p, KGauss)
	for j := 0; j < p; j++ {
		s, off := 1., 0.
		if c.Intn(3) == 0 {
			s, off = math.Pow(10, float64(c.Intn(3)-1)), c.NormFloat64()*3
		}
		for i := 0; i < n; i++ {
			v := X.At(i, j)
			if j > 0 && c.Intn(2) == 0 {
				v += .1 * X.At(i, j-1)
			}
			X.Set(i, j, v*s+off*s)
		}
	}
	W := c.RandMat(p, o, KSparse)
	Y = &mat.Dense{}
	Y.Mul(X, W)
	for i := 0; i < n; i++ {
		for k := 0; k < o; k++ {
			Y.Set(i, k, Y.At(i, k)+.3*c.NormFloat64()+float64(k))
		}
	}
	return
}

// outputs draws a number of targets.
func (c *C) outputs() int {
	if c.Intn(6) == 0 {
		return 4 + c.Intn(4)
	}
	return 1 + c.Intn(3)
}

// rescale multiplies features and targets by a power of ten, the same conditioning otherwise.
func (c *C) rescale(X, Y *mat.Dense, max int) (sx, sy float64) {
	sx, sy = 1, 1
	if c.Intn(4) == 0 {
		sx, sy = math.Pow(10, float64(c.Intn(2*max+1)-max)), math.Pow(10, float64(c.Intn(2*max+1)-max))
		X.Scale(sx, X)
		Y.Scale(sy, Y)
	}
	return
}

// linear is what all the linear models offer.
type linear interface {
	base.Predicter
}

// lnCommon checks predictions, score and intercept against Coef.
func (c *C) lnCommon(what string, m base.Predicter, lm *linearmodel.LinearModel, X, Y *mat.Dense, xo, yo []float64, intercept bool) bool {
	n, p := X.Dims()
	_, o := Y.Dims()
	if !c.True("coef dims", lm.Coef != nil && lm.Intercept != nil && dimsAre(lm.Coef, p, o) && dimsAre(lm.Intercept, 1, o), "%s: coefficients are not %dx%d", what, p, o) {
		return false
	}
	for k := 0; k < o; k++ {
		want, scale := yo[k], math.Abs(yo[k])
		for j := 0; j < p; j++ {
			want -= xo[j] * lm.Coef.At(j, k)
			scale += math.Abs(xo[j] * lm.Coef.At(j, k))
		}
		if !intercept {
			want = 0
		}
		c.True("intercept", math.Abs(lm.Intercept.At(0, k)-want) <= 1e-9*scale, "%s: intercept %v, want %v", what, lm.Intercept.At(0, k), want)
	}
	Q := c.RandMat(4, p, KGauss)
	for j := 0; j < p; j++ { // of the size of the features
		s := 0.
		for i := 0; i < n; i++ {
			s = math.Max(s, math.Abs(X.At(i, j)))
		}
		for i := 0; i < 4; i++ {
			Q.Set(i, j, Q.At(i, j)*s)
		}
	}
	D, g := Layout(mat.NewDense(4, o, nil), LView)
	Dn := m.Predict(c.layout(Q), nil)
	m.Predict(c.layout(Q), D.(*mat.Dense))
	if !c.True("predict dims", dimsAre(Dn, 4, o), "%s: predictions %s", what, MatString(Dn)) {
		return false
	}
	for i := 0; i < 4; i++ {
		for k := 0; k < o; k++ {
			v := lm.Intercept.At(0, k)
			s := math.Abs(v)
			for j := 0; j < p; j++ {
				v += Q.At(i, j) * lm.Coef.At(j, k)
				s += math.Abs(Q.At(i, j) * lm.Coef.At(j, k))
			}
			c.NearRel("predict", Dn.At(i, k), v, s, 1e-11, "%s: prediction %d,%d", what, i, k)
			c.NearRel("predict into", D.At(i, k), v, s, 1e-11, "%s: prediction %d,%d into a view", what, i, k)
		}
	}
	c.True("predict guard", g(), "%s: Predict wrote outside its destination", what)
	c.True("outputs", m.GetNOutputs() == o && !m.IsClassifier(), "%s: %d outputs, want %d", what, m.GetNOutputs(), o)
	// score
	r2, ok := 0., true
	for k := 0; k < o; k++ {
		my := mean(col(Y, k))
		sse, sst := 0., 0.
		for i := 0; i < n; i++ {
			v := lm.Intercept.At(0, k)
			for j := 0; j < p; j++ {
				v += X.At(i, j) * lm.Coef.At(j, k)
			}
			sse += math.Pow(Y.At(i, k)-v, 2)
			sst += math.Pow(Y.At(i, k)-my, 2)
		}
		if !(sst > 1e-6*my*my*float64(n)) || sst < 1e-18 { // the denominator has a floor of 1e-20
			ok = false
		}
		r2 += 1 - sse/sst
	}
	if ok {
		c.Near("score", m.Score(c.layout(X), c.layout(Y)), r2/float64(o), 1e-7, "%s: R2 score", what)
	}
	return true
}

func lnOLS(c *C) {
	p, o := c.Size(1, 5, 25), c.outputs()
	n := p + c.Rarely(c.Size(3, 20, 600), 8000)
	X, Y := c.regData(n, p, o)
	c.rescale(X, Y, 9)
	intercept, normalize := c.Intn(4) > 0, c.Intn(2) == 0
	m := linearmodel.NewLinearRegression()
	m.FitIntercept, m.Normalize = intercept, normalize
	what := fmt.Sprintf("LinearRegression(intercept=%v,normalize=%v) %s %s", intercept, normalize, MatString(X), MatString(Y))
	if c.Intn(3) == 0 {
		X0, Y0 := c.regData(12, 1+c.Intn(4), 1+c.Intn(3))
		m.Fit(X0, Y0)
	}
	m.Fit(c.layout(X), c.layout(Y))
	_, _, xo, _, yo := prepared(X, Y, intercept, normalize)
	if !c.lnCommon(what, m, &m.LinearModel, X, Y, xo, yo, intercept) {
		return
	}
	// residuals are orthogonal to the (centred) features
	Xc, Yc, _, _, _ := prepared(X, Y, intercept, false)
	c.orthogonal("orthogonal", what, Xc, Yc, m.Coef, nil, 1e-8)
	c.Sig("ols %v %v %x", intercept, normalize, Hash(X, Y))
}

// orthogonal checks X'(Y - X W) = pen, relative to the size of the terms.
func (c *C) orthogonal(key, what string, X, Y, W *mat.Dense, pen func(j, k int) float64, tol float64) {
	n, p := X.Dims()
	_, o := Y.Dims()
	for k := 0; k < o; k++ {
		res := make([]float64, n)
		ny := 0.
		for i := range res {
			res[i] = Y.At(i, k)
			t := math.Abs(res[i])
			for j := 0; j < p; j++ {
				res[i] -= X.At(i, j) * W.At(j, k)
				t += math.Abs(X.At(i, j) * W.At(j, k))
			}
			ny += t * t
		}
		for j := 0; j < p; j++ {
			s, nx := 0., 0.
			for i := range res {
				s += X.At(i, j) * res[i]
				nx += X.At(i, j) * X.At(i, j)
			}
			want := 0.
			if pen != nil {
				want = pen(j, k)
			}
			c.True(key, math.Abs(s-want) <= tol*(math.Sqrt(nx*ny)+math.Abs(want)), "%s: target %d feature %d: X'r is %v, want %v (scale %v); coef %s", what, k, j, s, want, math.Sqrt(nx*ny), MatString(W))
		}
	}
}

func lnRidge(c *C) {
	p, o := c.Size(1, 4, 25), c.outputs()
	n := p + c.Size(3, 15, 600)
	X, Y := c.regData(n, p, o)
	intercept, normalize := c.Intn(4) > 0, c.Intn(3) == 0
	alpha := []float64{0, .01, 1, 10}[c.Intn(4)]
	var m base.Predicter
	var lm *linearmodel.LinearModel
	name := "Ridge"
	tol, l1 := 1e-5, 0.
	if c.Intn(2) == 0 {
		r := linearmodel.NewRidge()
		r.FitIntercept, r.Normalize, r.Alpha = intercept, normalize, alpha
		m, lm = r, &r.LinearModel
	} else {
		name = "SGDRegressor(L1Ratio=0)"
		r := linearmodel.NewSGDRegressor()
		r.FitIntercept, r.Normalize, r.Alpha, r.L1Ratio = intercept, normalize, alpha, 0
		if c.Intn(3) == 0 {
			r.L1Ratio = []float64{.15, .5, 1}[c.Intn(3)]
			l1 = r.L1Ratio
			name = fmt.Sprintf("SGDRegressor(L1Ratio=%v)", l1)
		}
		r.NJobs = c.Intn(3)
		m, lm = r, &r.LinearModel
	}
	if c.Intn(3) == 0 {
		m = m.PredicterClone()
		switch r := m.(type) {
		case *linearmodel.Ridge:
			lm = &r.LinearModel
		case *linearmodel.SGDRegressor:
			lm = &r.LinearModel
		}
	}
	what := fmt.Sprintf("%s(alpha=%v,intercept=%v,normalize=%v) %s %s", name, alpha, intercept, normalize, MatString(X), MatString(Y))
	if c.Intn(3) == 0 {
		X0, Y0 := c.regData(12, 1+c.Intn(4), 1+c.Intn(3))
		m.Fit(X0, Y0)
	}
	m.Fit(c.layout(X), c.layout(Y))
	Xc, Yc, xo, xs, yo := prepared(X, Y, intercept, normalize)
	if !c.lnCommon(what, m, lm, X, Y, xo, yo, intercept) {
		return
	}
	W := Clone(lm.Coef)
	W.Apply(func(j, k int, v float64) float64 { return v * xs[j] }, W)
	if l1 > 0 && alpha > 0 { // differentiable unless a coefficient is about null
		for j := 0; j < p; j++ {
			for k := 0; k < o; k++ {
				s, t := 0., 0.
				for i := 0; i < n; i++ {
					s += Xc.At(i, j) * Xc.At(i, j) * W.At(j, k) * W.At(j, k)
					t += Yc.At(i, k) * Yc.At(i, k)
				}
				if s < 1e-2*t {
					return
				}
			}
		}
		c.Count("l1 away from the kink", 1)
	}
	// X'(y-Xw) = alpha w for the prepared data
	c.orthogonal("stationary", what, Xc, Yc, W, func(j, k int) float64 {
		return alpha * (l1/2*sign(W.At(j, k)) + (1-l1)*W.At(j, k))
	}, tol)
	c.Sig("%s %v %v %v %x", name, alpha, intercept, normalize, Hash(X, Y))
}

// enetObjective is the penalized sum of squares, as documented.
func enetObjective(X, Y, W *mat.Dense, l1, l2 float64) float64 {
	n, p := X.Dims()
	_, o := Y.Dims()
	J := 0.
	for i := 0; i < n; i++ {
		for k := 0; k < o; k++ {
			r := Y.At(i, k)
			for j := 0; j < p; j++ {
				r -= X.At(i, j) * W.At(j, k)
			}
			J += r * r / 2
		}
	}
	for j := 0; j < p; j++ {
		s := 0.
		for k := 0; k < o; k++ {
			s += W.At(j, k) * W.At(j, k)
		}
		J += l1*math.Sqrt(s) + l2/2*s
	}
	return J
}

func (c *C) enetData() (X, Y *mat.Dense) {
	p, o := c.Size(1, 6, 20), 1
	if c.Intn(3) == 0 {
		o = 2 + c.Intn(2)
		if c.Intn(4) == 0 {
			o = 4 + c.Intn(5)
		}
	}
	n := c.Size(4, 20, 300)
	X, Y = c.regData(n, p, o)
	if c.Intn(4) == 0 && p > 1 { // a constant feature
		v := float64(c.Intn(3))
		for i := 0; i < n; i++ {
			X.Set(i, c.Intn(1), v)
		}
	}
	return
}

// enetKKT checks the optimality conditions of the elastic net for prepared data.
func (c *C) enetKKT(what string, X, Y, W *mat.Dense, l1, l2 float64, positive bool, tol float64) {
	n, p := X.Dims()
	_, o := Y.Dims()
	ny := 0.
	for i := 0; i < n; i++ {
		for k := 0; k < o; k++ {
			ny += Y.At(i, k) * Y.At(i, k)
		}
	}
	for j := 0; j < p; j++ {
		nx, nw, ng := 0., 0., 0.
		g := make([]float64, o)
		for i := 0; i < n; i++ {
			nx += X.At(i, j) * X.At(i, j)
			for k := 0; k < o; k++ {
				r := Y.At(i, k)
				for q := 0; q < p; q++ {
					r -= X.At(i, q) * W.At(q, k)
				}
				g[k] += X.At(i, j) * r
			}
		}
		for k := range g {
			nw += W.At(j, k) * W.At(j, k)
			ng += g[k] * g[k]
		}
		nw, ng = math.Sqrt(nw), math.Sqrt(ng)
		eps := tol * (math.Sqrt(nx*ny) + l1)
		if nx == 0 {
			c.True("unused", nw == 0, "%s: coefficient %d of a null feature is %v", what, j, nw)
			continue
		}
		if positive {
			c.True("positive", W.At(j, 0) >= 0, "%s: negative coefficient %v", what, W.At(j, 0))
			if W.At(j, 0) > 0 {
				c.True("kkt", math.Abs(g[0]-l1-l2*W.At(j, 0)) <= eps, "%s: positive coefficient %d=%v, X'r=%v l1=%v l2=%v", what, j, W.At(j, 0), g[0], l1, l2)
			} else {
				c.True("kkt0", g[0] <= l1+eps, "%s: null coefficient %d with X'r=%v > l1=%v", what, j, g[0], l1)
			}
			continue
		}
		if nw == 0 {
			c.True("kkt0", ng <= l1+eps, "%s: null coefficients %d with |X'r|=%v > l1=%v", what, j, ng, l1)
			continue
		}
		for k := range g {
			want := W.At(j, k) * (l1/nw + l2)
			c.True("kkt", math.Abs(g[k]-want) <= eps, "%s: coefficient %d,%d=%v, X'r=%v want %v (l1=%v l2=%v)", what, j, k, W.At(j, k), g[k], want, l1, l2)
		}
	}
}

func lnEnet(c *C) {
	X, Y := c.enetData()
	sx, sy := c.rescale(X, Y, 6)
	n, p := X.Dims()
	_, o := Y.Dims()
	intercept, normalize := c.Intn(4) > 0, c.Intn(3) == 0
	var m *linearmodel.ElasticNet
	switch c.Intn(3) {
	case 0:
		m = linearmodel.NewLasso()
	case 1:
		m = linearmodel.NewElasticNet()
		m.L1Ratio = []float64{.1, .5, .9}[c.Intn(3)]
	case 2:
		m = linearmodel.NewMultiTaskElasticNet()
	}
	m.Alpha = []float64{.001, .01, .1, 1}[c.Intn(4)]
	if normalize {
		m.Alpha /= 10
	}
	if m.Alpha < .01 && n <= p+1 {
		m.Alpha = .05
	}
	if normalize && intercept { // the penalty in the units of the data
		m.Alpha *= sy
	} else if m.L1Ratio == 1 {
		m.Alpha *= sx * sy
	} else if sx != 1 || sy != 1 {
		X.Scale(1/sx, X)
		Y.Scale(1/sy, Y)
	}
	m.FitIntercept, m.Normalize = intercept, normalize
	m.Tol, m.MaxIter = 1e-10, 100000
	m.Positive = o == 1 && c.Intn(4) == 0
	if c.Intn(3) == 0 {
		m.Selection = "random"
	}
	m.WarmStart = c.Intn(3) == 0
	what := fmt.Sprintf("ElasticNet(alpha=%v,l1=%v,intercept=%v,normalize=%v,positive=%v,warm=%v,%s) %s %s", m.Alpha, m.L1Ratio, intercept, normalize, m.Positive, m.WarmStart, m.Selection, MatString(X), MatString(Y))
	if c.Intn(3) == 0 {
		X0, Y0 := c.regData(12, 1+c.Intn(4), o)
		m.Fit(X0, Y0)
	}
	if c.Intn(4) == 0 {
		m = m.PredicterClone().(*linearmodel.ElasticNet)
	}
	m.Fit(c.layout(X), c.layout(Y))
	Xc, Yc, xo, xs, yo := prepared(X, Y, intercept, normalize)
	if !c.lnCommon(what, m, &m.LinearModel, X, Y, xo, yo, intercept) {
		return
	}
	W := Clone(m.Coef)
	W.Apply(func(j, k int, v float64) float64 { return v * xs[j] }, W)
	l1, l2 := m.Alpha*m.L1Ratio*float64(n), m.Alpha*(1-m.L1Ratio)*float64(n)
	if m.CDResult.NIter < m.MaxIter {
		c.Count("converged", 1)
		c.enetKKT(what, Xc, Yc, W, l1, l2, m.Positive, 3e-5)
		c.True("gap", m.CDResult.Gap <= m.CDResult.Eps, "%s: stopped with gap %v > %v", what, m.CDResult.Gap, m.CDResult.Eps)
	}
	// a loose fit reports a duality gap which bounds its distance to the optimum
	best := enetObjective(Xc, Yc, W, l1, l2)
	loose := m.PredicterClone().(*linearmodel.ElasticNet)
	loose.WarmStart = false
	loose.Tol, loose.MaxIter = []float64{1e-1, 1e-2, 1e-3}[c.Intn(3)], 1+c.Intn(20)
	loose.Fit(X, Y)
	Wl := Clone(loose.Coef)
	Wl.Apply(func(j, k int, v float64) float64 { return v * xs[j] }, Wl)
	J := enetObjective(Xc, Yc, Wl, l1, l2)
	J0 := enetObjective(Xc, Yc, mat.NewDense(p, o, nil), 0, 0)
	wantGap, gapScale := enetGap(Xc, Yc, Wl, l1, l2, m.Positive)
	c.NearRel("gap value", loose.CDResult.Gap, wantGap, gapScale, 1e-9, "%s: with tol %v and %d iterations, duality gap at the coefficients returned", what, loose.Tol, loose.MaxIter)
	c.NearRel("gap target", loose.CDResult.Eps, loose.Tol*2*J0, loose.Tol*2*J0, 1e-6, "%s: tolerance on the gap", what)
	c.True("dual", J-best <= loose.CDResult.Gap+1e-6*J0, "%s: with tol %v the objective is %v, the optimum at most %v, the reported gap %v", what, loose.Tol, J, best, loose.CDResult.Gap)
	c.NearMat("unchanged", m.Coef, scaledBack(W, xs), 1e-12, "%s: fitting a clone changed the coefficients", what)
	c.Sig("enet %v %v %v %v %v %x", m.Alpha, m.L1Ratio, intercept, normalize, m.Positive, Hash(X, Y))
}

// enetGap is the primal objective minus the dual one at the scaled residual.
func enetGap(X, Y, W *mat.Dense, l1, l2 float64, positive bool) (gap, scale float64) {
	n, p := X.Dims()
	_, o := Y.Dims()
	R := &mat.Dense{}
	R.Mul(X, W)
	R.Sub(Y, R)
	rr, ry, ww, wl, dual := 0., 0., 0., 0., 0.
	if positive {
		dual = math.Inf(-1)
	}
	for i := 0; i < n; i++ {
		for k := 0; k < o; k++ {
			rr += R.At(i, k) * R.At(i, k)
			ry += R.At(i, k) * Y.At(i, k)
			scale += R.At(i, k)*R.At(i, k) + math.Abs(R.At(i, k)*Y.At(i, k)) + Y.At(i, k)*Y.At(i, k)
		}
	}
	for j := 0; j < p; j++ {
		s, d, last := 0., 0., 0.
		for k := 0; k < o; k++ {
			a := -l2 * W.At(j, k)
			for i := 0; i < n; i++ {
				a += X.At(i, j) * R.At(i, k)
			}
			s += W.At(j, k) * W.At(j, k)
			d += a * a
			last = a
		}
		ww += s
		wl += math.Sqrt(s)
		if positive {
			dual = math.Max(dual, last)
		} else {
			dual = math.Max(dual, math.Sqrt(d))
		}
	}
	cons := 1.
	if dual > l1 {
		cons = l1 / dual
	}
	gap = .5*rr*(1+cons*cons) + l1*wl - cons*ry + .5*l2*(1+cons*cons)*ww
	return gap, scale + l1*wl + l2*ww
}

func flatten(A [][]float64) (v []float64) {
	for _, r := range A {
		v = append(v, r...)
	}
	return
}

func scaledBack(W *mat.Dense, xs []float64) *mat.Dense {
	V := Clone(W)
	V.Apply(func(j, k int, v float64) float64 { return v / xs[j] }, V)
	return V
}

func lnPath(c *C) {
	X, Y := c.enetData()
	n, p := X.Dims()
	positive := c.Intn(4) == 0
	if _, o := Y.Dims(); o > 1 {
		positive = false
	}
	k := 1 + c.Intn(5)
	if c.Intn(4) == 0 {
		k = 6 + c.Intn(20)
	}
	alphas := make([]float64, k)
	for i := range alphas {
		alphas[i] = .02 + c.Float64()
		if n > 2*p && c.Intn(8) == 0 {
			alphas[i] = 0
		}
	}
	l1r := 1.
	in := copyOf(alphas)
	var got []float64
	var coefs []*mat.Dense
	var gaps []float64
	var iters []int
	xm, ym := DenseView(X, c.Intn(2) == 0), DenseView(Y, c.Intn(2) == 0)
	if c.Intn(2) == 0 {
		got, coefs, gaps, iters = linearmodel.LassoPath(xm, ym, 1e-9, k, &in, false, positive)
	} else {
		l1r = []float64{.3, .8}[c.Intn(2)]
		got, coefs, gaps, iters = linearmodel.EnetPath(xm, ym, l1r, 1e-9, k, &in, false, positive)
	}
	what := fmt.Sprintf("EnetPath(l1=%v,alphas=%v,positive=%v) %s %s", l1r, alphas, positive, MatString(X), MatString(Y))
	c.True("alphas", fmt.Sprint(got) == fmt.Sprint(alphas) && fmt.Sprint(in) == fmt.Sprint(alphas), "%s: alphas %v", what, got)
	if !c.True("lengths", len(coefs) == k && len(gaps) == k && len(iters) == k, "%s: wrong lengths", what) {
		return
	}
	c.True("inputs", SameValues(xm, X) && SameValues(ym, Y), "%s changed its inputs", what)
	for i := range coefs {
		if iters[i] < 1000 {
			l1, l2 := alphas[i]*l1r*float64(n), alphas[i]*(1-l1r)*float64(n)
			c.enetKKT(fmt.Sprintf("%s alpha %v", what, alphas[i]), X, Y, coefs[i], l1, l2, positive, 1e-4)
		}
	}
	for i := range coefs {
		if alphas[i] == 0 {
			continue
		}
		l1, l2 := alphas[i]*l1r*float64(n), alphas[i]*(1-l1r)*float64(n)
		g, s := enetGap(X, Y, coefs[i], l1, l2, positive)
		c.NearRel("path gap", gaps[i], g, s, 1e-9, "%s: gap for alpha %v", what, alphas[i])
	}
	if k > 1 && c.Intn(3) == 0 { // the grid of penalties drawn from the data
		eps := []float64{1e-1, 1e-2}[c.Intn(2)]
		grid, gc, _, gi := linearmodel.EnetPath(xm, ym, l1r, eps, k, nil, false, positive)
		ok := len(grid) == k && len(gc) == k
		for i := 0; ok && i < k; i++ {
			ok = math.Abs(math.Log(grid[i]/grid[k-1])-math.Log(eps)*float64(k-1-i)/float64(k-1)) <= 1e-6
		}
		if c.True("grid", ok, "%s: eps=%v: penalties %v are not %d points, evenly spaced in logarithm, of ratio %v", what, eps, grid, k, eps) {
			for i := range gc {
				if gi[i] < 1000 {
					c.enetKKT(fmt.Sprintf("%s alpha %v", what, grid[i]), X, Y, gc[i], grid[i]*l1r*float64(n), grid[i]*(1-l1r)*float64(n), positive, 1.5*math.Sqrt(eps))
				}
			}
		}
	}
	c.Sig("path %v %v %d %x", l1r, alphas, p, Hash(X, Y))
}

func lnBayes(c *C) {
	p, o := c.Size(1, 4, 12), 1
	if c.Intn(4) == 0 {
		o = 2 + c.Intn(3)
	}
	n := p + c.Size(4, 25, 300)
	X, Y := c.regData(n, p, o)
	m := linearmodel.NewBayesianRidge()
	m.FitIntercept, m.Normalize = c.Intn(4) > 0, c.Intn(2) == 0
	m.Tol, m.NIter = 1e-11, 20000
	m.ComputeScore = c.Intn(2) == 0
	if c.Intn(3) == 0 {
		m.Lambda1, m.Lambda2, m.Alpha1, m.Alpha2 = 1e-3, 1e-2, 1e-2, 1e-3
	}
	what := fmt.Sprintf("BayesianRidge(intercept=%v,normalize=%v,l=%v,%v,a=%v,%v) %s %s", m.FitIntercept, m.Normalize, m.Lambda1, m.Lambda2, m.Alpha1, m.Alpha2, MatString(X), MatString(Y))
	if c.Intn(3) == 0 {
		X0, Y0 := c.regData(12, 1+c.Intn(4), 1+c.Intn(2))
		m.Fit(X0, Y0)
	}
	m.Fit(c.layout(X), c.layout(Y))
	Xc, Yc, xo, xs, yo := prepared(X, Y, m.FitIntercept, m.Normalize)
	if !c.lnCommon(what, m, &m.LinearModel, X, Y, xo, yo, m.FitIntercept) {
		return
	}
	al, la := m.Alpha, m.Lambda
	if !c.True("precisions", al > 0 && la > 0 && !math.IsInf(al, 0) && !math.IsInf(la, 0), "%s: alpha=%v lambda=%v", what, al, la) {
		return
	}
	// posterior covariance and mean for the reported precisions
	A := make([][]float64, p)
	for a := range A {
		A[a] = make([]float64, p)
		for b := range A[a] {
			for i := 0; i < n; i++ {
				A[a][b] += al * Xc.At(i, a) * Xc.At(i, b)
			}
		}
		A[a][a] += la
	}
	S := mat.NewDense(p, p, nil)
	for a := 0; a < p; a++ {
		e := make([]float64, p)
		e[a] = 1
		S.SetCol(a, solveLin(A, e))
	}
	smax := 0.
	for a := 0; a < p; a++ {
		smax = math.Max(smax, S.At(a, a))
	}
	if !c.True("sigma dims", m.Sigma != nil && dimsAre(m.Sigma, p, p), "%s: Sigma", what) {
		return
	}
	for a := 0; a < p; a++ {
		for b := 0; b < p; b++ {
			c.True("sigma", math.Abs(m.Sigma.At(a, b)-S.At(a, b)) <= 1e-6*smax, "%s: Sigma[%d,%d]=%v want %v", what, a, b, m.Sigma.At(a, b), S.At(a, b))
		}
	}
	W := Clone(m.Coef)
	W.Apply(func(j, k int, v float64) float64 { return v * xs[j] }, W)
	wmax := 0.
	W.Apply(func(_, _ int, v float64) float64 { wmax = math.Max(wmax, math.Abs(v)); return v }, W)
	sw, sse := 0., 0.
	for k := 0; k < o; k++ {
		b := make([]float64, p)
		for j := range b {
			for i := 0; i < n; i++ {
				b[j] += al * Xc.At(i, j) * Yc.At(i, k)
			}
		}
		w := solveLin(A, b)
		for j := range w {
			c.True("mean", math.Abs(W.At(j, k)-w[j]) <= 1e-6*(1e-3+wmax), "%s: coefficient %d,%d (prepared) %v, posterior mean %v for alpha=%v lambda=%v", what, j, k, W.At(j, k), w[j], al, la)
			sw += W.At(j, k) * W.At(j, k)
		}
		for i := 0; i < n; i++ {
			r := Yc.At(i, k)
			for j := 0; j < p; j++ {
				r -= Xc.At(i, j) * W.At(j, k)
			}
			sse += r * r
		}
	}
	{ // evidence fixed point
		gamma := float64(p)
		for a := 0; a < p; a++ {
			gamma -= la * S.At(a, a)
		}
		gamma *= float64(o)
		tol := 1e-4
		if gamma < .5 { // converges slowly
			tol = 1e-2
		}
		c.Near("lambda", la, (gamma+2*m.Lambda1)/(sw+2*m.Lambda2), tol, "%s: lambda", what)
		c.Near("alpha", al, (float64(n*o)-gamma+2*m.Alpha1)/(sse+2*m.Alpha2), tol, "%s: alpha", what)
		if m.Normalize && m.FitIntercept || !m.FitIntercept {
			Q := c.RandMat(3, p, KGauss)
			yq, sd := &mat.Dense{}, &mat.Dense{}
			m.Predict2(Q, yq, sd)
			c.NearMat("predict2", yq, m.Predict(Q, nil), 1e-12, "%s: Predict2 mean", what)
			for i := 0; i < 3; i++ {
				v := 1 / al
				for a := 0; a < p; a++ {
					for b := 0; b < p; b++ {
						v += (Q.At(i, a) - xo[a]) / xs[a] * S.At(a, b) * (Q.At(i, b) - xo[b]) / xs[b]
					}
				}
				c.Near("stddev", sd.At(i, 0), math.Sqrt(v), 1e-5, "%s: standard deviation of row %v", what, row(Q, i))
			}
		}
	}
	if m.ComputeScore {
		c.True("scores", len(m.Scores) > 0, "%s: no scores", what)
		if o == 1 && len(m.Scores) > 0 && len(m.Scores) < m.NIter {
			var lu mat.LU
			lu.Factorize(mat.NewDense(p, p, flatten(A)))
			ld, _ := lu.LogDet()
			N, P := float64(n), float64(p)
			s := m.Lambda1*math.Log(la) - m.Lambda2*la + m.Alpha1*math.Log(al) - m.Alpha2*al +
				.5*(P*math.Log(la)+N*math.Log(al)-al*sse-la*sw-ld-N*math.Log(2*math.Pi))
			c.Near("evidence", m.Scores[len(m.Scores)-1], s, 1e-3, "%s: score of the final precisions", what)
		}
	}
	c.Sig("bayes %v %v %x", m.FitIntercept, m.Normalize, Hash(X, Y))
}

func lnPreprocess(c *C) {
	n, p, o := c.Rarely(c.Size(2, 12, 1500), 30000), c.Size(1, 5, 40), c.outputs()
	X, _ := c.Mat(n, p)
	Y, _ := c.Mat(n, o)
	c.rescale(X, Y, 14)
	in, no := c.Intn(3) > 0, c.Intn(2) == 0
	xm, ym := DenseView(X, c.Intn(2) == 0), DenseView(Y, c.Intn(2) == 0)
	Xo, Yo, xo, yo, xs := linearmodel.PreprocessData(xm, ym, in, no, nil)
	Xc, Yc, wxo, wxs, wyo := prepared(X, Y, in, no)
	what := fmt.Sprintf("PreprocessData(%v,%v) %s", in, no, MatString(X))
	for j := 0; j < p; j++ {
		lo, hi := minmax(col(X, j))
		sc := math.Max(math.Abs(lo), math.Abs(hi)) + 1e-300
		c.True("offset", math.Abs(xo.At(0, j)-wxo[j]) <= 1e-12*sc, "%s: offset of %d: %v want %v", what, j, xo.At(0, j), wxo[j])
		if in && no && (hi-lo) < 1e-9*sc {
			continue // rounding noise is normalized
		}
		c.Near("scale", xs.At(0, j)/wxs[j], 1, 1e-8, "%s: scale of %d", what, j)
		for i := 0; i < n; i++ {
			c.True("X", math.Abs(Xo.At(i, j)-Xc.At(i, j)) <= 1e-9*(sc/wxs[j]), "%s: X[%d,%d]=%v want %v", what, i, j, Xo.At(i, j), Xc.At(i, j))
		}
	}
	for k := 0; k < o; k++ {
		lo, hi := minmax(col(Y, k))
		sc := math.Max(math.Abs(lo), math.Abs(hi)) + 1e-300
		c.True("y offset", math.Abs(yo.At(0, k)-wyo[k]) <= 1e-12*sc, "%s: offset of target %d", what, k)
		for i := 0; i < n; i++ {
			c.True("Y", math.Abs(Yo.At(i, k)-Yc.At(i, k)) <= 1e-9*sc, "%s: Y[%d,%d]", what, i, k)
		}
	}
	c.True("inputs", SameValues(xm, X) && SameValues(ym, Y), "%s changed its inputs", what)
	c.Sig("prep %v %v %x", in, no, Hash(X, Y))
}

// ---- losses ----

func act(name string, z float64) float64 {
	switch name {
	case "logistic":
		return 1 / (1 + math.Exp(-z))
	case "tanh":
		return math.Tanh(z)
	case "relu":
		return math.Max(0, z)
	}
	return z
}

func lossRef(loss string, name string, X, Y, T *mat.Dense, alpha, l1 float64, n int, skip bool) float64 {
	r, p := X.Dims()
	_, o := Y.Dims()
	J := 0.
	for i := 0; i < r; i++ {
		for k := 0; k < o; k++ {
			z := 0.
			for j := 0; j < p; j++ {
				z += X.At(i, j) * T.At(j, k)
			}
			h, y := act(name, z), Y.At(i, k)
			switch loss {
			case "square":
				J += (h - y) * (h - y) / 2
			case "log":
				J += -y * math.Log(h)
			case "cross-entropy":
				J += -y*math.Log(h) - (1-y)*math.Log(1-h)
			}
		}
	}
	first := 0
	if skip {
		first = 1
	}
	for j := first; j < p; j++ {
		s1, s2, g := 0., 0., 0.
		for k := 0; k < o; k++ {
			v := T.At(j, k)
			s1 += math.Abs(v)
			s2 += v * v
		}
		g = math.Sqrt(s2)
		switch loss {
		case "square":
			J += alpha * (l1*g + (1-l1)*s2) / 2
		case "log":
			J += alpha * (l1*g + (1-l1)*s2)
		case "cross-entropy":
			J += alpha * (l1*s1 + (1-l1)*s2/2)
		}
	}
	return J / float64(n)
}

func lnLosses(c *C) {
	n, p, o := c.Rarely(c.Size(1, 8, 700), 15000), c.Size(1, 4, 12), 1+c.Intn(3)
	loss := []string{"square", "log", "cross-entropy"}[c.Intn(3)]
	name := []string{"identity", "logistic", "tanh", "relu"}[c.Intn(4)]
	if c.Intn(8) == 0 {
		o = 4 + c.Intn(8)
	}
	X := c.RandMat(n, p, KGauss)
	T := c.RandMat(p, o, KGauss)
	Y := mat.NewDense(n, o, nil)
	bin := c.Intn(2) == 0
	if c.Intn(3) == 0 { // some parameters tiny
		for q := c.Intn(p * o); q >= 0; q-- {
			j, k := c.Intn(p), c.Intn(o)
			T.Set(j, k, T.At(j, k)*math.Pow(10, -float64(c.Intn(9))))
			if c.Intn(2) == 0 {
				for k := 0; k < o; k++ {
					T.Set(j, k, c.NormFloat64()*math.Pow(10, -float64(c.Intn(9))))
				}
			}
		}
	}
	// saturated: outputs near the ends of their range
	saturated := c.Intn(4) == 0
	if saturated {
		n = 1 + c.Intn(8)
		p, o = 1, 1
		X, T, Y = mat.NewDense(n, 1, nil), mat.NewDense(1, 1, []float64{.5 + c.Float64()}), mat.NewDense(n, 1, nil)
	}
	positive := loss != "square" && name != "logistic" // keep h inside (0,1)
	if saturated {
		for i := 0; i < n; i++ {
			z := 0.
			if positive {
				h := math.Pow(10, -9*c.Float64())
				if c.Intn(2) == 0 {
					h = 1 - h
				}
				z = h
				if name == "tanh" {
					z = math.Atanh(h)
				}
			} else if name == "logistic" {
				z = -700 * math.Pow(10, -4*c.Float64())
				if c.Intn(2) == 0 {
					z = 15 * c.Float64()
				}
			} else {
				z = 40 * (c.Float64() - .5)
			}
			if h := act(name, z); positive && !(h > 1e-10 && h < 1-1e-10) {
				z = .5
			}
			X.Set(i, 0, z/T.At(0, 0))
		}
	} else if positive {
		for i := 0; i < n; i++ {
			for j := 0; j < p; j++ {
				X.Set(i, j, .05+c.Float64())
			}
		}
		for j := 0; j < p; j++ {
			for k := 0; k < o; k++ {
				T.Set(j, k, (.05+.9*c.Float64())/float64(p)/1.06)
			}
		}
	}
	for i := 0; i < n; i++ {
		for k := 0; k < o; k++ {
			v := c.Float64()
			if bin {
				v = math.Round(v)
			}
			if loss == "square" {
				v = c.NormFloat64()
			}
			Y.Set(i, k, v)
		}
	}
	if name == "relu" { // stay away from the kink
		for i := 0; i < n; i++ {
			for k := 0; k < o; k++ {
				z := 0.
				for j := 0; j < p; j++ {
					z += X.At(i, j) * T.At(j, k)
				}
				if math.Abs(z) < 1e-3 {
					return
				}
			}
		}
	}
	alpha, l1 := 0., 0.
	if c.Intn(3) > 0 {
		alpha, l1 = c.Float64()*3, []float64{0, .3, 1}[c.Intn(3)]
	}
	skip := c.Intn(2) == 0
	total := n // a mini batch is scaled by the size of the whole
	if c.Intn(3) == 0 {
		total = n + 1 + c.Intn(10)
	}
	f := linearmodel.LossFunctions[loss]
	a := base.Activations[name]
	what := fmt.Sprintf("%s loss, %s, alpha=%v l1=%v skip=%v n=%d/%d X=%s Y=%s Theta=%s", loss, name, alpha, l1, skip, n, total, MatString(X), MatString(Y), MatString(T))
	view := c.Intn(3) == 0
	grad := DenseView(c.RandMat(p, o, KGauss), view)
	Yp, Yd := DenseView(mat.NewDense(n, o, nil), c.Intn(3) == 0), DenseView(mat.NewDense(n, o, nil), c.Intn(3) == 0)
	T = DenseView(T, c.Intn(3) == 0)
	T0, X0, Y0 := Clone(T), Clone(X), Clone(Y)
	xm, ym := c.layout(X), c.layout(Y)
	J := f(ym, xm, T, Yp, Yd, grad, alpha, l1, total, a, skip)
	J2 := f(ym, xm, T, Yp, Yd, nil, alpha, l1, total, a, skip)
	c.True("inputs", SameValues(T, T0) && SameValues(xm, X0) && SameValues(ym, Y0), "%s changed its inputs", what)
	want := lossRef(loss, name, X, Y, T, alpha, l1, total, skip)
	if saturated && loss == "cross-entropy" { // log(1-h) magnifies the rounding of h
		want = J
		h, wsum := 0., 0.
		for i := 0; i < n; i++ {
			z := X.At(i, 0) * T.At(0, 0)
			h = act(name, z)
			y := Y.At(i, 0)
			l := math.Log1p(-h)
			if name == "logistic" {
				l = -math.Log1p(math.Exp(z))
				if z < 0 {
					h = math.Exp(z) / (1 + math.Exp(z))
				}
			}
			wsum += -y*math.Log(h) - (1-y)*l
		}
		if alpha > 0 && !skip {
			t := T.At(0, 0)
			wsum += alpha * (l1*math.Abs(t) + (1-l1)*t*t/2)
		}
		c.NearRel("saturated value", J, wsum/float64(total), 1+wsum/float64(total), 1e-5, "%s", what)
	}
	c.Near("value", J, want, 1e-9, "%s", what)
	c.Near("value without gradient", J2, want, 1e-9, "%s", what)
	// the gradient by the chain rule
	for j := 0; j < p; j++ {
		nw := 0.
		for k := 0; k < o; k++ {
			nw = math.Hypot(nw, T.At(j, k))
		}
		for k := 0; k < o; k++ {
			g, size := 0., 0.
			for i := 0; i < n; i++ {
				z := 0.
				for q := 0; q < p; q++ {
					z += X.At(i, q) * T.At(q, k)
				}
				h, y := act(name, z), Y.At(i, k)
				d, hp := 0., 1.
				switch name {
				case "logistic":
					hp = h * (1 - h)
				case "tanh":
					hp = 1 - h*h
				case "relu":
					if z <= 0 {
						hp = 0
					}
				}
				switch {
				case loss == "square":
					d = (h - y) * hp
				case loss == "log" && name == "logistic":
					d = -y * (1 - h)
				case loss == "log":
					d = -y / h * hp
				case name == "logistic":
					d = h - y
				default:
					d = (-y/h + (1-y)/(1-h)) * hp
					size += (y/h + (1-y)/(1-h)) * hp * math.Abs(X.At(i, j))
				}
				g += d * X.At(i, j)
				size += math.Abs(d*X.At(i, j)) + math.Abs(X.At(i, j))*hp
			}
			if !(skip && j == 0) && alpha > 0 {
				t := T.At(j, k)
				if t == 0 && l1 > 0 {
					continue
				}
				a, b := l1*t/nw, 2*(1-l1)*t
				if loss == "square" {
					a, b = a/2, b/2
				} else if loss == "cross-entropy" {
					a, b = l1*sign(t), (1-l1)*t
				}
				if nw == 0 {
					a = 0
				}
				g += alpha * (a + b)
				size += alpha * (math.Abs(a) + math.Abs(b))
			}
			tol := 1e-11
			if saturated {
				tol = 1e-5
			}
			c.NearRel("chain rule", grad.At(j, k), g/float64(total), size/float64(total), tol, "%s: gradient %d,%d", what, j, k)
		}
	}
	if saturated {
		c.Count("saturated", 1)
		c.Sig("%s %s %v %v %x", loss, name, alpha, l1, Hash(X, Y, T))
		return
	}
	for j := 0; j < p; j++ {
		for k := 0; k < o; k++ {
			// Richardson extrapolated central difference of the reference
			d := func(h float64) float64 {
				Tp, Tm := Clone(T), Clone(T)
				Tp.Set(j, k, T.At(j, k)+h)
				Tm.Set(j, k, T.At(j, k)-h)
				return (lossRef(loss, name, X, Y, Tp, alpha, l1, total, skip) - lossRef(loss, name, X, Y, Tm, alpha, l1, total, skip)) / (2 * h)
			}
			if math.Abs(T.At(j, k)) < 1e-2 && alpha > 0 && l1 > 0 {
				continue // near the kink of the penalty
			}
			h := 1e-5
			dd := (4*d(h/2) - d(h)) / 3
			c.Near("gradient", grad.At(j, k), dd, 1e-5, "%s: gradient %d,%d", what, j, k)
		}
	}
	c.Sig("%s %s %v %v %x", loss, name, alpha, l1, Hash(X, Y, T))
}

func lnLogistic(c *C) {
	p := c.Size(1, 4, 12)
	n := p + c.Size(5, 25, 400)
	if c.Intn(20) == 0 {
		n = 150 + c.Intn(400)
	}
	X := c.RandMat(n, p, KGauss)
	mode := c.Intn(4)
	pool := [][]float64{{0, 1}, {0, 1, 2}, {-1, 1}, {2, 5, 9, 11}}[mode]
	if mode > 0 && c.Intn(4) == 0 {
		pool = [][]float64{{.25, 1}, {0, .4, 1}, {-.3, 0, .3}, {1, 2}, {0, 2}, {1.25, 1.5, 1.75}, {-1e6, 1e6}, {1e-6, 2e-6}}[c.Intn(8)]
	} else if mode > 0 && c.Intn(6) == 0 {
		pool = make([]float64, 5+c.Intn(10))
		for i := range pool {
			pool[i] = float64(3*i - 7)
		}
	}
	k := len(pool)
	if n < 2*k {
		n = 2 * k
		X = c.RandMat(n, p, KGauss)
	}
	Y := mat.NewDense(n, 1, nil)
	cls := make([]int, n)
	for i := 0; i < n; i++ {
		q := c.Intn(k)
		if i < k {
			q = i
		} else if c.Intn(2) == 0 {
			q = int(math.Abs(X.At(i, 0)) * float64(k) / 2)
			if q >= k {
				q = k - 1
			}
		}
		cls[i] = q
		Y.Set(i, 0, pool[q])
	}
	oneHot := mode != 0 && c.Intn(3) == 0 // targets given as one column per class
	Yin := Y
	if oneHot {
		Yin = mat.NewDense(n, k, nil)
		for i, q := range cls {
			Yin.Set(i, q, 1)
		}
	}
	scale := 1.
	if c.Intn(5) == 0 { // large values must not overflow
		scale = 300
		X.Scale(scale, X)
	}
	m := linearmodel.NewLogisticRegression()
	m.Alpha = []float64{.01, .1, 1, 10}[c.Intn(4)]
	if scale > 1 {
		m.Alpha *= scale * scale
	}
	m.Tol, m.MaxIter, m.NIterNoChange = 1e-13, 20000, 30
	short := c.Intn(6) == 0 // stopped early: the best parameters met
	if short {
		m.MaxIter = 1 + c.Intn(12)
	}
	seed := uint64(c.Int63())
	m.RandomState = base.NewLockedSource(seed)
	if c.Intn(3) == 0 {
		m.RandomState = xrand.New(base.NewLockedSource(seed))
	}
	what := fmt.Sprintf("LogisticRegression(alpha=%v) classes %v onehot=%v %s %v", m.Alpha, pool, oneHot, MatString(X), col(Y, 0))
	if c.Intn(3) == 0 { // fit again on other labels
		Y0 := mat.NewDense(n, 1, nil)
		q := [][]float64{{0, 1}, {3, 4, 5}}[c.Intn(2)]
		for i := 0; i < n; i++ {
			Y0.Set(i, 0, q[i%len(q)])
		}
		m.Fit(X, Y0)
	}
	if c.Intn(4) == 0 {
		m = m.PredicterClone().(*linearmodel.LogisticRegression)
	}
	c.Stage("%s", what)
	m.Fit(c.layout(X), c.layout(Yin))
	outs := k
	binary := mode == 0
	if binary {
		outs = 1
	}
	if !c.True("dims", m.Coef.Rows == p && m.Coef.Cols == outs && len(m.Intercept) == outs, "%s: coefficients %dx%d, intercepts %d", what, m.Coef.Rows, m.Coef.Cols, len(m.Intercept)) {
		return
	}
	// probabilities of the reported parameters
	prob := func(x []float64) []float64 {
		z := make([]float64, outs)
		big := math.Inf(-1)
		for o := range z {
			z[o] = m.Intercept[o]
			for j := range x {
				z[o] += x[j] * m.Coef.Data[j*m.Coef.Stride+o]
			}
			big = math.Max(big, z[o])
		}
		if binary {
			return []float64{1 / (1 + math.Exp(-z[0]))}
		}
		s := 0.
		for o := range z {
			z[o] = math.Exp(z[o] - big)
			s += z[o]
		}
		for o := range z {
			z[o] /= s
		}
		return z
	}
	tgt := func(i, o int) float64 {
		if binary {
			return float64(cls[i])
		}
		if cls[i] == o {
			return 1
		}
		return 0
	}
	// stationarity of sum log loss + alpha/2 |w|^2
	J := 0.
	gW, gB := mat.NewDense(p, outs, nil), make([]float64, outs)
	for i := 0; i < n; i++ {
		h := prob(row(X, i))
		for o := range h {
			d := h[o] - tgt(i, o)
			gB[o] += d
			for j := 0; j < p; j++ {
				gW.Set(j, o, gW.At(j, o)+d*X.At(i, j))
			}
			if tgt(i, o) == 1 {
				J -= math.Log(math.Max(h[o], 5e-324))
			} else if binary {
				J -= math.Log(math.Max(1-h[o], 5e-324))
			}
		}
	}
	// beyond |z|=30 the logarithms of the cost are clipped
	clipped := false
	for i := 0; i < n && scale > 1; i++ {
		for o := 0; o < outs; o++ {
			z := m.Intercept[o]
			for j := 0; j < p; j++ {
				z += X.At(i, j) * m.Coef.Data[j*m.Coef.Stride+o]
			}
			clipped = clipped || !(math.Abs(z) < 30)
			c.True("finite", !math.IsNaN(z) && !math.IsInf(z, 0), "%s: decision value %v", what, z)
		}
	}
	if clipped {
		c.Count("clipped", 1)
	} else if !short {
		tol := 1e-5
		if scale > 1 {
			tol = 2e-3
		}
		for o := 0; o < outs; o++ {
			c.True("stationary", math.Abs(gB[o]) <= tol*float64(n), "%s: derivative by intercept %d is %v", what, o, gB[o])
			for j := 0; j < p; j++ {
				w := m.Coef.Data[j*m.Coef.Stride+o]
				g := gW.At(j, o) + m.Alpha*w
				c.True("stationary", math.Abs(g) <= tol*(float64(n)*scale+m.Alpha*math.Abs(w)), "%s: derivative by coefficient %d,%d is %v", what, j, o, g)
			}
		}
	}
	for j := 0; j < p; j++ {
		for o := 0; o < outs; o++ {
			w := m.Coef.Data[j*m.Coef.Stride+o]
			J += m.Alpha / 2 * w * w
		}
	}
	J /= float64(n)
	if !clipped {
		c.Near("loss", m.Loss, J, 1e-6, "%s: reported loss", what)
	}
	for i, l := range m.LossCurve {
		if !clipped && (!short || i == 0) && l < J-1e-6*(1+J) {
			c.Failf("best", "%s: loss %v of the parameters, %v was seen at evaluation %d", what, J, l, i)
			break
		}
	}
	Q := c.RandMat(6, p, KGauss)
	for i := 0; i < 6; i++ {
		if c.Intn(3) == 0 {
			Q.SetRow(i, row(X, c.Intn(n)))
		}
		if scale > 1 || c.Intn(4) == 0 {
			for j := 0; j < p; j++ {
				Q.Set(i, j, Q.At(i, j)*1e4)
			}
		}
	}
	P := m.PredictProbas(c.layout(Q), nil)
	if !c.True("proba dims", dimsAre(P, 6, outs), "%s: probabilities", what) {
		return
	}
	P2 := DenseView(mat.NewDense(6, outs, nil), true)
	m.PredictProbas(c.layout(Q), P2)
	c.NearMat("proba into", P2, P, 0, "%s: probabilities into a view", what)
	lab := m.Predict(c.layout(Q), nil)
	labCols := 1
	if oneHot {
		labCols = k
	}
	if !c.True("label dims", dimsAre(lab, 6, labCols) && m.GetNOutputs() == labCols, "%s: predictions %s", what, MatString(lab)) {
		return
	}
	for i := 0; i < 6; i++ {
		h := prob(row(Q, i))
		zs := 0.
		for o := 0; o < outs; o++ {
			zs += math.Abs(m.Intercept[o])
			for j := 0; j < p; j++ {
				zs += math.Abs(Q.At(i, j) * m.Coef.Data[j*m.Coef.Stride+o])
			}
		}
		best, bv := 0, math.Inf(-1)
		sep := true
		s := 0.
		for o := range h {
			c.True("proba", math.Abs(P.At(i, o)-h[o]) <= 1e-10*math.Min(h[o], 1-h[o])*(1+zs)+3e-16, "%s: probability %d of %v: got %v, want %v", what, o, row(Q, i), P.At(i, o), h[o])
			s += P.At(i, o)
			if h[o] > bv {
				sep = h[o]-bv > 1e-9
				best, bv = o, h[o]
			} else if bv-h[o] < 1e-9 {
				sep = false
			}
		}
		if binary {
			best = 0
			if h[0] > .5 {
				best = 1
			}
			sep = math.Abs(h[0]-.5) > 1e-9
		} else {
			c.Near("sum", s, 1, 1e-9, "%s: sum of probabilities", what)
		}
		if !sep {
			continue
		}
		if oneHot {
			for o := 0; o < k; o++ {
				w := 0.
				if o == best {
					w = 1
				}
				c.True("label", lab.At(i, o) == w, "%s: predicted %v for probabilities %v", what, row(lab, i), h)
			}
		} else {
			c.True("label", lab.At(i, 0) == pool[best], "%s: predicted %v for probabilities %v", what, lab.At(i, 0), h)
		}
	}
	if !oneHot {
		ok := 0.
		L := m.Predict(X, nil)
		for i := 0; i < n; i++ {
			if L.At(i, 0) == Y.At(i, 0) {
				ok++
			}
		}
		c.Near("score", m.Score(c.layout(X), c.layout(Y)), ok/float64(n), 1e-12, "%s: score", what)
	}
	c.Sig("logistic %v %v %v %x", m.Alpha, pool, oneHot, Hash(X, Y))
}

// lnStochastic watches every call the stochastic solvers make to the loss.
func lnStochastic(c *C) {
	n, p, o := c.Size(1, 12, 400), c.Size(1, 3, 20), 1+c.Intn(2)
	X, Y := c.RandMat(n, p, KGauss), c.RandMat(n, o, KGauss)
	where := map[float64]int{}
	for i := 0; i < n; i++ {
		where[X.At(i, 0)] = i
	}
	if len(where) != n {
		return
	}
	solver := []string{"sgd", "adagrad", "rmsprop", "adadelta", "adam"}[c.Intn(5)]
	step := []float64{1e-3, 1e-2, .1}[c.Intn(3)]
	configured := c.Intn(2) == 0
	configure := func(s base.Optimizer) {
		s.(*base.SGDOptimizer).StepSize = step
	}
	epochs, batch := 1+c.Intn(4), c.Intn(n+3)
	if c.Intn(4) == 0 {
		epochs = 5 + c.Intn(20)
	}
	if c.Intn(3) == 0 {
		batch = 0
	}
	B := batch
	if B == 0 {
		B = int(math.Sqrt(float64(n)))
		if B > 100 {
			B = 100
		}
	}
	if B < 1 {
		B = 1
	}
	if B > n {
		B = n
	}
	alpha, l1 := []float64{0, .1, 1}[c.Intn(3)], []float64{0, .5, 1}[c.Intn(3)]
	first := c.Intn(2) == 0
	type call struct {
		rows        int
		J           float64
		theta, grad *mat.Dense
		idx         []int
	}
	var calls []call
	bad := ""
	loss := func(Yt, Xt mat.Matrix, Theta, Yp, Yd, grad *mat.Dense, a, l float64, ns int, act linearmodel.Activation, dis bool) float64 {
		r, _ := Xt.Dims()
		k := call{rows: r, theta: Clone(Theta)}
		if yr, yc := Yt.Dims(); yr != r || yc != o {
			bad = fmt.Sprintf("targets %dx%d for %d rows", yr, yc, r)
		}
		if a != alpha || l != l1 || ns != n || act == nil || grad == nil {
			bad = fmt.Sprintf("loss called with alpha=%v l1=%v nSamples=%d", a, l, ns)
		}
		if dis != first {
			bad = fmt.Sprintf("loss called with disableRegularizationOfFirstFeature %v", dis)
		}
		k.J = linearmodel.SquareLoss(Yt, Xt, Theta, Yp, Yd, grad, a, l, ns, act, dis)
		k.grad = Clone(grad)
		for i := 0; i < r; i++ {
			q, ok := where[Xt.At(i, 0)]
			if !ok || fmt.Sprint(row(mat.DenseCopyOf(Xt), i)) != fmt.Sprint(row(X, q)) || fmt.Sprint(row(mat.DenseCopyOf(Yt), i)) != fmt.Sprint(row(Y, q)) {
				bad = fmt.Sprintf("row %d of call %d is not a sample with its target", i, len(calls))
			}
			k.idx = append(k.idx, q)
		}
		calls = append(calls, k)
		return k.J
	}
	tol := 0.
	if c.Intn(4) == 0 {
		tol = []float64{.5, .9, 1.2}[c.Intn(3)]
	}
	what := fmt.Sprintf("%s epochs=%d tol=%v batch=%d alpha=%v l1=%v n=%d p=%d o=%d configured=%v", solver, epochs, tol, batch, alpha, l1, n, p, o, configured)
	init := c.RandMat(p, o, KGauss)
	opts := linearmodel.LinFitOptions{Epochs: epochs, Tol: tol, MiniBatchSize: batch, Solver: solver, Alpha: alpha, L1Ratio: l1, Loss: loss, DisableRegularizationOfFirstFeature: first,
		ThetaInitializer: func(T *mat.Dense) { T.Copy(init) }}
	if configured {
		opts.SolverConfigure = configure
	}
	var got *mat.Dense
	var J float64
	viaRegr := c.Intn(3) == 0
	c.Stage("%s viaRegr=%v", what, viaRegr)
	X0, Y0 := Clone(X), Clone(Y)
	if viaRegr {
		m := &linearmodel.RegularizedRegression{Solver: solver, Alpha: alpha, L1Ratio: l1, LossFunction: loss, Options: opts}
		m.Options.Solver, m.Options.Alpha, m.Options.L1Ratio, m.Options.Loss, m.Options.SolverConfigure = "", 0, 0, nil, nil
		if configured {
			m.SolverConfigure = configure
		}
		m.Fit(X0, Y0)
		got = m.Coef
		c.True("intercept", mat.Norm(m.Intercept, 1) == 0, "%s: intercept %v without FitIntercept", what, m.Intercept)
	} else {
		res := linearmodel.LinFit(X0, Y0, &opts)
		got, J = res.Theta, res.J
	}
	c.True("loss calls", bad == "", "%s: %s", what, bad)
	c.True("inputs", SameValues(X0, X) && SameValues(Y0, Y), "%s: inputs changed", what)
	nb := (n + B - 1) / B
	if done := len(calls) / (nb + 1); tol > 0 && done > 0 && done < epochs {
		epochs = done // stopped by the tolerance
		c.Count("stopped by the tolerance", 1)
	}
	if !c.True("count", len(calls) == epochs*(nb+1), "%s: %d loss evaluations, want %d epochs of %d batches and the whole", what, len(calls), epochs, nb) {
		return
	}
	ref := base.NewSolver(solver)()
	if configured {
		configure(ref)
	}
	T := Clone(init)
	ref.SetTheta(T)
	best, bestT := math.Inf(1), mat.NewDense(p, o, nil)
	for e := 0; e < epochs; e++ {
		seen := make([]int, n)
		for b := 0; b < nb; b++ {
			k := calls[e*(nb+1)+b]
			rows := B
			if b == nb-1 {
				rows = n - B*(nb-1)
			}
			c.True("batch", k.rows == rows, "%s: batch %d has %d rows, want %d", what, b, k.rows, rows)
			for _, q := range k.idx {
				seen[q]++
			}
			c.NearMat("theta", k.theta, T, 1e-12, "%s: coefficients before batch %d of epoch %d", what, b, e)
			ref.UpdateParams(k.grad)
		}
		for i, v := range seen {
			c.True("epoch", v == 1, "%s: row %d seen %d times in epoch %d", what, i, v, e)
		}
		k := calls[e*(nb+1)+nb]
		c.True("whole", k.rows == n, "%s: evaluation after epoch %d on %d rows", what, e, k.rows)
		c.NearMat("theta", k.theta, T, 1e-12, "%s: coefficients after epoch %d", what, e)
		if k.J < best {
			best = k.J
			bestT.Copy(k.theta)
		}
	}
	if math.IsInf(best, 1) {
		return
	}
	c.NearMat("best", got, bestT, 1e-12, "%s: not the best coefficients met", what)
	if !viaRegr {
		c.Near("best J", J, best, 1e-12, "%s: not the best cost met", what)
	}
	c.Count("stochastic updates replayed", epochs*nb)
	c.Sig("%s %x", what, Hash(X, Y))
}

type recorderOf struct {
	inits int
	F     []float64
	X     [][]float64
}

func (r *recorderOf) Init() error { r.inits++; return nil }
func (r *recorderOf) Record(l *optimize.Location, _ optimize.Operation, _ *optimize.Stats) error {
	r.F, r.X = append(r.F, l.F), append(r.X, copyOf(l.X))
	return nil
}

// lnLinFit: the linear fit with a method of gonum reaches the minimum of the cost, for all
// outputs together or one by one; the stochastic one reports the best of what it records.
func lnLinFit(c *C) {
	p, o := c.Size(1, 4, 12), 1+c.Intn(4)
	n := p + c.Size(2, 12, 300)
	X, Y := c.RandMat(n, p, KGauss), c.RandMat(n, o, KGauss)
	alpha, first := []float64{0, .1, 1, 10}[c.Intn(4)], c.Intn(3) == 0
	X0, Y0 := Clone(X), Clone(Y)
	if c.Intn(3) == 0 {
		solver := []string{"sgd", "adagrad", "rmsprop", "adadelta", "adam"}[c.Intn(5)]
		rec := &recorderOf{}
		epochs := 1 + c.Intn(6)
		opts := &linearmodel.LinFitOptions{Solver: solver, Epochs: epochs, Alpha: alpha, DisableRegularizationOfFirstFeature: first, Recorder: rec}
		if c.Intn(2) == 0 {
			opts.Loss = linearmodel.SquareLoss
		}
		what := fmt.Sprintf("LinFit %s epochs=%d alpha=%v first=%v n=%d p=%d o=%d", solver, epochs, alpha, first, n, p, o)
		c.Stage("%s", what)
		res := linearmodel.LinFit(X0, Y0, opts)
		c.Near("cost", res.J, lossRef("square", "identity", X, Y, res.Theta, alpha, 0, n, first), 1e-9, "%s: cost reported", what)
		if c.True("records", rec.inits == 1 && len(rec.F) == epochs+1, "%s: %d inits and %d records", what, rec.inits, len(rec.F)) {
			best := 1
			for i := range rec.F[1:] {
				if rec.F[i+1] < rec.F[best] {
					best = i + 1
				}
			}
			c.NearMat("best", res.Theta, mat.NewDense(p, o, rec.X[best]), 1e-12, "%s: not the best coefficients recorded", what)
		}
		c.True("inputs", SameValues(X0, X) && SameValues(Y0, Y), "%s: inputs changed", what)
		c.Sig("%s %x", what, Hash(X, Y))
		return
	}
	per := c.Intn(2) == 0
	k := c.Intn(4)
	opts := &linearmodel.LinFitOptions{Alpha: alpha, DisableRegularizationOfFirstFeature: first, PerOutputFit: per}
	opts.GOMethodCreator = []func() optimize.Method{nil, func() optimize.Method { return &optimize.LBFGS{} }, func() optimize.Method { return &optimize.BFGS{} }, func() optimize.Method { return &optimize.CG{} }}[k]
	direct := k > 0 && c.Intn(2) == 0
	what := fmt.Sprintf("LinFit method=%d direct=%v per output=%v alpha=%v first=%v n=%d p=%d o=%d", k, direct, per, alpha, first, n, p, o)
	c.Stage("%s", what)
	var res *linearmodel.LinFitResult
	if direct {
		res = linearmodel.LinFitGOM(X0, Y0, opts)
	} else {
		res = linearmodel.LinFit(X0, Y0, opts)
	}
	c.True("inputs", SameValues(X0, X) && SameValues(Y0, Y), "%s: inputs changed", what)
	if !c.True("dims", dimsAre(res.Theta, p, o), "%s: dims of the coefficients", what) {
		return
	}
	c.orthogonal("linfit", what, X, Y, res.Theta, func(j, k int) float64 {
		if j == 0 && first {
			return 0
		}
		return alpha * res.Theta.At(j, k)
	}, 1e-5)
	c.Sig("%s %x", what, Hash(X, Y))
}

func sign(v float64) float64 {
	switch {
	case v > 0:
		return 1
	case v < 0:
		return -1
	}
	return 0
}
