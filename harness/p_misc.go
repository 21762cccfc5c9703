package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/interpolate"
	linearmodel "github.com/pa-m/sklearn/linear_model"
	naivebayes "github.com/pa-m/sklearn/naive_bayes"
	"github.com/pa-m/sklearn/neighbors"
	"github.com/pa-m/sklearn/pipeline"
	"github.com/pa-m/sklearn/preprocessing"
	"gonum.org/v1/gonum/blas/blas64"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register(&Property{
		ID: "C25",
		Rule: "a case draws knots (sorted or shuffled, irregular) and values, evaluates the interpolant at the knots, between them and outside, and compares with an independent evaluation; " +
			"distinct by hash of the knots",
		Families: []Family{
			{Name: "linear", Quick: 1500, Thorough: 30000, Run: ipLinear},
			{Name: "cubic", Quick: 1000, Thorough: 20000, Run: ipCubic},
			{Name: "bilinear", Quick: 1000, Thorough: 20000, Run: ipBilinear},
		},
	})
	register(&Property{
		ID: "C26",
		Rule: "a case draws data of several classes, weights, priors and a smoothing, fits in one go, again, or in batches, and recomputes counts, means, variances, priors and posteriors from the pooled samples; " +
			"distinct by configuration and hash of the data",
		Families: []Family{
			{Name: "fit", Quick: 800, Thorough: 16000, Run: nvFit},
			{Name: "partial", Quick: 800, Thorough: 16000, Run: nvPartial},
		},
	})
	register(&Property{
		ID: "C27",
		Rule: "a case draws a chain of transformers (of X and of Y) and a final estimator and compares the pipeline with the composition of equal steps done by hand, or with steps that record what they are given; " +
			"distinct by chain and hash of the data",
		Families: []Family{
			{Name: "composition", Quick: 1500, Thorough: 30000, Run: plCompose},
			{Name: "recorded", Quick: 500, Thorough: 10000, Run: plRecorded},
		},
	})
	register(&Property{
		ID: "C29",
		Rule: "a case draws a matrix (possibly itself a view of a larger one, with guard values around) and a range of rows or columns and compares every element of the view with the denoted element of the source, " +
			"for reading and for writing; distinct by shapes",
		Families: []Family{
			{Name: "slices", Quick: 1500, Thorough: 30000, Run: bsSlices},
			{Name: "wrappers", Quick: 1500, Thorough: 30000, Run: bsWrappers},
			{Name: "dense", Quick: 1500, Thorough: 30000, Run: bsDense},
			{Name: "general", Quick: 1000, Thorough: 20000, Run: bsGeneral},
		},
	})
}

// knots draws n distinct abscissas.
func (c *C) knots(n int) []float64 {
	x := make([]float64, n)
	v := c.NormFloat64() * 5
	for i := range x {
		x[i] = v
		v += []float64{1, .05 + c.Float64(), math.Exp(2 * c.NormFloat64())}[c.Intn(3)]
	}
	return x
}

func shuffled(c *C, x []float64, ys ...[]float64) {
	if c.Intn(2) == 0 {
		c.Shuffle(len(x), func(i, j int) {
			x[i], x[j] = x[j], x[i]
			for _, y := range ys {
				y[i], y[j] = y[j], y[i]
			}
		})
	}
}

func copyOf(v []float64) []float64 { return append([]float64{}, v...) }

func (c *C) probes(xs []float64) (out []float64) {
	out = copyOf(xs)
	n := len(xs)
	for i := 0; i+1 < n; i++ {
		out = append(out, xs[i]+(xs[i+1]-xs[i])*c.Float64(), (xs[i]+xs[i+1])/2)
	}
	w := xs[n-1] - xs[0]
	return append(out, xs[0]-w*c.Float64(), xs[n-1]+w*c.Float64(), xs[0]-1e-9*w, xs[n-1]+1e-9*w)
}

func ipLinear(c *C) {
	n := c.Rarely(c.Size(2, 12, 600), 5000)
	xs := c.knots(n)
	c.stretch(xs)
	ys := make([]float64, n)
	unit := []float64{10, 10, 1e-8, 1e8}[c.Intn(4)]
	for i := range ys {
		ys[i] = c.NormFloat64() * unit
	}
	px, py := copyOf(xs), copyOf(ys)
	shuffled(c, px, py)
	qx, qy := copyOf(px), copyOf(py)
	f := interpolate.Interp1d(px, py)
	what := fmt.Sprintf("Interp1d(%v,%v)", px, py)
	c.True("inputs", fmt.Sprint(px, py) == fmt.Sprint(qx, qy), "%s changed its arguments to %v %v", what, px, py)
	if c.Intn(2) == 0 {
		for i := range px {
			px[i], py[i] = -1e9, 1e9 // the interpolant has its own copy
		}
	}
	lin := func(x float64, xs, ys []float64) (v, tol float64) {
		i := 0
		for i < len(xs)-2 && x > xs[i+1] {
			i++
		}
		v = ys[i] + (ys[i+1]-ys[i])*(x-xs[i])/(xs[i+1]-xs[i])
		return v, 1e-9 * (math.Abs(v) + math.Abs(ys[i]) + math.Abs(ys[i+1]))
	}
	for _, x := range c.probes(xs) {
		want, tol := lin(x, xs, ys)
		c.True("value", math.Abs(f(x)-want) <= tol, "%s at %v: got %v want %v", what, x, f(x), want)
	}
	for i := range xs {
		c.True("knot", math.Abs(f(xs[i])-ys[i]) <= 1e-9*unit, "%s at knot %v: got %v want %v", what, xs[i], f(xs[i]), ys[i])
	}
	c.Sig("%s", what)
	// values missing inside are bridged
	if n > 2 && c.Intn(2) == 0 {
		kx, ky := []float64{xs[0]}, []float64{ys[0]}
		ny := copyOf(ys)
		rate := []float64{.2, .5, .9}[c.Intn(3)]
		for i := 1; i < n; i++ {
			if i < n-1 && c.Float64() < rate {
				ny[i] = math.NaN()
			} else {
				kx, ky = append(kx, xs[i]), append(ky, ys[i])
			}
		}
		mx, my := copyOf(xs), copyOf(ny)
		shuffled(c, mx, my)
		f := interpolate.Interp1d(mx, my)
		for _, x := range c.probes(xs) {
			want, tol := lin(x, kx, ky)
			c.True("missing", math.Abs(f(x)-want) <= tol, "Interp1d(%v,%v) at %v: got %v want %v", mx, my, x, f(x), want)
		}
	}
}

// stretch changes the unit of the abscissas.
func (c *C) stretch(xs []float64) {
	s := []float64{1, 1, 1, 1e-6, 1e-12, 1e7}[c.Intn(6)]
	for i := range xs {
		xs[i] *= s
	}
}

// naturalSpline evaluates the natural cubic spline through its second derivatives.
func naturalSpline(x, y []float64) func(t float64) float64 {
	n := len(x)
	m := make([]float64, n)
	if n > 2 {
		a, b, cc, d := make([]float64, n), make([]float64, n), make([]float64, n), make([]float64, n)
		for i := 1; i < n-1; i++ {
			h0, h1 := x[i]-x[i-1], x[i+1]-x[i]
			a[i], b[i], cc[i] = h0, 2*(h0+h1), h1
			d[i] = 6 * ((y[i+1]-y[i])/h1 - (y[i]-y[i-1])/h0)
		}
		for i := 2; i < n-1; i++ {
			w := a[i] / b[i-1]
			b[i] -= w * cc[i-1]
			d[i] -= w * d[i-1]
		}
		for i := n - 2; i > 0; i-- {
			m[i] = (d[i] - cc[i]*m[i+1]) / b[i]
		}
	}
	return func(t float64) float64 {
		i := 0
		for i < n-2 && t > x[i+1] {
			i++
		}
		h := x[i+1] - x[i]
		A, B := (x[i+1]-t)/h, (t-x[i])/h
		return A*y[i] + B*y[i+1] + ((A*A*A-A)*m[i]+(B*B*B-B)*m[i+1])*h*h/6
	}
}

func ipCubic(c *C) {
	n := c.Rarely(c.Size(2, 12, 300), 3000)
	xs := c.knots(n)
	for i := 1; i < n; i++ {
		if c.Intn(2) == 0 { // moderate spacing
			xs[i] = xs[i-1] + .3 + c.Float64()
		} else if xs[i] < xs[i-1]+.05 {
			xs[i] = xs[i-1] + .05
		}
		if xs[i] <= xs[i-1] {
			xs[i] = xs[i-1] + .2
		}
	}
	c.stretch(xs)
	ys := make([]float64, n)
	for i := range ys {
		ys[i] = c.NormFloat64() * 3
	}
	px, py := copyOf(xs), copyOf(ys)
	shuffled(c, px, py)
	qx, qy := copyOf(px), copyOf(py)
	f := interpolate.CubicSpline(px, py)
	what := fmt.Sprintf("CubicSpline(%v,%v)", px, py)
	c.True("inputs", fmt.Sprint(px, py) == fmt.Sprint(qx, qy), "%s changed its arguments to %v %v", what, px, py)
	if c.Intn(2) == 0 {
		for i := range px {
			px[i], py[i] = -1e9, 1e9
		}
	}
	ref := naturalSpline(xs, ys)
	for _, x := range c.probes(xs) {
		if x < xs[0] || x > xs[n-1] {
			continue
		}
		c.Near("value", f(x), ref(x), 1e-6, "%s at %v", what, x)
	}
	for i := range xs {
		c.Near("knot", f(xs[i]), ys[i], 1e-9, "%s at knot %v", what, xs[i])
	}
	c.Sig("%s", what)
}

func ipBilinear(c *C) {
	nx := c.Size(2, 5, 40)
	gx := c.knots(nx)
	many := 4
	if nx < 6 && c.Intn(8) == 0 {
		many = 60
	}
	common := c.knots(2 + c.Intn(many))
	var x, y, z []float64
	gy, gz := make([][]float64, nx), make([][]float64, nx)
	own := c.Intn(2) == 0
	for i := range gx {
		gy[i] = common
		if own {
			gy[i] = c.knots(2 + c.Intn(many))
		}
		for range gy[i] {
			gz[i] = append(gz[i], c.NormFloat64())
		}
		for j := range gy[i] {
			x, y, z = append(x, gx[i]), append(y, gy[i][j]), append(z, gz[i][j])
		}
	}
	shuffled(c, x, y, z)
	qx := fmt.Sprint(x, y, z)
	f := interpolate.Interp2d(x, y, z)
	what := fmt.Sprintf("Interp2d(%v,%v,%v)", x, y, z)
	c.True("inputs", fmt.Sprint(x, y, z) == qx, "%s changed its arguments", what)
	if c.Intn(2) == 0 {
		for i := range x {
			x[i], y[i], z[i] = -1e9, 1e9, 1e9
		}
	}
	lin := func(xs, ys []float64, t float64) float64 {
		i := 0
		for i < len(xs)-2 && t > xs[i+1] {
			i++
		}
		return ys[i] + (ys[i+1]-ys[i])*(t-xs[i])/(xs[i+1]-xs[i])
	}
	for k := 0; k < 12; k++ {
		i := c.Intn(nx - 1)
		px := gx[i] + (gx[i+1]-gx[i])*c.Float64()
		if k%3 == 0 {
			px = gx[i]
		}
		if k == 5 {
			i = nx - 2
			px = gx[nx-1]
		}
		lo, hi := math.Max(gy[i][0], gy[i+1][0]), math.Min(gy[i][len(gy[i])-1], gy[i+1][len(gy[i+1])-1])
		py := lo + (hi-lo)*c.Float64()
		if k%4 == 0 {
			py = gy[i][c.Intn(len(gy[i]))]
		}
		want := lin([]float64{gx[i], gx[i+1]}, []float64{lin(gy[i], gz[i], py), lin(gy[i+1], gz[i+1], py)}, px)
		// values extrapolated along y may be large and cancel
		scale := 1 + math.Abs(lin(gy[i], gz[i], py)) + math.Abs(lin(gy[i+1], gz[i+1], py))
		c.True("value", math.Abs(f(px, py)-want) <= 1e-8*scale, "%s at %v,%v: got %v want %v", what, px, py, f(px, py), want)
	}
	for i := range gx {
		for j := range gy[i] {
			c.Near("knot", f(gx[i], gy[i][j]), gz[i][j], 1e-8, "%s at knot %v,%v", what, gx[i], gy[i][j])
		}
	}
	c.Sig("%s", what)
}

// nbModel is the reference naive Bayes of pooled samples.
type nbModel struct {
	classes       []float64
	count, prior  []float64
	theta, sigma2 *mat.Dense
}

func nbRef(X, Y *mat.Dense, w []float64, classes, priors []float64, eps float64) *nbModel {
	n, f := X.Dims()
	m := &nbModel{classes: classes, count: make([]float64, len(classes)), theta: mat.NewDense(len(classes), f, nil), sigma2: mat.NewDense(len(classes), f, nil)}
	for k, cl := range classes {
		for j := 0; j < f; j++ {
			W, s, s2 := 0., 0., 0.
			for i := 0; i < n; i++ {
				if Y.At(i, 0) == cl {
					W += wAt(w, i)
					s += wAt(w, i) * X.At(i, j)
				}
			}
			mu := 0.
			if W > 0 {
				mu = s / W
				for i := 0; i < n; i++ {
					if Y.At(i, 0) == cl {
						s2 += wAt(w, i) * math.Pow(X.At(i, j)-mu, 2)
					}
				}
				s2 /= W
			}
			m.count[k] = W
			m.theta.Set(k, j, mu)
			m.sigma2.Set(k, j, s2+eps)
		}
	}
	m.prior = make([]float64, len(classes))
	for k := range classes {
		m.prior[k] = m.count[k] / sum(m.count)
	}
	if priors != nil {
		m.prior = copyOf(priors)
	}
	return m
}

func (m *nbModel) logPost(x []float64) (post []float64, scale float64) {
	out := make([]float64, len(m.classes))
	big := math.Inf(-1)
	for k := range out {
		l := math.Log(m.prior[k])
		for j, v := range x {
			s := m.sigma2.At(k, j)
			l -= .5*math.Log(2*math.Pi*s) + .5*math.Pow(v-m.theta.At(k, j), 2)/s
		}
		out[k] = l
		big = math.Max(big, l)
	}
	t := 0.
	for _, l := range out {
		t += math.Exp(l - big)
	}
	for k := range out {
		out[k] -= big + math.Log(t)
	}
	return out, math.Abs(big)
}

// nbCompare checks a fitted model against the reference.
func (c *C) nbCompare(what string, g *naivebayes.GaussianNB, ref *nbModel, Q *mat.Dense, exact bool) {
	if !c.True("classes", fmt.Sprint(g.Classes) == fmt.Sprint(ref.classes), "%s: classes %v, want %v", what, g.Classes, ref.classes) {
		return
	}
	for k := range ref.classes {
		c.Near("count", g.ClassCount[k], ref.count[k], 1e-9, "%s: count of class %v", what, ref.classes[k])
		c.Near("prior", g.ClassPrior[k], ref.prior[k], 1e-9, "%s: prior of class %v", what, ref.classes[k])
	}
	c.NearCols("mean", g.Theta, ref.theta, Q, 1e-8, "%s: means", what)
	for k := range ref.classes {
		for j := 0; j < ref.theta.RawMatrix().Cols; j++ {
			c.Near("variance", g.Sigma.At(k, j)/ref.sigma2.At(k, j), 1, 1e-5, "%s: variance of feature %d in class %v", what, j, ref.classes[k])
		}
	}
	n, _ := Q.Dims()
	lp := g.PredictLogProbas(c.layout(Q), nil)
	pr := g.PredictProbas(c.layout(Q), nil)
	P := g.Predict(c.layout(Q), nil)
	P2 := mat.NewDense(n, 1, nil)
	g.Predict(c.layout(Q), P2)
	lp2, pr2 := mat.NewDense(n, len(ref.classes), nil), mat.NewDense(n, len(ref.classes), nil)
	g.PredictLogProbas(c.layout(Q), lp2)
	g.PredictProbas(c.layout(Q), pr2)
	c.True("destination", SameValues(P, P2) && SameValues(lp, lp2) && SameValues(pr, pr2), "%s: results with and without destination differ", what)
	for i := 0; i < n; i++ {
		want, scale := ref.logPost(row(Q, i))
		if scale > 1e8 { // the differences between classes drown in rounding
			c.True("label", setOfFloats(ref.classes)[P.At(i, 0)], "%s: predicted %v is not a class", what, P.At(i, 0))
			continue
		}
		s := 0.
		best := math.Inf(-1)
		for k := range want {
			c.True("logproba", Close(lp.At(i, k), want[k], 1e-5) || (want[k] < -1e12 && lp.At(i, k) < -1e11), "%s: log probability of class %v for row %v: got %v want %v", what, ref.classes[k], row(Q, i), lp.At(i, k), want[k])
			c.True("proba", math.Abs(pr.At(i, k)-math.Exp(want[k])) < 1e-5*(1+math.Abs(want[k])), "%s: probability of class %v for row %v: got %v want %v", what, ref.classes[k], row(Q, i), pr.At(i, k), math.Exp(want[k]))
			s += pr.At(i, k)
			best = math.Max(best, want[k])
		}
		c.Near("sum", s, 1, 1e-5, "%s: probabilities of row %v", what, row(Q, i))
		for k := range want {
			if ref.classes[k] == P.At(i, 0) {
				c.True("predict", want[k] >= best-1e-5*(1+math.Abs(best)), "%s: row %v predicted %v with log probabilities %v", what, row(Q, i), P.At(i, 0), want)
			}
		}
		c.True("label", setOfFloats(ref.classes)[P.At(i, 0)], "%s: predicted %v is not a class", what, P.At(i, 0))
	}
	Yq := Clone(P)
	for i := 0; i < n; i++ {
		if c.Intn(3) == 0 {
			Yq.Set(i, 0, ref.classes[c.Intn(len(ref.classes))])
		}
	}
	ok := 0.
	for i := 0; i < n; i++ {
		if Yq.At(i, 0) == P.At(i, 0) {
			ok++
		}
	}
	c.Near("score", g.Score(c.layout(Q), c.layout(Yq)), ok/float64(n), 1e-12, "%s: score", what)
}

func (c *C) nbData(n, f int) (X, Y *mat.Dense, classes []float64) {
	pool := [][]float64{{0, 1}, {-1, 1}, {0, 1, 2}, {2.5, 7, 9, 11}, {1, 1 + 1e-9, -1e-12}}[c.Intn(5)]
	if n > 20 && c.Intn(3) == 0 {
		pool = nil
		for k, v := 5+c.Intn(n/2-5), c.NormFloat64()*5; k > 0; k-- {
			pool = append(pool, v)
			v += []float64{1, .25, c.Float64() + .01}[c.Intn(3)]
		}
	}
	X, Y = mat.NewDense(n, f, nil), mat.NewDense(n, 1, nil)
	scale := make([]float64, f)
	for j := range scale {
		scale[j] = math.Pow(10, float64(c.Intn(3)-1))
	}
	grid := c.Intn(4) == 0
	for i := 0; i < n; i++ {
		k := c.Intn(len(pool))
		if i < len(pool) {
			k = i
		}
		Y.Set(i, 0, pool[k])
		for j := 0; j < f; j++ {
			v := scale[j] * (c.NormFloat64() + float64(k*(j+1)%3))
			if grid {
				v = math.Round(v)
			}
			X.Set(i, j, v)
		}
	}
	set := setOfFloats(col(Y, 0))
	for v := range set {
		classes = append(classes, v)
	}
	sort.Float64s(classes)
	return
}

func maxVar(X *mat.Dense, w []float64) float64 {
	n, f := X.Dims()
	best := 0.
	for j := 0; j < f; j++ {
		W, s, v := 0., 0., 0.
		for i := 0; i < n; i++ {
			W, s = W+wAt(w, i), s+wAt(w, i)*X.At(i, j)
		}
		for i := 0; i < n; i++ {
			v += wAt(w, i) * math.Pow(X.At(i, j)-s/W, 2)
		}
		best = math.Max(best, v/W)
	}
	return best
}

func (c *C) priors(k int) []float64 {
	if c.Intn(3) > 0 {
		return nil
	}
	p := make([]float64, k)
	for i := range p {
		p[i] = .1 + c.Float64()
	}
	s := sum(p)
	for i := range p {
		p[i] /= s
	}
	return p
}

// everyClass gives the zero weights of a class up when they leave no sample of it that counts.
func everyClass(w, y []float64) []float64 {
	t := map[float64]float64{}
	for i := range w {
		t[y[i]] += w[i]
	}
	for i := range w {
		if t[y[i]] == 0 {
			w[i] = 1
		}
	}
	return w
}

func nvFit(c *C) {
	n, f := c.Rarely(c.Size(5, 25, 1500), 20000), c.Size(1, 4, 30)
	X, Y, classes := c.nbData(n, f)
	w := everyClass(c.weights(n), col(Y, 0))
	smooth := []float64{1e-9, 1e-4, 1e-2}[c.Intn(3)]
	if maxVar(X, w) == 0 {
		return
	}
	pri := c.priors(len(classes))
	g := naivebayes.NewGaussianNB(nil, smooth)
	if c.Intn(3) == 0 {
		X0, Y0, _ := c.nbData(4+c.Intn(8), 1+c.Intn(4))
		g.Fit(X0, Y0)
	}
	g.Priors = pri
	g.SampleWeight = w
	eps := smooth * maxVar(X, w)
	what := fmt.Sprintf("GaussianNB(smoothing=%v,priors=%v,w=%v) %s %v", smooth, pri, w, MatString(X), col(Y, 0))
	g.Fit(c.layout(X), c.layout(Y))
	c.Near("epsilon", g.Epsilon/eps, 1, 1e-9, "%s: Epsilon", what)
	Q := c.RandMat(5, f, KGauss)
	for i := 0; i < 5; i++ {
		if k := c.Intn(n); i%2 == 0 {
			Q.SetRow(i, row(X, k))
		}
	}
	ref := nbRef(X, Y, w, classes, pri, eps)
	// variances of a few units in the last place of the data are rounding noise
	if degenerate(ref, X) {
		return
	}
	c.nbCompare(what, g, ref, Q, true)
	if pri != nil && c.Intn(2) == 0 {
		for i := range pri {
			pri[i] = 1 / float64(len(pri))
		}
		c.nbCompare(what+" after the caller's priors changed", g, ref, Q, true)
	}
	if c.Intn(2) == 0 {
		clone := g.PredicterClone().(*naivebayes.GaussianNB)
		X0, Y0, _ := c.nbData(4+c.Intn(8), 1+c.Intn(4))
		clone.Priors, clone.SampleWeight = nil, nil
		clone.Fit(X0, Y0)
		c.nbCompare(what+" after its clone was fitted", g, ref, Q, true)
		clone = g.PredicterClone().(*naivebayes.GaussianNB)
		g.Priors, g.SampleWeight = nil, nil
		g.Fit(X0, Y0)
		c.nbCompare(what+" clone, after the original was fitted", clone, ref, Q, true)
	}
	c.True("classifier", g.IsClassifier() && g.GetNOutputs() == 1, "%s: not a classifier with one output", what)
	c.Sig("%v %v %v %x", smooth, pri, w, Hash(X, Y))
}

// degenerate tells whether a variance is too small to be compared relatively.
func degenerate(m *nbModel, X *mat.Dense) bool {
	k, f := m.theta.Dims()
	for a := 0; a < k; a++ {
		for j := 0; j < f; j++ {
			lo, hi := minmax(col(X, j))
			if m.count[a] > 0 && m.sigma2.At(a, j) < 1e-9*math.Max(lo*lo, hi*hi) {
				return true
			}
		}
	}
	return false
}

func nvPartial(c *C) {
	n, f := c.Rarely(c.Size(8, 25, 1500), 20000), c.Size(1, 4, 30)
	X, Y, classes := c.nbData(n, f)
	w := c.weights(n)
	smooth := []float64{1e-9, 1e-4, 1e-2}[c.Intn(3)]
	g := naivebayes.NewGaussianNB(nil, smooth)
	what := fmt.Sprintf("GaussianNB(smoothing=%v,w=%v) in batches of %s %v", smooth, w, MatString(X), col(Y, 0))
	perm := c.Perm(n)
	Xs, Ys := rowsOf(X, perm), rowsOf(Y, perm)
	var ws []float64
	if w != nil {
		for _, i := range perm {
			ws = append(ws, w[i])
		}
	}
	Q := c.RandMat(4, f, KGauss)
	given := copyOf(classes)
	eps := 0.
	for start := 0; start < n; {
		end := start + 2 + c.Intn(n/2)
		if end > n-2 {
			end = n
		}
		Xb, Yb := Clone(Xs.Slice(start, end, 0, f)), Clone(Ys.Slice(start, end, 0, 1))
		var wb []float64
		if ws != nil {
			wb = everyClass(ws[start:end], col(Yb, 0))
		}
		var clone *naivebayes.GaussianNB
		var before *nbModel
		if start > 0 && c.Intn(3) == 0 {
			clone = g.PredicterClone().(*naivebayes.GaussianNB)
			before = nbRef(Clone(Xs.Slice(0, start, 0, f)), Clone(Ys.Slice(0, start, 0, 1)), ws, classes, nil, eps)
		}
		g.PartialFit(c.layout(Xb), c.layout(Yb), given, false, wb)
		eps = smooth * maxVar(Xb, wb)
		if eps == 0 {
			return
		}
		ref := nbRef(Clone(Xs.Slice(0, end, 0, f)), Clone(Ys.Slice(0, end, 0, 1)), ws, classes, nil, eps)
		if degenerate(ref, X) {
			return
		}
		c.nbCompare(fmt.Sprintf("%s after %d samples", what, end), g, ref, Q, false)
		if clone != nil && !degenerate(before, X) {
			c.nbCompare(fmt.Sprintf("%s: clone at %d samples, after the original went on", what, start), clone, before, Q, false)
		}
		start = end
	}
	for i := range given {
		given[i] = 99 // the model has its own list of classes
	}
	c.True("classes", fmt.Sprint(g.Classes) == fmt.Sprint(classes), "%s: classes %v follow the caller's slice", what, g.Classes)
	c.Sig("%v %v %x", smooth, w, Hash(X, Y))
}

// yAffine is a transformer of Y defined here: Y*scale+shift, fitted to center Y.
type yAffine struct {
	k           float64
	mean        []float64
	fits, trans int
	fx, fy      *mat.Dense
}

func (t *yAffine) Fit(X, Y mat.Matrix) base.Fiter {
	t.fits++
	t.fx, t.fy = mat.DenseCopyOf(X), mat.DenseCopyOf(Y)
	n, o := Y.Dims()
	t.mean = make([]float64, o)
	for j := range t.mean {
		t.mean[j] = 1
		for i := 0; i < n; i++ {
			t.mean[j] += Y.At(i, j) / float64(n)
		}
	}
	return t
}
func (t *yAffine) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
	t.trans++
	Xout = mat.DenseCopyOf(X)
	n, f := X.Dims()
	for i := 0; i < n; i++ {
		for j := 0; j < f; j++ {
			Xout.Set(i, j, X.At(i, j)+t.k)
		}
	}
	if r, _ := Y.Dims(); r == 0 {
		return Xout, &mat.Dense{}
	}
	Yout = mat.DenseCopyOf(Y)
	Yout.Apply(func(i, j int, v float64) float64 { return (v - t.mean[j]) * t.k }, Yout)
	return
}
func (t *yAffine) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
	t.Fit(X, Y)
	return t.Transform(X, Y)
}
func (t *yAffine) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
	Yout = mat.DenseCopyOf(Y)
	Yout.Apply(func(i, j int, v float64) float64 { return v/t.k + t.mean[j] }, Yout)
	return X, Yout
}
func (t *yAffine) TransformerClone() base.Transformer { clone := *t; return &clone }

// xStep draws a transformer of X.
func (c *C) xStep() (mk func() base.Transformer, name string) {
	switch c.Intn(12) {
	case 0:
		return func() base.Transformer { return preprocessing.NewStandardScaler() }, "StandardScaler"
	case 1:
		return func() base.Transformer { return preprocessing.NewMinMaxScaler([]float64{-1, 2}) }, "MinMaxScaler"
	case 2:
		return func() base.Transformer { return preprocessing.NewMaxAbsScaler() }, "MaxAbsScaler"
	case 3:
		return func() base.Transformer { return preprocessing.NewDefaultRobustScaler() }, "RobustScaler"
	case 4:
		return func() base.Transformer { return preprocessing.NewPCA() }, "PCA"
	case 5:
		return func() base.Transformer { return preprocessing.NewPolynomialFeatures(2) }, "PolynomialFeatures"
	case 6:
		k := c.NormFloat64() + 3
		return func() base.Transformer { return &yAffine{k: k} }, fmt.Sprintf("yAffine(%v)", k)
	case 7:
		return func() base.Transformer { b := preprocessing.NewBinarizer(); b.Threshold = .2; return b }, "Binarizer"
	case 8:
		return func() base.Transformer { return preprocessing.NewImputer() }, "Imputer"
	case 9:
		return func() base.Transformer { return preprocessing.NewQuantileTransformer(5, "uniform", nil) }, "QuantileTransformer"
	case 10:
		return func() base.Transformer { return preprocessing.NewPowerTransformer() }, "PowerTransformer"
	}
	return func() base.Transformer {
		f := func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
			X = Clone(X)
			X.Apply(func(i, j int, v float64) float64 { return 2*v - 1 }, X)
			return X, Y
		}
		return preprocessing.NewFunctionTransformer(f, func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) { return X, Y })
	}, "FunctionTransformer"
}

func plCompose(c *C) {
	n, f := c.Size(8, 15, 300), 1+c.Intn(3)
	X := c.RandMat(n, f, KGauss)
	Q := c.RandMat(6, f, KGauss)
	var Y, Yq *mat.Dense
	var steps []func() base.Transformer
	var names []string
	nx := c.Intn(4)
	if c.Intn(8) == 0 {
		nx = 4 + c.Intn(5)
	}
	poly := false
	for i := 0; i < nx; i++ {
		mk, name := c.xStep()
		if name == "PolynomialFeatures" {
			if poly {
				continue
			}
			poly = true
		}
		steps, names = append(steps, mk), append(names, name)
	}
	insert := func(mk func() base.Transformer, name string) {
		p := c.Intn(len(steps) + 1)
		steps = append(steps[:p], append([]func() base.Transformer{mk}, steps[p:]...)...)
		names = append(names[:p], append([]string{name}, names[p:]...)...)
	}
	drop := func(prefix string) {
		for i := 0; i < len(names); i++ {
			if strings.HasPrefix(names[i], prefix) {
				steps, names = append(steps[:i], steps[i+1:]...), append(names[:i], names[i+1:]...)
				i--
			}
		}
	}
	var mkLast func() base.Predicter
	var last string
	switch c.Intn(5) {
	case 0:
		mkLast, last = func() base.Predicter { return linearmodel.NewLinearRegression() }, "LinearRegression"
		Y, Yq = c.RandMat(n, 1+c.Intn(2), KGauss), c.RandMat(6, 1, KGauss)
	case 1:
		mkLast, last = func() base.Predicter { return neighbors.NewKNeighborsRegressor(2, "distance") }, "KNeighborsRegressor"
		Y, Yq = c.RandMat(n, 1, KGauss), c.RandMat(6, 1, KGauss)
	case 2, 3, 4:
		Y, Yq = mat.NewDense(n, 1, nil), mat.NewDense(6, 1, nil)
		pool := []float64{-3, 4, 8}
		for i := 0; i < n; i++ {
			Y.Set(i, 0, pool[(i+c.Intn(2))%3])
		}
		for i := 0; i < 6; i++ {
			Yq.Set(i, 0, pool[c.Intn(3)])
		}
		drop("yAffine")
		switch c.Intn(3) {
		case 0:
			mkLast, last = func() base.Predicter { return neighbors.NewKNeighborsClassifier(3, "uniform") }, "KNeighborsClassifier"
			if c.Intn(2) == 0 {
				insert(func() base.Transformer { return preprocessing.NewLabelEncoder() }, "LabelEncoder")
			}
		case 1:
			mkLast, last = func() base.Predicter { return naivebayes.NewGaussianNB(nil, 1e-2) }, "GaussianNB"
			if c.Intn(2) == 0 {
				insert(func() base.Transformer { return preprocessing.NewLabelEncoder() }, "LabelEncoder")
			}
		case 2:
			mkLast, last = func() base.Predicter { return linearmodel.NewLinearRegression() }, "LinearRegression"
			insert(func() base.Transformer { return preprocessing.NewLabelBinarizer(0, 1) }, "LabelBinarizer")
		}
	}
	if last == "KNeighborsRegressor" || last == "LinearRegression" && !strings.Contains(fmt.Sprint(names), "LabelBinarizer") {
		for k := c.Intn(3); k > 0; k-- { // steps that transform the target do not commute
			k := c.NormFloat64() + 3
			insert(func() base.Transformer { return &yAffine{k: k} }, fmt.Sprintf("yAffine(%v)", k))
		}
	}
	if _, o := Y.Dims(); o == 2 {
		Yq = c.RandMat(6, 2, KGauss)
	}
	names = append(names, last)
	what := fmt.Sprintf("pipeline %v of %s %s", names, MatString(X), MatString(Y))
	c.Stage("pipeline %v", names)
	sameNames := c.Intn(3) == 0
	build := func() *pipeline.Pipeline {
		if c.Intn(2) == 0 {
			var fs []base.Fiter
			for _, mk := range steps {
				fs = append(fs, mk())
			}
			return pipeline.MakePipeline(append(fs, mkLast())...)
		}
		var ns []pipeline.NamedStep
		for i, mk := range steps {
			name := fmt.Sprint(names[i], i)
			if sameNames {
				name = "step"
			}
			ns = append(ns, pipeline.NamedStep{Name: name, Fiter: mk()})
		}
		return pipeline.NewPipeline(append(ns, pipeline.NamedStep{Name: "last", Fiter: mkLast()})...)
	}
	pl := build()
	if c.Intn(4) == 0 {
		Y0 := Y
		if _, o := Y.Dims(); last == "LinearRegression" && o <= 2 && !strings.Contains(fmt.Sprint(names), "Label") {
			Y0 = c.RandMat(n, 3-o, KGauss) // another number of outputs
		}
		pl.Fit(c.RandMat(n, f, KGauss), Y0)
	}
	if c.Intn(4) == 0 {
		pl = pl.PredicterClone().(*pipeline.Pipeline)
	}
	pl.Fit(c.layout(X), c.layout(Y))
	// by hand
	var ts []base.Transformer
	Xt, Yt := Clone(X), Clone(Y)
	for _, mk := range steps {
		t := mk()
		t.Fit(Xt, Yt)
		Xt, Yt = t.Transform(Clone(Xt), Clone(Yt))
		ts = append(ts, t)
	}
	est := mkLast()
	est.Fit(Xt, Yt)
	forward := func(Q, Yq *mat.Dense) (*mat.Dense, *mat.Dense) {
		Q, Yq = Clone(Q), Clone(Yq)
		for _, t := range ts {
			Q, Yq = t.Transform(Clone(Q), Clone(Yq))
		}
		return Q, Yq
	}
	qt, yt := forward(Q, Yq)
	want := est.Predict(qt, nil)
	for i := len(ts) - 1; i >= 0; i-- {
		if inv, ok := ts[i].(preprocessing.InverseTransformer); ok {
			switch ts[i].(type) {
			case *yAffine, *preprocessing.LabelEncoder, *preprocessing.LabelBinarizer:
				_, want = inv.InverseTransform(nil, want)
			}
		}
	}
	c.NearMat("predict", pl.Predict(c.layout(Q), nil), want, 1e-7, "%s: predictions of %s", what, MatString(Q))
	_, o := Y.Dims()
	D := mat.NewDense(6, o, nil)
	pl.Predict(c.layout(Q), D)
	c.NearMat("predict into", D, want, 1e-7, "%s: predictions of %s into a given matrix", what, MatString(Q))
	if pl.IsClassifier() || strings.HasPrefix(last, "Linear") || strings.HasPrefix(last, "KN") {
		s, ws := pl.Score(c.layout(Q), c.layout(Yq)), est.Score(qt, yt)
		if math.Abs(ws) < 1e6 {
			c.Near("score", s, ws, 1e-6, "%s: score", what)
		}
	}
	c.True("noutputs", pl.GetNOutputs() == o, "%s: %d outputs, want %d", what, pl.GetNOutputs(), o)
	c.True("classifier", pl.IsClassifier() == est.IsClassifier(), "%s: IsClassifier %v", what, pl.IsClassifier())
	Xo, Yo := pl.Transform(c.layout(Q), nil)
	c.NearMat("transform", Yo, want, 1e-7, "%s: Transform", what)
	c.NearMat("transform X", Xo, Q, 0, "%s: Transform", what)
	if c.Intn(2) == 0 {
		p2 := build()
		if c.Intn(2) == 0 {
			p2.Fit(c.RandMat(n, f, KGauss), Y)
		}
		Xo, Yo = p2.FitTransform(c.layout(X), c.layout(Y))
		c.NearMat("fittransform", Yo, pl.Predict(Clone(X), nil), 1e-7, "%s: FitTransform", what)
		c.NearMat("fittransform X", Xo, X, 0, "%s: FitTransform", what)
	}
	if c.Intn(3) == 0 {
		clone := pl.PredicterClone().(*pipeline.Pipeline)
		c.NearMat("clone predict", clone.Predict(c.layout(Q), nil), want, 1e-7, "%s: predictions of a clone of the fitted pipeline", what)
		X2, Y2 := c.RandMat(n, f, KGauss), Y
		clone.Fit(X2, Y2)
		c.NearMat("clone", pl.Predict(Q, nil), want, 1e-7, "%s: predictions after a clone was fitted on other data", what)
	}
	c.Sig("%v %x", names, Hash(X, Y))
}

// recStep counts and keeps what a step is given.
type recStep struct {
	add        float64
	fits       int
	trans      int
	fitX, fitY *mat.Dense
	inX        []*mat.Dense
}

func (t *recStep) Fit(X, Y mat.Matrix) base.Fiter {
	t.fits++
	t.fitX, t.fitY = mat.DenseCopyOf(X), mat.DenseCopyOf(Y)
	return t
}
func (t *recStep) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
	t.trans++
	t.inX = append(t.inX, mat.DenseCopyOf(X))
	Xout = mat.DenseCopyOf(X)
	Xout.Apply(func(i, j int, v float64) float64 { return 2*v + t.add }, Xout)
	return Xout, base.ToDense(Y)
}
func (t *recStep) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
	t.Fit(X, Y)
	return t.Transform(X, Y)
}
func (t *recStep) TransformerClone() base.Transformer { clone := *t; return &clone }

func plRecorded(c *C) {
	n, f, k := 2+c.Intn(8), 1+c.Intn(3), c.Intn(5)
	X, Y, Q := c.RandMat(n, f, KGauss), c.RandMat(n, 1, KGauss), c.RandMat(1+c.Intn(5), f, KGauss)
	var steps []*recStep
	var fs []base.Fiter
	for i := 0; i < k; i++ {
		s := &recStep{add: float64(c.Intn(7))}
		steps, fs = append(steps, s), append(fs, s)
	}
	est := &recorder{Alpha: 1, log: &recLog{}}
	pl := pipeline.MakePipeline(append(fs, est)...)
	Xm, Ym := c.layout(X), c.layout(Y)
	pl.Fit(Xm, Ym)
	what := fmt.Sprintf("pipeline of %d steps, n=%d", k, n)
	cur := Clone(X)
	for i, s := range steps {
		c.True("fits", s.fits == 1, "%s: step %d fitted %d times", what, i, s.fits)
		c.True("fit input", SameValues(s.fitX, cur) && SameValues(s.fitY, Y), "%s: step %d fitted on other data than the output of the steps before", what, i)
		cur.Apply(func(_, _ int, v float64) float64 { return 2*v + s.add }, cur)
	}
	c.True("last fit", est.fits == 1 && SameValues(est.fitX, cur) && SameValues(est.fitY, Y), "%s: the estimator was not fitted once on the transformed data", what)
	pl.Predict(c.layout(Q), nil)
	cur = Clone(Q)
	for i, s := range steps {
		c.True("predict fits", s.fits == 1, "%s: step %d was fitted again by Predict", what, i)
		c.True("predict input", len(s.inX) > 0 && SameValues(s.inX[len(s.inX)-1], cur), "%s: step %d did not transform the output of the steps before", what, i)
		cur.Apply(func(_, _ int, v float64) float64 { return 2*v + s.add }, cur)
	}
	c.True("last predict", SameValues(est.predX, cur) && est.fits == 1, "%s: the estimator did not predict the transformed data", what)
	c.True("inputs", SameValues(Xm, X) && SameValues(Ym, Y), "%s changed its inputs", what)
	// an estimator in the middle gives the target of the steps after it
	mid, end := &recorder{Alpha: 2, log: &recLog{}}, &recorder{Alpha: 1, log: &recLog{}}
	pm := pipeline.MakePipeline(append(append([]base.Fiter{}, fs...), mid, end)...)
	Xd, Yd := Clone(X), Clone(Y)
	pm.Fit(Xd, Yd)
	c.True("middle inputs", SameValues(Xd, X) && SameValues(Yd, Y), "%s and an estimator before the last: Fit changed its inputs", what)
	if c.True("middle fits", mid.fits == 1 && end.fits == 1 && SameValues(mid.fitY, Y), "%s: the estimators were not fitted once", what) {
		c.True("middle target", SameValues(end.fitY, mid.Predict(mid.fitX, nil)) && SameValues(end.fitX, mid.fitX), "%s: the last step was not fitted on the output of the estimator before it", what)
	}
	pm.Score(Xd, Yd)
	c.True("middle score inputs", SameValues(Xd, X) && SameValues(Yd, Y), "%s and an estimator before the last: Score changed its inputs", what)
	c.Near("score", pl.Score(Q, mat.NewDense(Q.RawMatrix().Rows, 1, nil)), 42, 0, "%s: score is not that of the estimator", what)
	c.Sig("%d %x", k, Hash(X, Y, Q))
}

// holder draws a dense matrix which is a window of a larger one.
func (c *C) holder() (d *mat.Dense, guard func() bool) {
	return c.holderOf(c.Rarely(c.Size(1, 7, 200), 5000), c.Rarely(c.Size(1, 7, 120), 2000))
}

func (c *C) holderOf(r, k int) (d *mat.Dense, guard func() bool) {
	R, K := r, k
	i, j := 0, 0
	if c.Intn(3) > 0 {
		i, j = c.Intn(3), c.Intn(3)
		R, K = i+r+c.Intn(3), j+k+c.Intn(3)
	}
	big := c.RandMat(R, K, KGauss)
	d = big.Slice(i, i+r, j, j+k).(*mat.Dense)
	copyBig := Clone(big)
	return d, func() bool {
		for a := 0; a < R; a++ {
			for b := 0; b < K; b++ {
				if a >= i && a < i+r && b >= j && b < j+k {
					continue
				}
				if big.At(a, b) != copyBig.At(a, b) {
					return false
				}
			}
		}
		return true
	}
}

func bsSlices(c *C) {
	d, guard := c.holder()
	r, k := d.Dims()
	i, j := c.Intn(r), c.Intn(k)
	i2, j2 := i+1+c.Intn(r-i), j+1+c.Intn(k-j)
	mode := c.Intn(6)
	var v *mat.Dense
	asDense := func(g blas64.General) *mat.Dense { m := &mat.Dense{}; m.SetRawMatrix(g); return m }
	switch mode {
	case 0:
		v = base.MatDenseSlice(d, i, i2, j, j2)
	case 1:
		v = asDense(base.MatGeneralSlice(d.RawMatrix(), i, i2, j, j2))
	case 2:
		j, j2 = 0, k
		v = base.MatDenseRowSlice(d, i, i2)
	case 3:
		j, j2 = 0, k
		v = asDense(base.MatGeneralRowSlice(d.RawMatrix(), i, i2))
	case 4:
		i, i2 = 0, r
		v = base.MatDenseColSlice(d, j, j2)
	case 5:
		i, i2 = 0, r
		v = asDense(base.MatGeneralColSlice(d.RawMatrix(), j, j2))
	}
	what := fmt.Sprintf("slice kind %d [%d:%d,%d:%d] of %dx%d (stride %d)", mode, i, i2, j, j2, r, k, d.RawMatrix().Stride)
	if !c.True("dims", dimsAre(v, i2-i, j2-j), "%s: wrong dimensions", what) {
		return
	}
	before := Clone(d)
	for a := i; a < i2; a++ {
		for b := j; b < j2; b++ {
			c.True("element", v.At(a-i, b-j) == d.At(a, b), "%s: element %d,%d", what, a-i, b-j)
		}
	}
	// a view: what is written through it shows in the source, and nowhere else
	a, b := c.Intn(i2-i), c.Intn(j2-j)
	v.Set(a, b, 777)
	before.Set(a+i, b+j, 777)
	c.True("view", SameValues(d, before), "%s: writing element %d,%d of the view", what, a, b)
	for p := 0; p < i2-i; p++ {
		for q := 0; q < j2-j; q++ {
			v.Set(p, q, float64(p*10+q))
			before.Set(p+i, q+j, float64(p*10+q))
		}
	}
	c.True("view", SameValues(d, before) && guard(), "%s: writing through the view touched other elements", what)
	c.Sig("%s", what)
}

func bsWrappers(c *C) {
	d, _ := c.holder()
	r, k := d.Dims()
	src := c.layout(Clone(d))
	tr := base.MatTranspose{Matrix: src}
	c.True("transpose dims", dimsAre(tr, k, r), "MatTranspose of %dx%d", r, k)
	for i := 0; i < r; i++ {
		for j := 0; j < k; j++ {
			c.True("transpose", tr.At(j, i) == d.At(i, j) && tr.T().At(i, j) == d.At(i, j), "MatTranspose element %d,%d", j, i)
		}
	}
	one := base.MatOnesPrepended{Matrix: src}
	if c.True("ones dims", dimsAre(one, r, k+1) && dimsAre(one.T(), k+1, r), "MatOnesPrepended of %dx%d", r, k) {
		for i := 0; i < r; i++ {
			c.True("ones", one.At(i, 0) == 1 && one.T().At(0, i) == 1, "MatOnesPrepended element %d,0 is %v", i, one.At(i, 0))
			for j := 0; j < k; j++ {
				c.True("ones", one.At(i, j+1) == d.At(i, j) && one.T().At(j+1, i) == d.At(i, j), "MatOnesPrepended element %d,%d", i, j+1)
			}
		}
	}
	v := c.NormFloat64()
	cst := base.MatConst{Rows: r, Columns: k, Value: v}
	c.True("const", dimsAre(cst, r, k) && dimsAre(cst.T(), k, r) && cst.At(c.Intn(r), c.Intn(k)) == v && cst.T().At(c.Intn(k), c.Intn(r)) == v, "MatConst")
	start := c.Intn(r)
	end := start + 1 + c.Intn(r-start)
	dd := Clone(d)
	sl := base.MatRowSlice{Matrix: dd, Start: start, End: end}
	if c.True("rows dims", dimsAre(sl, end-start, k) && dimsAre(sl.T(), k, end-start), "MatRowSlice") {
		for i := start; i < end; i++ {
			for j := 0; j < k; j++ {
				c.True("rows", sl.At(i-start, j) == d.At(i, j) && sl.T().At(j, i-start) == d.At(i, j), "MatRowSlice element %d,%d", i-start, j)
			}
		}
		i, j := c.Intn(end-start), c.Intn(k)
		sl.Set(i, j, 55)
		want := Clone(d)
		want.Set(start+i, j, 55)
		c.True("rows set", SameValues(dd, want), "MatRowSlice[%d:%d].Set(%d,%d)", start, end, i, j)
		p, _ := Panics(func() { sl.At(end-start, 0) })
		q, _ := Panics(func() { sl.At(-1, 0) })
		c.True("rows bounds", p && q, "MatRowSlice[%d:%d] reads outside its rows", start, end)
		p, _ = Panics(func() { sl.Set(end-start, 0, 1) })
		q, _ = Panics(func() { sl.Set(-1, 0, 1) })
		c.True("rows bounds", p && q && SameValues(dd, want), "MatRowSlice[%d:%d] writes outside its rows", start, end)
	}
	d2 := Clone(d)
	base.MatTranspose{Matrix: d2}.Set(k-1, r-1, 5)
	c.True("transpose set", d2.At(r-1, k-1) == 5, "MatTranspose.Set")
	// dims checks
	A, B := mat.NewDense(r, k, nil), mat.NewDense(k, 1+c.Intn(3), nil)
	_, kb := B.Dims()
	p, _ := Panics(func() { base.MatDimsCheck(".", mat.NewDense(r, kb, nil), A, B) })
	c.True("dimscheck", !p, "MatDimsCheck refuses a product %dx%d . %dx%d", r, k, k, kb)
	p, _ = Panics(func() { base.MatDimsCheck(".", mat.NewDense(r+1, kb, nil), A, B) })
	c.True("dimscheck", p, "MatDimsCheck accepts a wrong product")
	p, _ = Panics(func() { base.MatDimsCheck(".", mat.NewDense(r, kb, nil), A, mat.NewDense(k+1, kb, nil)) })
	c.True("dimscheck", p, "MatDimsCheck accepts a wrong product")
	if r != kb {
		p, _ = Panics(func() { base.MatDimsCheck(".", mat.NewDense(kb, r, nil), A, B) })
		c.True("dimscheck", p, "MatDimsCheck accepts a transposed product")
	}
	p, _ = Panics(func() { base.MatDimsCheck(".", mat.NewDense(r, kb+1, nil), A, B) })
	c.True("dimscheck", p, "MatDimsCheck accepts a wrong product")
	for _, op := range []string{"+", "-", "*", "/"} {
		p, _ = Panics(func() { base.MatDimsCheck(op, A, A, A) })
		q, _ := Panics(func() { base.MatDimsCheck(op, A, A, mat.NewDense(r, k+1, nil)) })
		q2, _ := Panics(func() { base.MatDimsCheck(op, mat.NewDense(r+1, k, nil), A, A) })
		c.True("dimscheck", !p && q && q2, "MatDimsCheck %s", op)
		q, _ = Panics(func() { base.MatDimsCheck(op, mat.NewDense(r, k+1, nil), A, A) })
		q2, _ = Panics(func() { base.MatDimsCheck(op, A, A, mat.NewDense(r+1, k, nil)) })
		c.True("dimscheck", q && q2, "MatDimsCheck %s", op)
	}
	c.Sig("%d %d %d %d %x", r, k, start, end, Hash(d))
}

// setter is a Mutable which is not a RawMatrixer.
type setter struct{ d *mat.Dense }

func (s setter) Dims() (int, int)        { return s.d.Dims() }
func (s setter) At(i, j int) float64     { return s.d.At(i, j) }
func (s setter) T() mat.Matrix           { return s.d.T() }
func (s setter) Set(i, j int, v float64) { s.d.Set(i, j, v) }

func bsDense(c *C) {
	d, _ := c.holder()
	r, k := d.Dims()
	for kind := 0; kind < nLayouts; kind++ {
		m, guard := Layout(Clone(d), kind)
		got := base.ToDense(m)
		c.True("todense", SameValues(got, d) && (guard == nil || guard()), "ToDense of layout %s", layoutNames[kind])
	}
	c.True("nil", base.ToDense(nil) != nil, "ToDense(nil) is nil")
	// into a view
	dst, guard := c.holderOf(r, k)
	ret := base.FromDense(dst, d)
	c.True("fromdense", SameValues(dst, d) && guard(), "FromDense into a view of stride %d", dst.RawMatrix().Stride)
	c.True("returned", SameValues(ret, d), "FromDense returned another matrix")
	s := setter{mat.NewDense(r, k, nil)}
	ret = base.FromDense(s, d)
	c.True("fromdense", SameValues(s.d, d) && SameValues(ret, d), "FromDense into a Mutable")
	c.True("nil dst", base.FromDense(nil, d) == d, "FromDense without destination")
	// text form: one line per row, tab separated
	want := ""
	for i := 0; i < r; i++ {
		for j := 0; j < k; j++ {
			want += fmt.Sprintf("%g", d.At(i, j)) + map[bool]string{true: "\n", false: "\t"}[j == k-1]
		}
	}
	c.True("matstr", base.MatStr(d) == want, "MatStr gives %q, want %q", base.MatStr(d), want)
	c.Sig("%d %d %x", r, k, Hash(d))
}
