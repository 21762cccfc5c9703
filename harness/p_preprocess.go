package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/preprocessing"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register(&Property{
		ID: "C10",
		Rule: "a case draws training data (all kinds, including constant and nearly constant columns), a batch partition, unseen data and memory layouts, and compares every output of one scaler with its definition, its inverse, " +
			"its incremental variant and a second fit; distinct by configuration and hash of the data",
		Families: []Family{
			{Name: "minmax", Quick: 400, Thorough: 8000, Run: ppMinMax},
			{Name: "standard", Quick: 500, Thorough: 8000, Run: ppStandard},
			{Name: "maxabs", Quick: 300, Thorough: 8000, Run: ppMaxAbs},
			{Name: "robust", Quick: 400, Thorough: 8000, Run: ppRobust},
			{Name: "normalizer", Quick: 300, Thorough: 8000, Run: ppNormalizer},
			{Name: "moments", Quick: 300, Thorough: 8000, Run: ppMoments},
		},
	})
	register(&Property{
		ID: "C11",
		Rule: "a case draws categorical or continuous data with repeated and unseen values, one to three columns and memory layouts, and compares the encoder's output, its classes and its inverse with the definition; " +
			"distinct by configuration and hash of the data",
		Families: []Family{
			{Name: "labelencoder", Quick: 400, Thorough: 8000, Run: ppLabelEncoder},
			{Name: "labelbinarizer", Quick: 400, Thorough: 8000, Run: ppLabelBinarizer},
			{Name: "multilabel", Quick: 300, Thorough: 6000, Run: ppMultiLabel},
			{Name: "onehot", Quick: 400, Thorough: 8000, Run: ppOneHot},
			{Name: "binarizer", Quick: 300, Thorough: 6000, Run: ppBinarizer},
			{Name: "kbins", Quick: 500, Thorough: 10000, Run: ppKBins},
			{Name: "imputer", Quick: 400, Thorough: 8000, Run: ppImputer},
		},
	})
	register(&Property{
		ID: "C12",
		Rule: "a case draws data of any shape (more columns than rows included), a configuration and memory layouts, and compares the transformer with its mathematical definition and its inverse; " +
			"distinct by configuration and hash of the data",
		Families: []Family{
			{Name: "poly", Quick: 400, Thorough: 8000, Run: ppPoly},
			{Name: "pca", Quick: 400, Thorough: 8000, Run: ppPCA},
			{Name: "kernelcenterer", Quick: 300, Thorough: 6000, Run: ppKernelCenterer},
			{Name: "quantile", Quick: 400, Thorough: 8000, Run: ppQuantile},
			{Name: "power", Quick: 200, Thorough: 3000, Run: ppPower},
			{Name: "shuffler", Quick: 400, Thorough: 8000, Run: ppShuffler},
			{Name: "function", Quick: 50, Thorough: 500, Run: ppFunction},
		},
	})
}

// NearCols compares matrices with a tolerance relative to the magnitude of each column (of both and of ref).
func (c *C) NearCols(key string, got, want, ref mat.Matrix, tol float64, format string, args ...interface{}) bool {
	gr, gc := got.Dims()
	wr, wc := want.Dims()
	c.Obs(gr*gc + 1)
	if gr != wr || gc != wc {
		c.Failf(key, "%s: dims %dx%d want %dx%d", fmt.Sprintf(format, args...), gr, gc, wr, wc)
		return false
	}
	for j := 0; j < gc; j++ {
		mx := 1e-300
		for _, v := range col(want, j) {
			if !math.IsInf(v, 0) && !math.IsNaN(v) {
				mx = math.Max(mx, math.Abs(v))
			}
		}
		if ref != nil {
			for _, v := range col(ref, j) {
				if !math.IsInf(v, 0) && !math.IsNaN(v) {
					mx = math.Max(mx, math.Abs(v))
				}
			}
		}
		for i := 0; i < gr; i++ {
			g, w := got.At(i, j), want.At(i, j)
			if g == w || math.IsNaN(g) && math.IsNaN(w) {
				continue
			}
			if !(math.Abs(g-w) <= tol*mx) {
				c.Failf(key, "%s: [%d,%d]=%v want %v", fmt.Sprintf(format, args...), i, j, g, w)
				return false
			}
		}
	}
	return true
}

func (c *C) layout(d *mat.Dense) mat.Matrix {
	m, _ := Layout(d, c.Intn(nLayouts))
	return m
}

// scalerData draws training data and unseen data.
func (c *C) scalerData() (X, Q *mat.Dense, kind string) {
	n, f := c.Rarely(c.Size(1, 20, 2000), 30000), c.Size(1, 5, 60)
	X, kind = c.Mat(n, f)
	if c.Intn(4) == 0 { // a constant that is not exactly representable
		v := []float64{.1, 1.1, -7.3, 1e-3, 1e5 / 3, 0}[c.Intn(6)]
		for i := 0; i < n; i++ {
			X.Set(i, 0, v)
		}
		kind += "+const"
	}
	Q = c.RandMat(1+c.Intn(6), f, KGauss)
	if c.Intn(5) == 0 { // columns of very different magnitudes
		for j := 0; j < f; j++ {
			s := math.Pow(10, float64(c.Intn(13)-11))
			for i := 0; i < n; i++ {
				X.Set(i, j, X.At(i, j)*s)
			}
			for i := 0; i < Q.RawMatrix().Rows; i++ {
				Q.Set(i, j, Q.At(i, j)*s)
			}
		}
		kind += "+magnitudes"
	}
	return
}

func byCol(X mat.Matrix, f func(j int, v float64) float64) *mat.Dense {
	r, k := X.Dims()
	out := mat.NewDense(r, k, nil)
	for i := 0; i < r; i++ {
		for j := 0; j < k; j++ {
			out.Set(i, j, f(j, X.At(i, j)))
		}
	}
	return out
}

func minmax(v []float64) (a, b float64) {
	a, b = v[0], v[0]
	for _, x := range v {
		a, b = math.Min(a, x), math.Max(b, x)
	}
	return
}

// yThrough checks that targets pass unchanged.
func (c *C) yThrough(name string, Y, Yout *mat.Dense) {
	c.True("y", Yout != nil && SameValues(Y, Yout), "%s: targets changed: %s, were %s", name, MatString2(Yout), MatString(Y))
}

// MatString2 is MatString for possibly nil *mat.Dense.
func MatString2(m *mat.Dense) string {
	if m == nil {
		return "nil"
	}
	return MatString(m)
}

// batches cuts X in consecutive non empty blocks of rows.
func (c *C) batches(X *mat.Dense) (out []*mat.Dense) {
	n, f := X.Dims()
	for i := 0; i < n; {
		k := 1 + c.Intn(n-i)
		if c.Intn(2) == 0 {
			k = 1 + c.Intn(minInt(3, n-i))
		}
		out = append(out, X.Slice(i, i+k, 0, f).(*mat.Dense)) // views: stride kept
		i += k
	}
	return
}

func ppMinMax(c *C) {
	X, Q, kind := c.scalerData()
	_, f := X.Dims()
	rng := [][]float64{{0, 1}, {-1, 1}, {2, 5}, {-10, -3}}[c.Intn(4)]
	s := preprocessing.NewMinMaxScaler(rng)
	if c.Intn(3) == 0 {
		s.Fit(c.RandMat(4, 1+c.Intn(6), KGauss), nil)
	}
	n, _ := X.Dims()
	Y := c.RandMat(n, 1, KGauss)
	what := fmt.Sprintf("MinMaxScaler%v %s %s", rng, kind, MatString(X))
	lo, hi := make([]float64, f), make([]float64, f)
	for j := range lo {
		lo[j], hi[j] = minmax(col(X, j))
	}
	ref := func(j int, v float64) float64 {
		d := hi[j] - lo[j]
		if d == 0 {
			d = 1
		}
		return rng[0] + (v-lo[j])/d*(rng[1]-rng[0])
	}
	partial := c.Intn(2) == 0
	var other *preprocessing.MinMaxScaler
	if partial {
		s.Reset()
		bs := c.batches(X)
		for k, b := range bs {
			if k == len(bs)/2 && k > 0 {
				other = s.TransformerClone().(*preprocessing.MinMaxScaler)
			}
			if k > 0 && c.Intn(3) == 0 { // being used changes nothing
				u, _ := s.Transform(c.layout(Q), nil)
				s.InverseTransform(u, nil)
			}
			if k == 0 && c.Intn(3) == 0 {
				s.Fit(b, nil) // the first batch may come by Fit
			} else {
				if c.Intn(8) == 0 {
					s.PartialFit(&mat.Dense{}, &mat.Dense{}) // no samples: nothing changes
				}
				s.PartialFit(b, nil)
				if c.Intn(8) == 0 {
					s.PartialFit(&mat.Dense{}, &mat.Dense{})
				}
			}
		}
	} else {
		s.Fit(c.layout(X), nil)
	}
	c.True("seen", s.NSamplesSeen == n, "%s: NSamplesSeen %d want %d", what, s.NSamplesSeen, n)
	if other != nil { // the clone taken half way keeps its own state
		o2 := preprocessing.NewMinMaxScaler(rng)
		o2.Fit(X.Slice(0, other.NSamplesSeen, 0, f), nil)
		a, _ := other.Transform(Q, nil)
		b, _ := o2.Transform(Q, nil)
		c.NearMat("clone", a, b, 1e-12, "%s: clone taken after %d samples", what, other.NSamplesSeen)
	}
	Xt, Yt := s.Transform(c.layout(X), Y)
	want := byCol(X, ref)
	c.yThrough("MinMaxScaler", Y, Yt)
	// cancellation: the offset of a column against its range limits the accuracy
	tol := 1e-9
	for j := range lo {
		if d := hi[j] - lo[j]; d > 0 {
			tol = math.Max(tol, 1e-13*math.Max(math.Abs(lo[j]), math.Abs(hi[j]))/d*math.Max(1, rng[1]-rng[0]))
		} else {
			tol = math.Max(tol, 1e-13*math.Abs(lo[j]))
		}
	}
	c.NearMat("transform", Xt, want, tol, "%s: transform", what)
	if a, b := minmax(Xt.RawMatrix().Data); true {
		c.True("range", a >= rng[0]-tol*4-1e-9 && b <= rng[1]+tol*4+1e-9, "%s: transformed training data in [%v,%v]", what, a, b)
	}
	Qt, _ := s.Transform(c.layout(Q), nil)
	c.NearMat("transform-new", Qt, byCol(Q, ref), tol*10, "%s: transform of new data", what)
	Xi, Yi := s.InverseTransform(DenseView(Xt, c.Intn(2) == 0), Y)
	c.yThrough("MinMaxScaler inverse", Y, Yi)
	for j := range lo { // rounding: that of the column and that of the interval asked for
		d := hi[j] - lo[j]
		if d == 0 {
			d = rng[1] - rng[0]
		}
		tol := 1e-9*math.Max(math.Abs(lo[j]), math.Abs(hi[j])) + 1e-13*d*math.Max(math.Abs(rng[0]), math.Abs(rng[1]))
		for i := 0; i < n; i++ {
			if !c.True("inverse", math.Abs(Xi.At(i, j)-X.At(i, j)) <= tol, "%s: inverse [%d,%d]=%v want %v", what, i, j, Xi.At(i, j), X.At(i, j)) {
				return
			}
		}
	}
	Fx, _ := preprocessing.NewMinMaxScaler(rng).FitTransform(c.layout(X), nil)
	c.NearMat("fittransform", Fx, want, tol, "%s: FitTransform", what)
	c.Sig("%v %v %s %x", rng, partial, kind, Hash(X))
}

func ppStandard(c *C) {
	X, Q, kind := c.scalerData()
	n, f := X.Dims()
	s := preprocessing.NewStandardScaler()
	s.WithMean, s.WithStd = c.Intn(4) > 0, c.Intn(4) > 0
	if c.Intn(3) == 0 {
		s.Fit(c.RandMat(4, 1+c.Intn(6), KGauss), nil)
	}
	Y := c.RandMat(n, 1, KGauss)
	what := fmt.Sprintf("StandardScaler mean=%v std=%v %s %s", s.WithMean, s.WithStd, kind, MatString(X))
	mu, sd := make([]float64, f), make([]float64, f)
	isConst := make([]bool, f)
	mx := make([]float64, f)
	for j := range mu {
		v := col(X, j)
		mu[j] = mean(v)
		sd[j] = math.Sqrt(variance(v))
		a, b := minmax(v)
		isConst[j] = a == b
		mx[j] = math.Max(math.Abs(a), math.Abs(b))
		if isConst[j] {
			mu[j], sd[j] = a, 1
		}
	}
	partial := c.Intn(2) == 0
	var other *preprocessing.StandardScaler
	if partial {
		s.Reset()
		bs := c.batches(X)
		for k, b := range bs {
			if k == len(bs)/2 && k > 0 {
				other = s.TransformerClone().(*preprocessing.StandardScaler)
			}
			if k > 0 && c.Intn(3) == 0 { // being used changes nothing
				u, _ := s.Transform(c.layout(Q), nil)
				s.InverseTransform(u, nil)
			}
			if k == 0 && c.Intn(3) == 0 {
				s.Fit(b, nil) // the first batch may come by Fit
			} else {
				if c.Intn(8) == 0 {
					s.PartialFit(&mat.Dense{}, &mat.Dense{}) // no samples: nothing changes
				}
				s.PartialFit(b, nil)
				if c.Intn(8) == 0 {
					s.PartialFit(&mat.Dense{}, &mat.Dense{})
				}
			}
		}
	} else {
		s.Fit(c.layout(X), nil)
	}
	c.True("seen", s.NSamplesSeen == n, "%s: NSamplesSeen %d want %d", what, s.NSamplesSeen, n)
	for j := range mu {
		c.Near("mean", s.Mean.At(0, j), mu[j], 1e-10, "%s: mean of column %d", what, j)
		if !isConst[j] {
			c.True("var", math.Abs(math.Sqrt(s.Var.At(0, j))-sd[j]) <= 1e-6*sd[j]+1e-7*mx[j], "%s: standard deviation of column %d: %v want %v (partial=%v)", what, j, math.Sqrt(s.Var.At(0, j)), sd[j], partial)
		}
	}
	if other != nil {
		o2 := preprocessing.NewStandardScaler()
		o2.WithMean, o2.WithStd = s.WithMean, s.WithStd
		o2.Fit(X.Slice(0, other.NSamplesSeen, 0, f), nil)
		a, _ := other.Transform(X, nil)
		b, _ := o2.Transform(X, nil)
		c.NearMat("clone", a, b, 1e-6, "%s: clone taken after %d samples", what, other.NSamplesSeen)
	}
	ref := func(j int, v float64) float64 {
		if s.WithMean {
			v -= mu[j]
		}
		if s.WithStd {
			v /= sd[j]
		}
		return v
	}
	ok := true
	for j := range mu { // a column whose spread is at the level of rounding cannot be judged
		if !isConst[j] && sd[j] < 1e-6*mx[j] {
			ok = false
		}
	}
	if ok {
		Xt, Yt := s.Transform(c.layout(X), Y)
		c.yThrough("StandardScaler", Y, Yt)
		c.NearMat("transform", Xt, byCol(X, ref), 1e-6, "%s: transform (partial=%v)", what, partial)
		Qt, _ := s.Transform(c.layout(Q), nil)
		c.NearCols("transform-new", Qt, byCol(Q, ref), nil, 1e-6, "%s: transform of new data", what)
		if s.WithMean && s.WithStd {
			for j := range mu {
				c.True("standardized", math.Abs(mean(col(Xt, j))) < 1e-6, "%s: mean of transformed column %d is %v", what, j, mean(col(Xt, j)))
				want := 1.
				if isConst[j] {
					want = 0
				}
				c.Near("standardized", math.Sqrt(variance(col(Xt, j))), want, 1e-6, "%s: deviation of transformed column %d", what, j)
			}
		}
		Xi, Yi := s.InverseTransform(DenseView(Xt, c.Intn(2) == 0), Y)
		c.yThrough("StandardScaler inverse", Y, Yi)
		c.NearCols("inverse", Xi, X, nil, 1e-9, "%s: inverse", what)
		if s.WithMean && s.WithStd {
			c.NearMat("Scale", preprocessing.Scale(DenseView(X, c.Intn(2) == 0)), byCol(X, ref), 1e-6, "%s: Scale", what)
		}
	}
	c.Sig("%v %v %v %s %x", s.WithMean, s.WithStd, partial, kind, Hash(X))
}

func ppMaxAbs(c *C) {
	X, Q, kind := c.scalerData()
	n, f := X.Dims()
	s := preprocessing.NewMaxAbsScaler()
	first := c.Intn(3)
	if first == 0 {
		s.Fit(c.RandMat(4, 1+c.Intn(6), KGauss), nil)
	}
	Y := c.RandMat(n, 1, KGauss)
	sc := make([]float64, f)
	for j := range sc {
		for _, v := range col(X, j) {
			sc[j] = math.Max(sc[j], math.Abs(v))
		}
		if sc[j] == 0 {
			sc[j] = 1
		}
	}
	what := fmt.Sprintf("MaxAbsScaler %s %s", kind, MatString(X))
	partial := c.Intn(2) == 0 && first != 0
	var other *preprocessing.MaxAbsScaler
	if partial {
		bs := c.batches(X)
		for k, b := range bs {
			if k == len(bs)/2 && k > 0 {
				other = s.TransformerClone().(*preprocessing.MaxAbsScaler)
			}
			if k > 0 && c.Intn(3) == 0 { // being used changes nothing
				u, _ := s.Transform(c.layout(Q), nil)
				s.InverseTransform(u, nil)
			}
			if k == 0 && c.Intn(3) == 0 {
				s.Fit(b, nil) // the first batch may come by Fit
			} else {
				if c.Intn(8) == 0 {
					s.PartialFit(&mat.Dense{}, &mat.Dense{}) // no samples: nothing changes
				}
				s.PartialFit(b, nil)
				if c.Intn(8) == 0 {
					s.PartialFit(&mat.Dense{}, &mat.Dense{})
				}
			}
		}
	} else {
		s.Fit(c.layout(X), nil)
	}
	c.True("seen", s.NSamplesSeen == n, "%s: NSamplesSeen %d want %d", what, s.NSamplesSeen, n)
	if other != nil {
		o2 := preprocessing.NewMaxAbsScaler()
		o2.Fit(X.Slice(0, other.NSamplesSeen, 0, f), nil)
		a, _ := other.Transform(X, nil)
		b, _ := o2.Transform(X, nil)
		c.NearMat("clone", a, b, 1e-12, "%s: clone taken after %d samples", what, other.NSamplesSeen)
	}
	ref := func(j int, v float64) float64 { return v / sc[j] }
	Xt, Yt := s.Transform(c.layout(X), Y)
	c.yThrough("MaxAbsScaler", Y, Yt)
	c.NearMat("transform", Xt, byCol(X, ref), 1e-12, "%s: transform (partial=%v)", what, partial)
	Qt, _ := s.Transform(c.layout(Q), nil)
	c.NearMat("transform-new", Qt, byCol(Q, ref), 1e-12, "%s: transform of new data", what)
	Xi, Yi := s.InverseTransform(DenseView(Xt, c.Intn(2) == 0), Y)
	c.yThrough("MaxAbsScaler inverse", Y, Yi)
	c.NearMat("inverse", Xi, X, 1e-12, "%s: inverse", what)
	c.Sig("%v %s %x", partial, kind, Hash(X))
}

// empiricalQuantile: smallest value such that at least a fraction p of the values is not above it.
// ok is false when p*n is within rounding of an integer that could go either way.
func empiricalQuantile(sorted []float64, p float64) (lo, hi float64) {
	n := float64(len(sorted))
	idx := func(x float64) float64 {
		i := int(math.Ceil(x)) - 1
		if i < 0 {
			i = 0
		}
		if i >= len(sorted) {
			i = len(sorted) - 1
		}
		return sorted[i]
	}
	return idx(p*n - 1e-9), idx(p*n + 1e-9)
}

func ppRobust(c *C) {
	X, Q, kind := c.scalerData()
	n, f := X.Dims()
	center, scale := c.Intn(4) > 0, c.Intn(4) > 0
	qp := &preprocessing.QuantilePair{Left: .25, Right: .75}
	if c.Intn(3) == 0 {
		qp = &preprocessing.QuantilePair{Left: .01 + .4*c.Float64(), Right: .6 + .39*c.Float64()}
	}
	s := preprocessing.NewRobustScaler(center, scale, qp)
	if c.Intn(6) == 0 {
		s = preprocessing.NewRobustScaler(center, scale, nil)
		qp = &preprocessing.QuantilePair{Left: .25, Right: .75}
	}
	if c.Intn(3) == 0 {
		s.Fit(c.RandMat(1+c.Intn(30), 1+c.Intn(6), KGauss), nil)
	}
	Y := c.RandMat(n, 1, KGauss)
	what := fmt.Sprintf("RobustScaler center=%v scale=%v q=%v %s %s", center, scale, *qp, kind, MatString(X))
	s.Fit(c.layout(X), nil)
	med, div := make([]float64, f), make([]float64, f)
	for j := range med {
		v := sortedCopy(col(X, j))
		m0, m1 := empiricalQuantile(v, .5)
		a0, a1 := empiricalQuantile(v, qp.Left)
		b0, b1 := empiricalQuantile(v, qp.Right)
		med[j], div[j] = m0, 1
		if center {
			g := s.Median.At(0, j)
			c.True("median", g == m0 || g == m1, "%s: median of column %d %v want %v", what, j, g, m0)
			med[j] = g
		}
		if scale {
			g := s.QuantileDivider.At(0, j)
			div[j] = g
			nz := func(x float64) float64 {
				if x == 0 {
					return 1
				}
				return x
			}
			c.True("divider", g == nz(b0-a0) || g == nz(b1-a1) || g == nz(b0-a1) || g == nz(b1-a0), "%s: quantile range of column %d %v want %v", what, j, g, b0-a0)
		}
	}
	ref := func(j int, v float64) float64 {
		if center {
			v -= med[j]
		}
		if scale {
			v /= div[j]
		}
		return v
	}
	Xt, Yt := s.Transform(c.layout(X), Y)
	c.yThrough("RobustScaler", Y, Yt)
	c.NearMat("transform", Xt, byCol(X, ref), 1e-12, "%s: transform", what)
	Qt, _ := s.Transform(c.layout(Q), nil)
	c.NearMat("transform-new", Qt, byCol(Q, ref), 1e-12, "%s: transform of new data", what)
	Xi, Yi := s.InverseTransform(DenseView(Xt, c.Intn(2) == 0), Y)
	c.yThrough("RobustScaler inverse", Y, Yi)
	c.NearCols("inverse", Xi, X, nil, 1e-12, "%s: inverse", what)
	c.Sig("%v %v %v %s %x", center, scale, *qp, kind, Hash(X))
}

func ppNormalizer(c *C) {
	X, _, kind := c.scalerData()
	n, f := X.Dims()
	if c.Intn(3) == 0 {
		for j := 0; j < f; j++ {
			X.Set(0, j, 0)
		}
	}
	s := preprocessing.NewNormalizer()
	s.Norm = []string{"l1", "l2", "max"}[c.Intn(3)]
	s.Axis = c.Intn(2)
	what := fmt.Sprintf("Normalizer %s axis=%d %s %s", s.Norm, s.Axis, kind, MatString(X))
	norm := func(v []float64) float64 {
		z := make([]float64, len(v))
		switch s.Norm {
		case "l1":
			return minkowski(1)(v, z)
		case "max":
			return minkowski(math.Inf(1))(v, z)
		}
		return minkowski(2)(v, z)
	}
	want := mat.NewDense(n, f, nil)
	var norms []float64
	for i := 0; s.Axis != 0 && i < n; i++ {
		norms = append(norms, norm(row(X, i)))
	}
	for j := 0; s.Axis == 0 && j < f; j++ {
		norms = append(norms, norm(col(X, j)))
	}
	for i := 0; i < n; i++ {
		for j := 0; j < f; j++ {
			k := i
			if s.Axis == 0 {
				k = j
			}
			if norms[k] > 0 {
				want.Set(i, j, X.At(i, j)/norms[k])
			}
		}
	}
	Y := c.RandMat(n, 2, KGauss)
	Xt, Yt := s.FitTransform(c.layout(X), Y)
	c.yThrough("Normalizer", Y, Yt)
	c.NearMat("transform", Xt, want, 1e-12, "%s: transform", what)
	Xi, Yi := s.InverseTransform(DenseView(Xt, c.Intn(2) == 0), Y)
	c.yThrough("Normalizer inverse", Y, Yi)
	c.NearCols("inverse", Xi, X, nil, 1e-12, "%s: inverse", what)
	c.Sig("%s %d %s %x", s.Norm, s.Axis, kind, Hash(X))
}

func ppMoments(c *C) {
	X, _, kind := c.scalerData()
	n, f := X.Dims()
	Xl := c.layout(X)
	what := fmt.Sprintf("%s %s", kind, MatString(X))
	mu, vr, sd := mat.NewDense(1, f, nil), mat.NewDense(1, f, nil), mat.NewDense(1, f, nil)
	for j := 0; j < f; j++ {
		v := col(X, j)
		mu.Set(0, j, mean(v))
		vr.Set(0, j, variance(v))
		sd.Set(0, j, math.Sqrt(variance(v)))
	}
	m, s := preprocessing.MeanStdDev(Xl)
	c.NearMat("MeanStdDev.mean", m, mu, 1e-9, "MeanStdDev mean of %s", what)
	c.NearCols("MeanStdDev.std", s, sd, X, 1e-9, "MeanStdDev deviation of %s", what)
	c.NearMat("Mean", preprocessing.Mean(Xl), mu, 1e-9, "Mean of %s", what)
	c.NearMat("Var", preprocessing.NumpyLike{}.Var(Xl), vr, 1e-9, "Var of %s", what)
	c.NearCols("Std", preprocessing.NumpyLike{}.Std(Xl), sd, X, 1e-7, "Std of %s", what)
	c.NearMat("DenseMean", preprocessing.DenseMean(nil, Xl), mu, 1e-9, "DenseMean of %s", what)
	out := c.RandMat(1, f, KGauss)
	preprocessing.DenseMean(out, Xl)
	c.NearMat("DenseMean.into", out, mu, 1e-9, "DenseMean of %s into a used matrix", what)
	// merging two groups
	if n > 1 {
		k := 1 + c.Intn(n-1)
		A, B := X.Slice(0, k, 0, f).(*mat.Dense), X.Slice(k, n, 0, f).(*mat.Dense)
		am, av := mat.NewDense(1, f, nil), mat.NewDense(1, f, nil)
		for j := 0; j < f; j++ {
			am.Set(0, j, mean(col(A, j)))
			av.Set(0, j, variance(col(A, j)))
		}
		am0, av0 := Clone(am), Clone(av)
		gm, gv, gn := preprocessing.IncrementalMeanAndVar(B, am, av, k)
		c.NearMat("Incremental.mean", gm, mu, 1e-9, "IncrementalMeanAndVar mean of %s split at %d", what, k)
		c.NearMat("Incremental.var", gv, vr, 1e-7, "IncrementalMeanAndVar variance of %s split at %d", what, k)
		c.True("Incremental.n", gn == n, "IncrementalMeanAndVar count %d want %d", gn, n)
		c.True("Incremental.pure", SameValues(am, am0) && SameValues(av, av0), "IncrementalMeanAndVar changed its arguments")
	}
	// a column of ones in front
	D := DenseView(X, c.Intn(2) == 0)
	preprocessing.AddDummyFeature(D)
	want := mat.NewDense(n, f+1, nil)
	for i := 0; i < n; i++ {
		want.SetRow(i, append([]float64{1}, row(X, i)...))
	}
	c.True("AddDummyFeature", SameValues(D, want), "AddDummyFeature: %s want %s", MatString(D), MatString(want))
	c.Sig("%s %x", kind, Hash(X))
}

// ---- encoders ----

func ppLabelEncoder(c *C) {
	n, o := c.Rarely(c.Size(1, 20, 1500), 20000), c.Size(1, 3, 10)
	Y := c.labelsAny(n, o)
	le := preprocessing.NewLabelEncoder()
	if c.Intn(3) == 0 {
		le.Fit(nil, c.labelsAny(c.Size(1, 8, 60), []int{o, 1 + c.Intn(3)}[c.Intn(2)]))
	}
	what := fmt.Sprintf("LabelEncoder %s", MatString(Y))
	partial := c.Intn(2) == 0
	var other *preprocessing.LabelEncoder
	seen := 0
	if partial {
		le = preprocessing.NewLabelEncoder()
		bs := c.batches(Y)
		for k, b := range bs {
			if k == len(bs)/2 && k > 0 {
				other = le.TransformerClone().(*preprocessing.LabelEncoder)
				seen, _ = b.Dims()
				seen = 0
				for _, z := range bs[:k] {
					r, _ := z.Dims()
					seen += r
				}
			}
			le.PartialFit(nil, b)
		}
	} else {
		le.Fit(nil, c.layout(Y))
	}
	check := func(key string, le *preprocessing.LabelEncoder, Y *mat.Dense) {
		_, o := Y.Dims()
		for j := 0; j < o; j++ {
			cl := setOf(col(Y, j))
			sup := make([]float64, len(cl))
			for _, v := range col(Y, j) {
				for k := range cl {
					sup[k] += float64(b2i(cl[k] == v))
				}
			}
			c.True(key+"classes", fmt.Sprint(le.Classes[j]) == fmt.Sprint(cl), "%s: classes %v want %v", what, le.Classes[j], cl)
			c.True(key+"support", fmt.Sprint(le.Support[j]) == fmt.Sprint(sup), "%s: support %v want %v", what, le.Support[j], sup)
		}
	}
	check("", le, Y)
	if other != nil {
		check("clone-", other, Clone(Y.Slice(0, seen, 0, o)))
	}
	// labels seen and not seen
	Q := c.labelsAny(1+c.Intn(8), o)
	for _, M := range []*mat.Dense{Y, Q} {
		X := c.RandMat(2, 2, KGauss)
		Xo, got := le.Transform(X, c.layout(M))
		c.True("x", SameValues(X, Xo), "%s: X changed", what)
		r, _ := M.Dims()
		want, back := mat.NewDense(r, o, nil), mat.NewDense(r, o, nil)
		for j := 0; j < o; j++ {
			known := setOf(col(Y, j))
			for i := 0; i < r; i++ {
				want.Set(i, j, -1)
				back.Set(i, j, math.NaN())
				for k, v := range known {
					if v == M.At(i, j) {
						want.Set(i, j, float64(k))
						back.Set(i, j, v)
					}
				}
			}
		}
		c.True("transform", SameValues(got, want), "%s: Transform(%s)=%s want %s", what, MatString(M), MatString(got), MatString(want))
		_, inv := le.InverseTransform(nil, DenseView(got, c.Intn(2) == 0))
		c.True("inverse", SameValues(inv, back), "%s: InverseTransform(%s)=%s want %s", what, MatString(got), MatString(inv), MatString(back))
	}
	// codes out of range
	bad := mat.NewDense(1, o, nil)
	for j := 0; j < o; j++ {
		bad.Set(0, j, float64(len(setOf(col(Y, j)))))
	}
	bad.Set(0, 0, 0)
	_, inv := le.InverseTransform(nil, bad)
	for j := 0; j < o; j++ {
		if j == 0 {
			c.True("inverse-range", inv.At(0, 0) == setOf(col(Y, 0))[0], "%s: inverse of %s is %s", what, MatString(bad), MatString(inv))
		} else {
			c.True("inverse-range", math.IsNaN(inv.At(0, j)), "%s: inverse of code %v of column %d is %v", what, bad.At(0, j), j, inv.At(0, j))
		}
	}
	c.Sig("%v %x", partial, Hash(Y, Q))
}

// labelsAny draws labels from a small set that need not be integers, and may be negative.
func (c *C) labelsAny(n, o int) *mat.Dense {
	Y := mat.NewDense(n, o, nil)
	for j := 0; j < o; j++ {
		vals := []float64{}
		if c.Intn(12) == 0 { // many labels
			for k, m := 0, 1+c.Intn(80); k < m; k++ {
				vals = append(vals, float64(c.Intn(200))/2-20)
			}
		}
		for k := 0; k < 1+c.Intn(5); k++ {
			vals = append(vals, []float64{0, 1, 2, 3, -1, 2.5, 10, 7, -4}[c.Intn(9)])
		}
		if c.Intn(6) == 0 { // labels which differ by little, or are large
			vals = append(vals, []float64{1 + 1e-9, 1 + 2e-9, 1e9, 1e9 + 1, 1e-12, -1e-12, 1e300}[c.Intn(7)], 1+1e-9*float64(c.Intn(3)))
		}
		for i := 0; i < n; i++ {
			Y.Set(i, j, vals[c.Intn(len(vals))])
		}
	}
	return Y
}

func ppLabelBinarizer(c *C) {
	n, o := c.Rarely(c.Size(1, 15, 1500), 20000), c.Size(1, 3, 10)
	Y := c.labelsAny(n, o)
	neg, pos := 0., 1.
	if c.Intn(2) == 0 {
		neg, pos = []float64{-1, 0, 1, 2, 9}[c.Intn(5)], []float64{5, 3, -2, 6}[c.Intn(4)]
	}
	if c.Intn(20) == 0 { // equal indicators: still one-to-one
		same := preprocessing.NewLabelBinarizer(pos, pos)
		_, T := same.FitTransform(nil, c.layout(Y))
		_, back := same.InverseTransform(nil, T)
		c.True("equal", SameValues(back, Y), "LabelBinarizer(%v,%v) %s: inverse %s", pos, pos, MatString(Y), MatString(back))
	}
	lb := preprocessing.NewLabelBinarizer(neg, pos)
	if c.Intn(3) == 0 {
		lb.Fit(nil, c.labelsAny(c.Size(1, 8, 60), []int{o, 1 + c.Intn(3)}[c.Intn(2)]))
	}
	lb.Fit(nil, c.layout(Y))
	what := fmt.Sprintf("LabelBinarizer(%v,%v) %s", neg, pos, MatString(Y))
	classes := make([][]float64, o)
	for j := range classes {
		classes[j] = setOf(col(Y, j))
	}
	c.True("classes", fmt.Sprint(lb.Classes) == fmt.Sprint(classes), "%s: classes %v want %v", what, lb.Classes, classes)
	Q := c.labelsAny(1+c.Intn(6), o)
	for k, M := range []*mat.Dense{Y, Q} {
		r, _ := M.Dims()
		cols := []float64{}
		want := [][]float64{}
		for i := 0; i < r; i++ {
			cols = nil
			for j := 0; j < o; j++ {
				for _, v := range classes[j] {
					if v == M.At(i, j) {
						cols = append(cols, pos)
					} else {
						cols = append(cols, neg)
					}
				}
			}
			want = append(want, cols)
		}
		W := mat.NewDense(r, len(cols), nil)
		for i := range want {
			W.SetRow(i, want[i])
		}
		_, got := lb.Transform(nil, c.layout(M))
		if !c.True("transform", SameValues(got, W), "%s: Transform(%s)=%s want %s", what, MatString(M), MatString(got), MatString(W)) {
			continue
		}
		if k == 0 {
			_, inv := lb.InverseTransform(nil, DenseView(got, c.Intn(2) == 0))
			c.True("inverse", SameValues(inv, Y), "%s: inverse %s", what, MatString(inv))
		}
	}
	// the inverse picks the strongest column of each group
	_, T := lb.Transform(nil, Y)
	r, k := T.Dims()
	S := c.RandMat(r, k, KGauss)
	_, inv := lb.InverseTransform(nil, DenseView(S, c.Intn(2) == 0))
	for i := 0; i < r; i++ {
		b := 0
		for j := 0; j < o; j++ {
			best := 0
			for q := range classes[j] {
				if (S.At(i, b+q) > S.At(i, b+best)) == (pos > neg) && q != best {
					best = q
				}
			}
			c.True("inverse-scores", inv.At(i, j) == classes[j][best], "%s: inverse of scores %v is %v want %v", what, row(S, i)[b:b+len(classes[j])], inv.At(i, j), classes[j][best])
			b += len(classes[j])
		}
	}
	c.Sig("%v %v %x", neg, pos, Hash(Y, Q))
}

func ppMultiLabel(c *C) {
	n, o := c.Size(1, 10, 800), c.Size(1, 3, 10)
	Y := c.labelsAny(n, o)
	if c.Intn(2) == 0 { // numbers
		mlb := preprocessing.NewMultiLabelBinarizer()
		classes := setOf(Y.RawMatrix().Data)
		_, T := mlb.FitTransform(nil, c.layout(Y))
		what := fmt.Sprintf("MultiLabelBinarizer %s", MatString(Y))
		c.True("classes", fmt.Sprint(mlb.Classes) == fmt.Sprint(classes), "%s: classes %v want %v", what, mlb.Classes, classes)
		if !c.True("dims", T != nil && dimsAre(T, n, o*len(classes)), "%s: %s", what, MatString2(T)) {
			return
		}
		for i := 0; i < n; i++ {
			for j := 0; j < o; j++ {
				for k, v := range classes {
					c.True("transform", T.At(i, j*len(classes)+k) == float64(b2i(v == Y.At(i, j))), "%s: entry %d,%d class %v is %v", what, i, j, v, T.At(i, j*len(classes)+k))
				}
			}
		}
		_, inv := mlb.InverseTransform(nil, DenseView(T, c.Intn(2) == 0))
		d, isd := inv.(*mat.Dense)
		c.True("inverse", isd && SameValues(d, Y), "%s: inverse %v", what, inv)
		c.Sig("float %x", Hash(Y))
		return
	}
	words := []string{"b", "a", "zz", "", "sci-fi", "Thriller"}
	S := make([][]string, n)
	set := map[string]bool{}
	for i := range S {
		for j := 0; j < o; j++ {
			w := words[int(math.Mod(math.Abs(Y.At(i, j)), float64(len(words))))]
			S[i] = append(S[i], w)
			set[w] = true
		}
	}
	classes := []string{}
	for w := range set {
		classes = append(classes, w)
	}
	sort.Strings(classes)
	mlb := preprocessing.NewMultiLabelBinarizer()
	_, T := mlb.FitTransform2(nil, S)
	c.True("classes", fmt.Sprint(mlb.Classes) == fmt.Sprint(classes), "MultiLabelBinarizer %q: classes %q want %q", S, mlb.Classes, classes)
	if !c.True("dims", T != nil && dimsAre(T, n, o*len(classes)), "MultiLabelBinarizer %q: %s", S, MatString2(T)) {
		return
	}
	for i := range S {
		for j := range S[i] {
			for k, v := range classes {
				c.True("transform", T.At(i, j*len(classes)+k) == float64(b2i(v == S[i][j])), "MultiLabelBinarizer %q: entry %d,%d class %q", S, i, j, v)
			}
		}
	}
	_, inv := mlb.InverseTransform(nil, DenseView(T, c.Intn(2) == 0))
	c.True("inverse", fmt.Sprint(inv) == fmt.Sprint(S), "MultiLabelBinarizer %q: inverse %q", S, inv)
	c.Sig("string %q", S)
}

func ppOneHot(c *C) {
	n, f := c.Rarely(c.Size(1, 15, 1500), 20000), c.Size(1, 4, 30)
	X := c.labelsAny(n, f)
	enc := preprocessing.NewOneHotEncoder()
	if c.Intn(3) == 0 {
		enc.Fit(c.labelsAny(c.Size(1, 8, 60), []int{f, 1 + c.Intn(5)}[c.Intn(2)]), nil)
	}
	Y := c.RandMat(n, 1, KGauss)
	enc.Fit(c.layout(X), nil)
	what := fmt.Sprintf("OneHotEncoder %s", MatString(X))
	vals := make([][]float64, f)
	nv, fi := []int{}, []int{0}
	for j := range vals {
		vals[j] = setOf(col(X, j))
		nv = append(nv, len(vals[j]))
		fi = append(fi, fi[j]+len(vals[j]))
	}
	c.True("values", fmt.Sprint(enc.Values) == fmt.Sprint(vals) && fmt.Sprint(enc.NValues) == fmt.Sprint(nv) && fmt.Sprint(enc.FeatureIndices) == fmt.Sprint(fi), "%s: values %v %v %v want %v", what, enc.Values, enc.NValues, enc.FeatureIndices, vals)
	Q := c.labelsAny(1+c.Intn(6), f)
	for k, M := range []*mat.Dense{X, Q} {
		r, _ := M.Dims()
		W := mat.NewDense(r, fi[f], nil)
		for i := 0; i < r; i++ {
			for j := 0; j < f; j++ {
				for q, v := range vals[j] {
					if v == M.At(i, j) {
						W.Set(i, fi[j]+q, 1)
					}
				}
			}
		}
		got, Yo := enc.Transform(c.layout(M), Y)
		c.yThrough("OneHotEncoder", Y, Yo)
		c.True("transform", SameValues(got, W), "%s: Transform(%s)=%s want %s", what, MatString(M), MatString(got), MatString(W))
		if k == 0 {
			inv, Yi := enc.InverseTransform(DenseView(got, c.Intn(2) == 0), Y)
			c.yThrough("OneHotEncoder inverse", Y, Yi)
			c.True("inverse", SameValues(inv, X), "%s: inverse %s", what, MatString(inv))
		}
	}
	c.Sig("%x", Hash(X, Q))
}

func ppBinarizer(c *C) {
	X, kind := c.Mat(1+c.Intn(12), 1+c.Intn(5))
	b := preprocessing.NewBinarizer()
	if c.Intn(3) > 0 {
		r, k := X.Dims()
		b.Threshold = X.At(c.Intn(r), c.Intn(k)) // a value of the data: the comparison is strict
	}
	r, _ := X.Dims()
	Y := c.RandMat(r, 1, KGauss)
	var got, Yo *mat.Dense
	if c.Intn(2) == 0 {
		got, Yo = b.FitTransform(c.layout(X), Y)
	} else {
		b.Fit(X, nil)
		got, Yo = b.Transform(c.layout(X), Y)
	}
	c.yThrough("Binarizer", Y, Yo)
	want := byCol(X, func(j int, v float64) float64 { return float64(b2i(v > b.Threshold)) })
	c.True("transform", SameValues(got, want), "Binarizer threshold %v of %s: %s", b.Threshold, MatString(X), MatString(got))
	c.Sig("%s %v %x", kind, b.Threshold, Hash(X))
}

func ppKBins(c *C) {
	X, kind := c.Mat(1+c.Intn(25), 1+c.Intn(4))
	n, f := X.Dims()
	nb := 1 + c.Intn(6)
	d := preprocessing.NewKBinsDiscretizer(nb)
	d.Strategy = []string{"quantile", "uniform"}[c.Intn(2)]
	d.Encode = []string{"ordinal", "onehot-dense", "onehot"}[c.Intn(3)]
	if c.Intn(3) == 0 {
		d.Fit(c.RandMat(7, 1+c.Intn(5), KGauss), nil)
	}
	Y := c.RandMat(n, 1, KGauss)
	d.Fit(c.layout(X), nil)
	what := fmt.Sprintf("KBinsDiscretizer(%d,%s,%s) %s %s", nb, d.Strategy, d.Encode, kind, MatString(X))
	if !c.True("edges", len(d.BinEdges) == f, "%s: %d features", what, len(d.BinEdges)) {
		return
	}
	for j := 0; j < f; j++ {
		v := sortedCopy(col(X, j))
		e := d.BinEdges[j]
		if !c.True("edges", len(e) == nb+1, "%s: edges %v", what, e) {
			return
		}
		for b := 0; b <= nb; b++ {
			p := float64(b) / float64(nb)
			if d.Strategy == "uniform" {
				c.Near("edges", e[b], v[0]+p*(v[n-1]-v[0]), 1e-12, "%s: edge %d of column %d", what, b, j)
			} else {
				lo, hi := empiricalQuantile(v, p)
				c.True("edges", e[b] == lo || e[b] == hi, "%s: edge %d of column %d is %v want %v", what, b, j, e[b], lo)
			}
			if b > 0 {
				c.True("edges-order", e[b] >= e[b-1], "%s: edges of column %d not ascending %v", what, j, e)
			}
		}
	}
	Q := c.RandMat(1+c.Intn(6), f, KGauss)
	Q.Set(0, 0, d.BinEdges[0][c.Intn(nb+1)]) // on an edge
	for _, M := range []*mat.Dense{X, Q} {
		r, _ := M.Dims()
		bins := mat.NewDense(r, f, nil)
		mid := mat.NewDense(r, f, nil)
		hot := mat.NewDense(r, f*nb, nil)
		for i := 0; i < r; i++ {
			for j := 0; j < f; j++ {
				b := 0
				for q := 1; q < nb; q++ {
					if d.BinEdges[j][q] <= M.At(i, j) {
						b = q
					}
				}
				bins.Set(i, j, float64(b))
				hot.Set(i, j*nb+b, 1)
				mid.Set(i, j, (d.BinEdges[j][b]+d.BinEdges[j][b+1])/2)
			}
		}
		want := bins
		if d.Encode != "ordinal" {
			want = hot
		}
		Yr := c.RandMat(r, 1, KGauss)
		_ = Y
		got, Yo := d.Transform(c.layout(M), Yr)
		c.yThrough("KBinsDiscretizer", Yr, Yo)
		if !c.True("transform", got != nil && SameValues(got, want), "%s: Transform(%s)=%s want %s", what, MatString(M), MatString2(got), MatString(want)) {
			return
		}
		inv, Yi := d.InverseTransform(c.layout(got), Yr)
		c.yThrough("KBinsDiscretizer inverse", Yr, Yi)
		c.NearMat("inverse", inv, mid, 1e-12, "%s: inverse of %s", what, MatString(got))
	}
	c.Sig("%d %s %s %s %x", nb, d.Strategy, d.Encode, kind, Hash(X, Q))
}

func ppImputer(c *C) {
	n, f := c.Rarely(c.Size(1, 15, 1500), 20000), c.Size(1, 4, 30)
	X := c.RandMat(n, f, []int{KInt, KGauss, KDup}[c.Intn(3)])
	for i := 1; i < n; i++ { // row 0 stays: every column has a value
		for j := 0; j < f; j++ {
			if c.Intn(3) == 0 {
				X.Set(i, j, math.NaN())
			}
		}
	}
	im := preprocessing.NewImputer()
	im.Strategy = []string{"mean", "median", "most_frequent", ""}[c.Intn(4)]
	if c.Intn(3) == 0 {
		im.Fit(c.RandMat(4, 1+c.Intn(5), KGauss), nil)
	}
	im.Fit(c.layout(X), nil)
	what := fmt.Sprintf("Imputer %q %s", im.Strategy, MatString(X))
	def := make([]float64, f)
	for j := range def {
		v := []float64{}
		for _, x := range col(X, j) {
			if !math.IsNaN(x) {
				v = append(v, x)
			}
		}
		sort.Float64s(v)
		switch im.Strategy {
		case "median": // lower median
			def[j] = v[(len(v)-1)/2]
		case "most_frequent":
			best := 0
			for _, x := range v {
				k := 0
				for _, y := range v {
					k += b2i(x == y)
				}
				if k > best {
					best, def[j] = k, x
				}
			}
		default:
			def[j] = mean(v)
		}
	}
	Q := c.RandMat(1+c.Intn(6), f, KGauss)
	Q.Set(0, c.Intn(f), math.NaN())
	for _, M := range []*mat.Dense{X, Q} {
		want := byCol(M, func(j int, v float64) float64 {
			if math.IsNaN(v) {
				return def[j]
			}
			return v
		})
		r, _ := M.Dims()
		Y := c.RandMat(r, 1, KGauss)
		got, Yo := im.Transform(c.layout(M), Y)
		c.yThrough("Imputer", Y, Yo)
		c.NearMat("transform", got, want, 1e-12, "%s: Transform(%s)", what, MatString(M))
		for i := 0; i < r; i++ {
			for j := 0; j < f; j++ {
				if !math.IsNaN(M.At(i, j)) {
					c.True("kept", got.At(i, j) == M.At(i, j), "%s: a present value changed", what)
				}
			}
		}
		inv, Yi := im.InverseTransform(got, Y)
		c.yThrough("Imputer inverse", Y, Yi)
		c.True("inverse", SameValues(inv, got), "%s: inverse", what)
	}
	c.Sig("%s %x", im.Strategy, Hash(Q))
}

// ---- feature transforms ----

func ppPoly(c *C) {
	n, f, deg := c.Size(1, 6, 100), 1+c.Intn(4), 1+c.Intn(4)
	X := c.RandMat(n, f, []int{KGauss, KInt, KSparse}[c.Intn(3)])
	p := preprocessing.NewPolynomialFeatures(deg)
	p.IncludeBias, p.InteractionOnly = c.Intn(2) == 0, c.Intn(2) == 0
	if c.Intn(3) == 0 {
		p.Fit(c.RandMat(2, 1+c.Intn(4), KGauss), nil)
	}
	p.Fit(c.layout(X), nil)
	what := fmt.Sprintf("PolynomialFeatures(%d bias=%v interaction=%v) %d features", deg, p.IncludeBias, p.InteractionOnly, f)
	// all exponent vectors, by total degree, then in lexicographic order of the sorted factor list
	var want [][]int
	var rec func(pos, left int, cur []int)
	rec = func(pos, left int, cur []int) {
		if left == 0 {
			want = append(want, append([]int{}, cur...))
			return
		}
		for j := pos; j < f; j++ {
			cur[j]++
			next := j
			if p.InteractionOnly {
				next = j + 1
			}
			rec(next, left-1, cur)
			cur[j]--
		}
	}
	for d := 0; d <= deg; d++ {
		if d == 0 && !p.IncludeBias {
			continue
		}
		rec(0, d, make([]int, f))
	}
	if !c.True("powers", fmt.Sprint(p.Powers) == fmt.Sprint(want), "%s: powers %v want %v", what, p.Powers, want) {
		return
	}
	Y := c.RandMat(n, 1, KGauss)
	W := mat.NewDense(n, len(want), nil)
	for i := 0; i < n; i++ {
		for k, pw := range want {
			v := 1.
			for j, e := range pw {
				for q := 0; q < e; q++ {
					v *= X.At(i, j)
				}
			}
			W.Set(i, k, v)
		}
	}
	got, Yo := p.Transform(c.layout(X), Y)
	c.yThrough("PolynomialFeatures", Y, Yo)
	c.NearMat("transform", got, W, 1e-10, "%s: transform of %s", what, MatString(X))
	inv, Yi := p.InverseTransform(DenseView(got, c.Intn(2) == 0), Y)
	c.yThrough("PolynomialFeatures inverse", Y, Yi)
	c.NearMat("inverse", inv, X, 1e-12, "%s: inverse of %s", what, MatString(X))
	c.Sig("%s %x", what, Hash(X))
}

func ppPCA(c *C) {
	n, f := c.Size(1, 12, 300), c.Size(1, 6, 40)
	X, kind := c.Mat(n, f)
	fro := 0.
	for _, v := range X.RawMatrix().Data {
		fro += v * v
	}
	if fro == 0 {
		X.Set(0, 0, 1)
		fro = 1
	}
	k := minInt(n, f)
	p := preprocessing.NewPCA()
	refit := 0
	if c.Intn(3) == 0 {
		refit = 1 + c.Intn(6)
		p.Fit(c.RandMat(8, refit, KGauss), nil)
	}
	mode := "all"
	nc := k
	switch c.Intn(3) {
	case 0:
		nc = 1 + c.Intn(k)
		if nc == refit {
			// setting the value NComponents already has from the previous fit is
			// not distinguishable from leaving it alone
			nc = k
			break
		}
		p.NComponents = nc
		mode = "fixed"
	case 1:
		p.MinVarianceRatio = .3 + .69*c.Float64()
		mode = "ratio"
	}
	Y := c.RandMat(n, 1, KGauss)
	p.Fit(c.layout(X), nil)
	what := fmt.Sprintf("PCA %s nc=%d ratio=%v %s %s", mode, nc, p.MinVarianceRatio, kind, MatString(X))
	if !c.True("values", len(p.SingularValues) == k && len(p.ExplainedVarianceRatio) == k, "%s: %d singular values", what, len(p.SingularValues)) {
		return
	}
	tot := 0.
	for i, s := range p.SingularValues {
		tot += s * s
		c.True("order", s >= 0 && (i == 0 || s <= p.SingularValues[i-1]*(1+1e-12)), "%s: singular values %v", what, p.SingularValues)
		c.Near("ratio", p.ExplainedVarianceRatio[i], s*s/fro, 1e-9, "%s: variance ratio %d", what, i)
	}
	c.Near("energy", tot, fro, 1e-9, "%s: sum of squared singular values", what)
	if mode == "ratio" {
		cum := 0.
		nc = 0
		for nc < k && cum < p.MinVarianceRatio {
			cum += p.SingularValues[nc] * p.SingularValues[nc] / fro
			nc++
		}
		if math.Abs(cum-p.MinVarianceRatio) < 1e-9 {
			return
		}
	}
	if !c.True("components", p.NComponents == nc, "%s: NComponents %d want %d", what, p.NComponents, nc) {
		return
	}
	T, Yo := p.Transform(c.layout(X), Y)
	c.yThrough("PCA", Y, Yo)
	if !c.True("dims", dimsAre(T, n, nc), "%s: transformed dims", what) {
		return
	}
	// transformed columns are orthogonal and their norms are the singular values
	for a := 0; a < nc; a++ {
		for b := a; b < nc; b++ {
			s := 0.
			for i := 0; i < n; i++ {
				s += T.At(i, a) * T.At(i, b)
			}
			want := 0.
			if a == b {
				want = p.SingularValues[a] * p.SingularValues[a]
			}
			c.True("orthogonal", math.Abs(s-want) <= 1e-9*fro, "%s: product of components %d and %d is %v want %v", what, a, b, s, want)
		}
	}
	inv, Yi := p.InverseTransform(DenseView(T, c.Intn(2) == 0), Y)
	c.yThrough("PCA inverse", Y, Yi)
	if !c.True("inverse-dims", dimsAre(inv, n, f), "%s: inverse dims", what) {
		return
	}
	// best approximation of that rank: the residual is the energy of the dropped components
	res, want := 0., 0.
	for i := 0; i < n; i++ {
		for j := 0; j < f; j++ {
			d := X.At(i, j) - inv.At(i, j)
			res += d * d
		}
	}
	for _, s := range p.SingularValues[nc:] {
		want += s * s
	}
	c.True("inverse", math.Abs(res-want) <= 1e-9*fro, "%s: squared reconstruction error %v want %v", what, res, want)
	// the map is linear and length preserving on the span: transform twice gives the same
	Q := c.RandMat(1+c.Intn(4), f, KGauss)
	TQ, _ := p.Transform(c.layout(Q), nil)
	iQ, _ := p.InverseTransform(TQ, nil)
	TQ2, _ := p.Transform(iQ, nil)
	c.NearMat("projection", TQ2, TQ, 1e-9, "%s: transform of the reconstruction of new data", what)
	c.Sig("%s %d %s %x", mode, nc, kind, Hash(X))
}

func ppKernelCenterer(c *C) {
	n, f, q := c.Size(1, 8, 80), 1+c.Intn(4), c.Size(1, 6, 80)
	X, Q := c.RandMat(n, f, c.Intn(2)), c.RandMat(q, f, c.Intn(2))
	K, KQ := mat.NewDense(n, n, nil), mat.NewDense(q, n, nil)
	K.Mul(X, X.T())
	KQ.Mul(Q, X.T())
	// centering the kernel is centering the samples
	mu := make([]float64, f)
	for j := range mu {
		mu[j] = mean(col(X, j))
	}
	cen := func(j int, v float64) float64 { return v - mu[j] }
	Xc, Qc := byCol(X, cen), byCol(Q, cen)
	W, WQ := mat.NewDense(n, n, nil), mat.NewDense(q, n, nil)
	W.Mul(Xc, Xc.T())
	WQ.Mul(Qc, Xc.T())
	kc := preprocessing.NewKernelCenterer()
	if c.Intn(3) == 0 {
		m := 1 + c.Intn(8)
		kc.Fit(c.RandMat(m, m, KGauss), nil)
	}
	Y := c.RandMat(n, 1, KGauss)
	kc.Fit(c.layout(K), nil)
	what := fmt.Sprintf("KernelCenterer n=%d q=%d X=%s Q=%s", n, q, MatString(X), MatString(Q))
	got, Yo := kc.Transform(c.layout(K), Y)
	c.yThrough("KernelCenterer", Y, Yo)
	c.NearMat("train", got, W, 1e-9, "%s", what)
	gq, _ := kc.Transform(c.layout(KQ), nil)
	c.NearMat("new", gq, WQ, 1e-9, "%s", what)
	c.Sig("%d %d %x", n, q, Hash(X, Q))
}

func ppQuantile(c *C) {
	n, f := c.Rarely(c.Size(2, 25, 1500), 20000), c.Size(1, 4, 15)
	X := c.RandMat(n, f, []int{KGauss, KInt, KScaled, KDup}[c.Intn(4)])
	nq := c.Size(2, 9, 150)
	qt := preprocessing.NewQuantileTransformer(nq, "uniform", base.NewSource(1))
	if c.Intn(3) == 0 {
		qt.Fit(c.RandMat(5, 1+c.Intn(5), KGauss), nil)
	}
	qt.Fit(c.layout(X), nil)
	if c.Intn(4) == 0 {
		a, _ := qt.Transform(X, nil)
		b, _ := qt.TransformerClone().FitTransform(c.layout(X), nil)
		c.NearMat("fittransform", b, a, 0, "QuantileTransformer(%d) %s: FitTransform", nq, MatString(X))
	}
	what := fmt.Sprintf("QuantileTransformer(%d) %s", nq, MatString(X))
	edges := mat.NewDense(nq, f, nil)
	for j := 0; j < f; j++ {
		v := sortedCopy(col(X, j))
		for q := 0; q < nq; q++ {
			pos := float64(q) / float64(nq-1) * float64(n-1)
			i0 := int(math.Floor(pos + 1e-9))
			fr := math.Max(0, pos-float64(i0))
			w := v[i0]
			if i0+1 < n {
				w = v[i0]*(1-fr) + v[i0+1]*fr
			}
			edges.Set(q, j, w)
			c.Near("quantiles", qt.Quantiles.At(q, j), w, 1e-7, "%s: quantile %d of column %d", what, q, j)
		}
	}
	Q := mat.NewDense(12, f, nil)
	for j := 0; j < f; j++ {
		v := sortedCopy(col(X, j))
		for i := 0; i < 12; i++ {
			Q.Set(i, j, v[0]-.3*(v[n-1]-v[0])+1.6*(v[n-1]-v[0])*float64(i)/11)
		}
	}
	Y := c.RandMat(n, 1, KGauss)
	for _, M := range []*mat.Dense{X, Q} {
		T, Yo := qt.Transform(c.layout(M), Y)
		c.yThrough("QuantileTransformer", Y, Yo)
		r, _ := M.Dims()
		for j := 0; j < f; j++ {
			for i := 0; i < r; i++ {
				x, t := M.At(i, j), T.At(i, j)
				if !c.True("range", t >= 0 && t <= 1, "%s: %v of column %d maps to %v", what, x, j, t) {
					return
				}
				// between the references of the surrounding quantiles (tied samples may
				// give edges that differ by rounding)
				eps := 1e-9 * (math.Abs(x) + math.Abs(qt.Quantiles.At(0, j)) + math.Abs(qt.Quantiles.At(nq-1, j)))
				lo, hi := 0., 1.
				for q := 0; q < nq; q++ {
					e, rf := qt.Quantiles.At(q, j), float64(q)/float64(nq-1)
					if e < x-eps {
						lo = rf
					}
					if e > x+eps {
						hi = rf
						break
					}
				}
				c.True("bracket", t >= lo-1e-6 && t <= hi+1e-6, "%s: %v of column %d maps to %v, outside [%v,%v]", what, x, j, t, lo, hi)
				// linear interpolation when strictly between two distinct quantiles
				for q := 0; q+1 < nq; q++ {
					a, b := qt.Quantiles.At(q, j), qt.Quantiles.At(q+1, j)
					if a < x-eps && x+eps < b {
						c.Near("interpolation", t, (float64(q)+(x-a)/(b-a))/float64(nq-1), 1e-6, "%s: %v of column %d", what, x, j)
					}
				}
				if x < qt.Quantiles.At(0, j)-eps {
					c.Near("below", t, 0, 1e-6, "%s: %v below all samples", what, x)
				}
				if x > qt.Quantiles.At(nq-1, j)+eps {
					c.Near("above", t, 1, 1e-6, "%s: %v above all samples", what, x)
				}
			}
			// larger samples never get less; equal ones get the same
			idx := make([]int, r)
			for i := range idx {
				idx[i] = i
			}
			sort.Slice(idx, func(a, b int) bool {
				if M.At(idx[a], j) != M.At(idx[b], j) {
					return M.At(idx[a], j) < M.At(idx[b], j)
				}
				return T.At(idx[a], j) < T.At(idx[b], j)
			})
			for a := 1; a < r; a++ {
				x, t, x2, t2 := M.At(idx[a-1], j), T.At(idx[a-1], j), M.At(idx[a], j), T.At(idx[a], j)
				c.True("monotone", t2 >= t-1e-12 && (x != x2 || t2 <= t+1e-12), "%s: %v maps to %v, %v to %v", what, x, t, x2, t2)
			}
		}
	}
	c.Sig("%d %x", nq, Hash(X))
}

func yjRef(x, l float64) float64 {
	if x >= 0 {
		if math.Abs(l) < 1e-12 {
			return math.Log1p(x)
		}
		return math.Expm1(l*math.Log1p(x)) / l
	}
	if math.Abs(l-2) < 1e-12 {
		return -math.Log1p(-x)
	}
	return -math.Expm1((2-l)*math.Log1p(-x)) / (2 - l)
}

func bcRef(x, l float64) float64 {
	if math.Abs(l) < 1e-12 {
		return math.Log(x)
	}
	return math.Expm1(l*math.Log(x)) / l
}

func ppPower(c *C) {
	n, f := c.Size(8, 25, 400), c.Size(1, 3, 12)
	pt := preprocessing.NewPowerTransformer()
	if c.Intn(3) == 0 { // fitted before
		pt.Standardize = c.Intn(2) == 0
		pt.Fit(c.RandMat(6, 1+c.Intn(4), KGauss), nil)
	}
	pt.Method = []string{"yeo-johnson", "box-cox"}[c.Intn(2)]
	pt.Standardize = c.Intn(2) == 0
	X := c.RandMat(n, f, KGauss)
	shape := c.Intn(3)
	for i := 0; i < n; i++ {
		for j := 0; j < f; j++ {
			v := X.At(i, j)
			switch {
			case pt.Method == "box-cox" && shape == 0:
				v = math.Exp(v)
			case pt.Method == "box-cox":
				v = math.Abs(v) + .05
			case shape == 1:
				v = math.Exp(v) - 1
			case shape == 2:
				v = v + 2
			}
			X.Set(i, j, v)
		}
	}
	Y := c.RandMat(n, 1, KGauss)
	what := fmt.Sprintf("PowerTransformer %s standardize=%v shape %d n=%d f=%d", pt.Method, pt.Standardize, shape, n, f)
	c.Stage("PowerTransformer")
	pt.Fit(c.layout(X), nil)
	ref, jac := yjRef, func(x float64) float64 { return math.Copysign(math.Log1p(math.Abs(x)), x) }
	if pt.Method == "box-cox" {
		ref, jac = bcRef, math.Log
	}
	W := byCol(X, func(j int, v float64) float64 { return ref(v, pt.Lambdas[j]) })
	for j := 0; j < f; j++ {
		// the exponent maximises the likelihood of the transformed column
		nll := func(l float64) float64 {
			v := make([]float64, n)
			s := 0.
			for i := range v {
				v[i] = ref(X.At(i, j), l)
				s += jac(X.At(i, j))
			}
			return float64(n)/2*math.Log(variance(v)) - (l-1)*s
		}
		at := nll(pt.Lambdas[j])
		for _, l := range []float64{-4, -3, -2, -1, -.5, 0, .5, 1, 1.5, 2, 3, 4, pt.Lambdas[j] - .01, pt.Lambdas[j] + .01} {
			c.True("lambda", at <= nll(l)+1e-6, "%s: lambda %v of column %d has cost %v, lambda %v has %v: %v", what, pt.Lambdas[j], j, at, l, nll(l), col(X, j))
		}
	}
	if pt.Standardize {
		for j := 0; j < f; j++ {
			v := col(W, j)
			m, s := mean(v), math.Sqrt(variance(v))
			for i := 0; i < n; i++ {
				W.Set(i, j, (v[i]-m)/s)
			}
		}
	}
	T, Yo := pt.Transform(c.layout(X), Y)
	c.yThrough("PowerTransformer", Y, Yo)
	c.NearMat("transform", T, W, 1e-6, "%s: transform", what)
	T2, _ := pt.TransformerClone().(*preprocessing.PowerTransformer).FitTransform(c.layout(X), Y)
	c.NearMat("fittransform", T2, T, 1e-9, "%s: FitTransform vs Fit then Transform", what)
	inv, _ := pt.InverseTransform(c.layout(T), Y)
	c.NearMat("inverse", inv, X, 1e-6, "%s: inverse", what)
	// given exponents, 0 and 2 included
	l := []float64{0, 2, 1, -1, .5, 3}[c.Intn(6)]
	p2 := &preprocessing.PowerTransformer{Method: pt.Method, Lambdas: make([]float64, f)}
	for j := range p2.Lambdas {
		p2.Lambdas[j] = l
	}
	T3, _ := p2.Transform(c.layout(X), nil)
	c.NearMat("given", T3, byCol(X, func(j int, v float64) float64 { return ref(v, l) }), 1e-9, "%s: transform with lambda %v", what, l)
	i3, _ := p2.InverseTransform(T3, nil)
	c.NearMat("given-inverse", i3, X, 1e-7, "%s: inverse with lambda %v", what, l)
	c.Sig("%s %x", what, Hash(X))
}

func ppShuffler(c *C) {
	n := c.Rarely(c.Size(1, 20, 2000), 30000)
	X, kind := c.Mat(n, 1+c.Intn(4))
	_, fx := X.Dims()
	Y := c.RandMat(n, 1+c.Intn(2), KInt)
	// tag the rows so that pairs can be followed
	for i := 0; i < n; i++ {
		X.Set(i, 0, float64(i)+.25)
		Y.Set(i, 0, float64(i)+.5)
	}
	s := preprocessing.NewShuffler()
	seed := uint64(c.Intn(1000))
	if c.Intn(4) > 0 {
		s.RandomState = base.NewSource(seed)
	}
	what := fmt.Sprintf("Shuffler n=%d %s", n, kind)
	s.Fit(c.layout(X), c.layout(Y))
	Xs, Ys := s.Transform(c.layout(X), c.layout(Y))
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		k := int(Xs.At(i, 0))
		if !c.True("rows", k >= 0 && k < n && !used[k], "%s: row %d of the result is not a new row of the input", what, i) {
			return
		}
		used[k] = true
		c.True("pairs", SameValues(Xs.Slice(i, i+1, 0, fx), X.Slice(k, k+1, 0, fx)) && fmt.Sprint(row(Ys, i)) == fmt.Sprint(row(Y, k)), "%s: row %d is X %v with Y %v", what, i, row(Xs, i), row(Ys, i))
	}
	Xv, gx := Layout(Xs, LView)
	Yv, gy := Layout(Ys, LView)
	Xi, Yi := s.InverseTransform(Xv.(*mat.Dense), Yv.(*mat.Dense))
	c.True("inverse", SameValues(Xi, X) && SameValues(Yi, Y), "%s: inverse %s", what, MatString(Xi))
	c.True("inverse-pure", gx() && gy() && SameValues(Xv, Xs) && SameValues(Yv, Ys), "%s: InverseTransform changed its arguments", what)
	if s.RandomState != nil {
		s2 := preprocessing.NewShuffler()
		s2.RandomState = base.NewSource(seed)
		s2.Fit(X, Y)
		Xs2, _ := s2.Transform(X, Y)
		c.True("seeded", SameValues(Xs, Xs2), "%s: same seed, other order", what)
	}
	Xn, _ := s.Transform(X, nil)
	c.True("nil-y", SameValues(Xn, Xs), "%s: without Y", what)
	c.Sig("%d %v %x", n, s.Perm, Hash(X))
}

func ppFunction(c *C) {
	X := c.RandMat(3, 2, KGauss)
	Y := c.RandMat(3, 1, KGauss)
	double := func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
		return byCol(X, func(j int, v float64) float64 { return 2 * v }), byCol(Y, func(j int, v float64) float64 { return v + 1 })
	}
	half := func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
		return byCol(X, func(j int, v float64) float64 { return v / 2 }), byCol(Y, func(j int, v float64) float64 { return v - 1 })
	}
	ft := preprocessing.NewFunctionTransformer(double, half)
	T, Ty := ft.FitTransform(c.layout(X), c.layout(Y))
	wx, wy := double(X, Y)
	c.True("transform", SameValues(T, wx) && SameValues(Ty, wy), "FunctionTransformer does not apply its function")
	I, Iy := ft.InverseTransform(T, Ty)
	c.NearMat("inverse", I, X, 1e-12, "FunctionTransformer inverse")
	c.NearMat("inverse", Iy, Y, 1e-12, "FunctionTransformer inverse")
	c.Sig("%x", Hash(X))
}
