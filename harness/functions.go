package main

import (
	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/gaussian_process/kernels"
	"github.com/pa-m/sklearn/interpolate"
	linearmodel "github.com/pa-m/sklearn/linear_model"
	"github.com/pa-m/sklearn/metrics"
	modelselection "github.com/pa-m/sklearn/model_selection"
	"github.com/pa-m/sklearn/neighbors"
	"github.com/pa-m/sklearn/preprocessing"
	"gonum.org/v1/gonum/mat"
	"math"
)

// fnCall is a call of a function of the library with given inputs.
type fnCall struct {
	ms   []*mat.Dense
	any  []bool // the parameter is a mat.Matrix, not a *mat.Dense
	sl   [][]float64
	call func(ms []mat.Matrix, sl [][]float64) []*mat.Dense
	tol  float64
}

type function struct {
	name string
	make func(c *C) *fnCall
}

func dn(m mat.Matrix) *mat.Dense {
	if m == nil {
		return nil
	}
	return m.(*mat.Dense)
}

func scalar(v ...float64) *mat.Dense { return vec(v) }

// classes gives a column of k classes that all appear.
func (c *C) classes(n, k int) *mat.Dense {
	Y := mat.NewDense(n, 1, nil)
	for i := 0; i < n; i++ {
		Y.Set(i, 0, float64(c.Intn(k)))
		if i < k {
			Y.Set(i, 0, float64(i))
		}
	}
	return Y
}

func (c *C) posWeights(n int) []float64 {
	w := make([]float64, n)
	for i := range w {
		w[i] = .1 + c.Float64()
	}
	return w
}

// rowVec gives a row as a vector of the representation of m.
func rowVec(m mat.Matrix, i int) mat.Vector {
	switch v := m.(type) {
	case *mat.Dense:
		return v.RowView(i)
	case mat.Transpose:
		if d, ok := v.Matrix.(*mat.Dense); ok {
			return d.ColView(i)
		}
	}
	return mat.NewVecDense(mat.DenseCopyOf(m).RawMatrix().Cols, mat.Row(nil, i, m))
}

func functions() []function {
	var list []function
	add := func(name string, mk func(c *C) *fnCall) { list = append(list, function{name, mk}) }
	type regf = func(yTrue, yPred mat.Matrix, sampleWeight *mat.Dense, multioutput string) *mat.Dense
	for name, f := range map[string]regf{"R2Score": metrics.R2Score, "MeanSquaredError": metrics.MeanSquaredError, "MeanAbsoluteError": metrics.MeanAbsoluteError} {
		name, f := name, f
		add(name, func(c *C) *fnCall {
			n, o := 2+c.Intn(12), 1+c.Intn(3)
			mo := []string{"raw_values", "uniform_average", "variance_weighted"}[c.Intn(2+b2i(name == "R2Score"))]
			fc := &fnCall{ms: []*mat.Dense{c.RandMat(n, o, KGauss), c.RandMat(n, o, KGauss)}, any: []bool{true, true, false}, tol: 1e-12}
			if c.Intn(2) == 0 {
				fc.ms = append(fc.ms, mat.NewDense(n, 1, c.posWeights(n)))
			} else {
				fc.ms = append(fc.ms, nil)
			}
			fc.call = func(ms []mat.Matrix, _ [][]float64) []*mat.Dense {
				return []*mat.Dense{f(ms[0], ms[1], dn(ms[2]), mo)}
			}
			return fc
		})
	}
	add("AccuracyScore", func(c *C) *fnCall {
		n, o := 1+c.Intn(20), 1+c.Intn(2)
		A, B := mat.NewDense(n, o, nil), mat.NewDense(n, o, nil)
		f := func(_, _ int, _ float64) float64 { return float64(c.Intn(3)) }
		A.Apply(f, A)
		B.Apply(f, B)
		fc := &fnCall{ms: []*mat.Dense{A, B, nil}, any: []bool{true, true, false}, tol: 1e-12}
		if c.Intn(2) == 0 {
			fc.ms[2] = mat.NewDense(n, 1, c.posWeights(n))
		}
		no := c.Intn(2) == 0
		fc.call = func(ms []mat.Matrix, _ [][]float64) []*mat.Dense {
			return []*mat.Dense{scalar(metrics.AccuracyScore(ms[0], ms[1], no, dn(ms[2])))}
		}
		return fc
	})
	clf := func(name string, f func(Y, P *mat.Dense, av string, w []float64) []*mat.Dense) {
		add(name, func(c *C) *fnCall {
			n, k := 4+c.Intn(20), 2+c.Intn(2)
			av := []string{"macro", "micro", "weighted"}[c.Intn(3)]
			fc := &fnCall{ms: []*mat.Dense{c.classes(n, k), c.classes(n, k)}, any: []bool{false, false}, sl: [][]float64{nil}, tol: 1e-12}
			if c.Intn(2) == 0 {
				fc.sl[0] = c.posWeights(n)
			}
			fc.call = func(ms []mat.Matrix, sl [][]float64) []*mat.Dense { return f(dn(ms[0]), dn(ms[1]), av, sl[0]) }
			return fc
		})
	}
	clf("PrecisionScore", func(Y, P *mat.Dense, av string, w []float64) []*mat.Dense {
		return []*mat.Dense{scalar(metrics.PrecisionScore(Y, P, av, w), metrics.RecallScore(Y, P, av, w), metrics.F1Score(Y, P, av, w), metrics.FBetaScore(Y, P, 2, av, w))}
	})
	clf("ConfusionMatrix", func(Y, P *mat.Dense, av string, w []float64) []*mat.Dense {
		return []*mat.Dense{metrics.ConfusionMatrix(Y, P, w)}
	})
	add("ranking", func(c *C) *fnCall {
		n := 4 + c.Intn(20)
		S := c.RandMat(n, 1, KGauss)
		if c.Intn(2) == 0 {
			S = c.RandMat(n, 1, KInt)
		}
		fc := &fnCall{ms: []*mat.Dense{c.classes(n, 2), S}, any: []bool{false, false}, sl: [][]float64{nil}, tol: 1e-12}
		if c.Intn(2) == 0 {
			fc.sl[0] = c.posWeights(n)
		}
		fc.call = func(ms []mat.Matrix, sl [][]float64) []*mat.Dense {
			Y, S := dn(ms[0]), dn(ms[1])
			fpr, tpr, th := metrics.ROCCurve(Y, S, 1, sl[0])
			pr, re, th2 := metrics.PrecisionRecallCurve(Y, S, 1, sl[0])
			return []*mat.Dense{vec(fpr), vec(tpr), vec(th[1:]), vec(pr), vec(re), vec(th2), scalar(metrics.AUC(fpr, tpr)),
				scalar(metrics.ROCAUCScore(Y, S, "macro", sl[0]), metrics.AveragePrecisionScore(Y, S, "macro", sl[0]))}
		}
		return fc
	})
	add("moments", func(c *C) *fnCall {
		n, p := 2+c.Intn(30), 1+c.Intn(6)
		if c.Intn(5) == 0 {
			n, p = 2+c.Intn(300), 1+c.Intn(40)
		}
		fc := &fnCall{ms: []*mat.Dense{c.RandMat(n, p, c.Intn(nKinds))}, any: []bool{true}, tol: 1e-9}
		fc.call = func(ms []mat.Matrix, _ [][]float64) []*mat.Dense {
			X := ms[0]
			me, sd := preprocessing.MeanStdDev(X)
			dm := mat.NewDense(1, p, nil)
			preprocessing.DenseMean(dm, X)
			return []*mat.Dense{me, sd, preprocessing.Mean(X), preprocessing.NumpyLike{}.Var(X), preprocessing.NumpyLike{}.Std(X), dm}
		}
		return fc
	})
	add("Scale", func(c *C) *fnCall {
		fc := &fnCall{ms: []*mat.Dense{c.RandMat(3+c.Intn(20), 1+c.Intn(4), KGauss)}, any: []bool{false}, tol: 1e-9}
		fc.call = func(ms []mat.Matrix, _ [][]float64) []*mat.Dense { return []*mat.Dense{preprocessing.Scale(dn(ms[0]))} }
		return fc
	})
	add("IncrementalMeanAndVar", func(c *C) *fnCall {
		n, p := 2+c.Intn(20), 1+c.Intn(4)
		V := c.RandMat(1, p, KGauss)
		V.MulElem(V, V)
		k := 1 + c.Intn(20)
		fc := &fnCall{ms: []*mat.Dense{c.RandMat(n, p, KGauss), c.RandMat(1, p, KGauss), V}, any: []bool{false, false, false}, tol: 1e-9}
		fc.call = func(ms []mat.Matrix, _ [][]float64) []*mat.Dense {
			m, v, cnt := preprocessing.IncrementalMeanAndVar(dn(ms[0]), dn(ms[1]), dn(ms[2]), k)
			return []*mat.Dense{m, v, scalar(float64(cnt))}
		}
		return fc
	})
	add("PreprocessData", func(c *C) *fnCall {
		n, p, o := 3+c.Intn(20), 1+c.Intn(4), 1+c.Intn(3)
		fi, no := c.Intn(2) == 0, c.Intn(2) == 0
		fc := &fnCall{ms: []*mat.Dense{c.RandMat(n, p, KGauss), c.RandMat(n, o, KGauss)}, any: []bool{false, false}, sl: [][]float64{nil}, tol: 1e-9}
		if c.Intn(2) == 0 {
			fc.sl[0] = c.posWeights(n)
		}
		fc.call = func(ms []mat.Matrix, sl [][]float64) []*mat.Dense {
			var w *mat.VecDense
			if sl[0] != nil {
				w = mat.NewVecDense(n, sl[0])
			}
			a, b, d, e, f := linearmodel.PreprocessData(dn(ms[0]), dn(ms[1]), fi, no, w)
			return []*mat.Dense{a, b, d, e, f}
		}
		return fc
	})
	add("EnetPath", func(c *C) *fnCall {
		n, p, o := 8+c.Intn(20), 1+c.Intn(4), 1+c.Intn(2)
		l1, pos := []float64{.3, .7, 1}[c.Intn(3)], c.Intn(3) == 0
		var al []float64
		if c.Intn(2) == 0 {
			al = []float64{.1, 1, .5}
		}
		fc := &fnCall{ms: []*mat.Dense{c.RandMat(n, p, KGauss), c.RandMat(n, o, KGauss)}, any: []bool{false, false}, sl: [][]float64{al}, tol: 1e-3}
		fc.call = func(ms []mat.Matrix, sl [][]float64) []*mat.Dense {
			var pa *[]float64
			if sl[0] != nil {
				pa = &sl[0]
			}
			a, co, _, _ := linearmodel.EnetPath(dn(ms[0]), dn(ms[1]), l1, 1e-2, 5, pa, false, pos)
			out := []*mat.Dense{vec(a)}
			return append(out, co...)
		}
		return fc
	})
	add("LassoPath", func(c *C) *fnCall {
		n, p := 8+c.Intn(20), 1+c.Intn(4)
		fc := &fnCall{ms: []*mat.Dense{c.RandMat(n, p, KGauss), c.RandMat(n, 1, KGauss)}, any: []bool{false, false}, tol: 1e-3}
		fc.call = func(ms []mat.Matrix, sl [][]float64) []*mat.Dense {
			a, co, _, _ := linearmodel.LassoPath(dn(ms[0]), dn(ms[1]), 1e-2, 5, nil, false, false)
			out := []*mat.Dense{vec(a)}
			return append(out, co...)
		}
		return fc
	})
	for name, f := range map[string]linearmodel.Loss{"SquareLoss": linearmodel.SquareLoss, "LogLoss": linearmodel.LogLoss, "CrossEntropyLoss": linearmodel.CrossEntropyLoss} {
		name, f := name, f
		add(name, func(c *C) *fnCall {
			n, p, o := 3+c.Intn(20), 1+c.Intn(4), 1+c.Intn(3)
			Y := c.RandMat(n, o, KGauss)
			if name != "SquareLoss" {
				Y.Apply(func(_, _ int, _ float64) float64 { return float64(c.Intn(2)) }, Y)
			}
			al, l1 := c.Float64(), c.Float64()
			fc := &fnCall{ms: []*mat.Dense{Y, c.RandMat(n, p, KGauss), c.RandMat(p, o, KGauss)}, any: []bool{true, true, false}, tol: 1e-9}
			fc.call = func(ms []mat.Matrix, sl [][]float64) []*mat.Dense {
				yp, yd, g := mat.NewDense(n, o, nil), mat.NewDense(n, o, nil), mat.NewDense(p, o, nil)
				J := f(ms[0], ms[1], dn(ms[2]), yp, yd, g, al, l1, n, base.Sigmoid{}, false)
				return []*mat.Dense{yp, g, scalar(J)}
			}
			return fc
		})
	}
	add("LinFitGOM", func(c *C) *fnCall {
		n, p, o := 8+c.Intn(20), 1+c.Intn(4), 1+c.Intn(3)
		fc := &fnCall{ms: []*mat.Dense{c.RandMat(n, p, KGauss), c.RandMat(n, o, KGauss)}, any: []bool{false, false}, tol: 1e-3}
		fc.call = func(ms []mat.Matrix, sl [][]float64) []*mat.Dense {
			r := linearmodel.LinFit(dn(ms[0]), dn(ms[1]), &linearmodel.LinFitOptions{Alpha: .5})
			return []*mat.Dense{r.Theta}
		}
		return fc
	})
	add("KDTree", func(c *C) *fnCall {
		n, q, p, k := 5+c.Intn(40), 1+c.Intn(10), 1+c.Intn(4), 1+c.Intn(5)
		if c.Intn(5) == 0 {
			n, q = 500, 100
		}
		fc := &fnCall{ms: []*mat.Dense{c.RandMat(n, p, KGauss), c.RandMat(q, p, KGauss)}, any: []bool{true, true}, tol: 1e-12}
		leaf := 1 + c.Intn(6)
		fc.call = func(ms []mat.Matrix, sl [][]float64) []*mat.Dense {
			t := neighbors.NewKDTree(ms[0], leaf)
			d, i := t.Query(ms[1], k, 0, 2, 1e300)
			return []*mat.Dense{d, i}
		}
		return fc
	})
	add("distances", func(c *C) *fnCall {
		p := 1 + c.Intn(5)
		fc := &fnCall{ms: []*mat.Dense{c.RandMat(2, p, KGauss), c.RandMat(2, p, KGauss)}, any: []bool{true, true}, tol: 1e-12}
		fc.call = func(ms []mat.Matrix, sl [][]float64) []*mat.Dense {
			var out []float64
			for i := 0; i < 2; i++ {
				a, b := rowVec(ms[0], i), rowVec(ms[1], i)
				out = append(out, neighbors.EuclideanDistance(a, b), neighbors.CosineDistance(a, b), neighbors.MinkowskiDistance(1)(a, b), neighbors.MinkowskiDistanceP(a, b, 3), neighbors.MinkowskiDistance(2)(a, b))
			}
			return []*mat.Dense{vec(out)}
		}
		return fc
	})
	add("TrainTestSplit", func(c *C) *fnCall {
		n, p, o := 4+c.Intn(30), 1+c.Intn(4), 1+c.Intn(2)
		seed, ts := uint64(c.Intn(1000)), .2+.5*c.Float64()
		fc := &fnCall{ms: []*mat.Dense{c.RandMat(n, p, KGauss), c.RandMat(n, o, KGauss)}, any: []bool{true, true}}
		fc.call = func(ms []mat.Matrix, sl [][]float64) []*mat.Dense {
			a, b, d, e := modelselection.TrainTestSplit(ms[0], ms[1], ts, seed)
			return []*mat.Dense{a, b, d, e}
		}
		return fc
	})
	add("KFold", func(c *C) *fnCall {
		n, p := 6+c.Intn(30), 1+c.Intn(3)
		k, sh, sk, seed := 2+c.Intn(n-1), c.Intn(2) == 0, c.Intn(2), uint64(c.Intn(1000))
		fc := &fnCall{ms: []*mat.Dense{c.RandMat(n, p, KGauss), c.RandMat(n, 1, KGauss)}, any: []bool{false, false}}
		fc.call = func(ms []mat.Matrix, sl [][]float64) (out []*mat.Dense) {
			kf := &modelselection.KFold{NSplits: k, Shuffle: sh, RandomState: newSrc(sk, seed)}
			for s := range kf.Split(dn(ms[0]), dn(ms[1])) {
				out = append(out, vecInt(s.TrainIndex), vecInt(s.TestIndex))
			}
			return
		}
		return fc
	})
	add("CrossValidate", func(c *C) *fnCall {
		n, p, o := 9+c.Intn(20), 1+c.Intn(3), 1+c.Intn(2)
		sk, seed, jobs := c.Intn(2), uint64(c.Intn(1000)), c.Intn(5)-1
		knn, splits := c.Intn(2) == 0, []int{2, 3, 3, 4, 2 + c.Intn(8)}[c.Intn(5)]
		fc := &fnCall{ms: []*mat.Dense{c.RandMat(n, p, KGauss), c.RandMat(n, o, KGauss), c.RandMat(3, p, KGauss)}, any: []bool{false, false, true}, tol: 1e-7}
		fc.call = func(ms []mat.Matrix, sl [][]float64) []*mat.Dense {
			var est base.Predicter = linearmodel.NewLinearRegression()
			if knn {
				est = neighbors.NewKNeighborsRegressor(2, "distance")
			}
			kf := &modelselection.KFold{NSplits: splits, Shuffle: true, RandomState: newSrc(sk, seed)}
			r := modelselection.CrossValidate(est, dn(ms[0]), dn(ms[1]), nil, negMSE, kf, jobs)
			out := []*mat.Dense{vec(r.TestScore)}
			for _, e := range r.Estimator {
				out = append(out, e.Predict(ms[2], nil))
			}
			return out
		}
		return fc
	})
	add("kernels", func(c *C) *fnCall {
		n, q, p := 2+c.Intn(8), 1+c.Intn(6), 1+c.Intn(4)
		ls := make([]float64, p)
		bounds := make([][2]float64, p)
		for i := range ls {
			ls[i] = .3 + c.Float64()
			bounds[i] = [2]float64{1e-5, 1e5}
		}
		fc := &fnCall{ms: []*mat.Dense{c.RandMat(n, p, KGauss), c.RandMat(q, p, KGauss)}, any: []bool{true, true}, tol: 1e-9}
		which := c.Intn(5)
		fc.call = func(ms []mat.Matrix, sl [][]float64) []*mat.Dense {
			var k kernels.Kernel = &kernels.RBF{LengthScale: ls, LengthScaleBounds: bounds}
			switch which {
			case 1:
				k = &kernels.DotProduct{Sigma0: .7}
			case 2:
				k = &kernels.Sum{KernelOperator: kernels.KernelOperator{K1: k, K2: &kernels.WhiteKernel{NoiseLevel: .3}}}
			case 3:
				k = &kernels.Product{KernelOperator: kernels.KernelOperator{K1: k, K2: &kernels.ConstantKernel{ConstantValue: .3}}}
			case 4:
				k = &kernels.Exponentiation{Kernel: k, Exponent: 2}
			}
			a, _ := k.Eval(ms[0], ms[1], false)
			b, _ := k.Eval(ms[0], nil, false)
			return []*mat.Dense{a, b}
		}
		return fc
	})
	add("sharedKernel", func(c *C) *fnCall {
		n, p := 1+c.Intn(10), 1+c.Intn(3)
		ref := c.kernelTree(c.Intn(4), p, true)
		k := ref.real() // one kernel, used by all calls
		fc := &fnCall{ms: []*mat.Dense{c.RandMat(n, p, KGauss), c.RandMat(1+c.Intn(6), p, KGauss)}, any: []bool{true, true}}
		fc.call = func(ms []mat.Matrix, sl [][]float64) []*mat.Dense {
			a, _ := k.Eval(ms[0], ms[1], false)
			b, g := k.Eval(ms[0], nil, true)
			out := []*mat.Dense{a, b}
			if vals, _ := ref.free(); len(vals) > 0 {
				m := mat.NewDense(n*n, len(vals), nil)
				for i := 0; i < n*n; i++ {
					for l := range vals {
						v, _ := g.At(i/n, i%n, l)
						m.Set(i, l, v.(float64))
					}
				}
				out = append(out, m, mat.DenseCopyOf(k.Theta()))
			}
			return append(out, mat.DenseCopyOf(k.Diag(ms[0])))
		}
		return fc
	})
	add("interpolants", func(c *C) *fnCall {
		n := 2 + c.Intn(30)
		fc := &fnCall{sl: [][]float64{c.knots(n), make([]float64, n), c.probes(c.knots(n))}}
		for i := range fc.sl[1] {
			fc.sl[1][i] = c.NormFloat64()
		}
		shuffled(c, fc.sl[0], fc.sl[1])
		x, y := fc.sl[0], fc.sl[1]
		var gx, gy []float64
		for i := range x {
			gx, gy = append(gx, x[i], x[i]), append(gy, -1, 2)
		}
		// one interpolant of each kind, used by all calls
		fs := []func(float64) float64{interpolate.Interp1d(x, y), interpolate.CubicSpline(x, y)}
		z := append(append([]float64{}, y...), y...)
		g := interpolate.Interp2d(gx, gy, z)
		fs = append(fs, func(v float64) float64 { return g(v, math.Sin(v)) })
		fc.call = func(ms []mat.Matrix, sl [][]float64) (out []*mat.Dense) {
			for _, f := range append(fs, interpolate.Interp1d(sl[0], sl[1]), interpolate.CubicSpline(sl[0], sl[1])) {
				v := mat.NewDense(1, len(sl[2]), nil)
				for j, t := range sl[2] {
					v.Set(0, j, f(t))
				}
				out = append(out, v)
			}
			return
		}
		return fc
	})
	add("FromDense", func(c *C) *fnCall {
		n, p := 1+c.Intn(8), 1+c.Intn(5)
		fc := &fnCall{ms: []*mat.Dense{c.RandMat(n, p, KGauss)}, any: []bool{true}}
		fc.call = func(ms []mat.Matrix, sl [][]float64) []*mat.Dense {
			d := mat.NewDense(n, p, nil)
			base.FromDense(d, base.ToDense(ms[0]))
			return []*mat.Dense{base.ToDense(ms[0]), d}
		}
		return fc
	})
	// maps have no order: sort for reproducible case numbers
	for i := range list {
		for j := i + 1; j < len(list); j++ {
			if list[j].name < list[i].name {
				list[i], list[j] = list[j], list[i]
			}
		}
	}
	return list
}
