package main

import (
	"fmt"
	"math"
	"reflect"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/cluster"
	gaussianprocess "github.com/pa-m/sklearn/gaussian_process"
	"github.com/pa-m/sklearn/gaussian_process/kernels"
	linearmodel "github.com/pa-m/sklearn/linear_model"
	"github.com/pa-m/sklearn/metrics"
	modelselection "github.com/pa-m/sklearn/model_selection"
	nb "github.com/pa-m/sklearn/naive_bayes"
	"github.com/pa-m/sklearn/neighbors"
	nn "github.com/pa-m/sklearn/neural_network"
	"github.com/pa-m/sklearn/pipeline"
	"github.com/pa-m/sklearn/preprocessing"
	"github.com/pa-m/sklearn/svm"
	"gonum.org/v1/gonum/mat"
)

// The subjects are all the estimators and transformers of the library, with random settings.
// The monitors of C02 to C06 run the same workloads on all of them.

// Kinds of data a subject is trained with.
const (
	DReg1  = iota // one target
	DRegN         // several targets
	DClf2         // two classes 0 and 1
	DClf          // classes in one column
	DClfN         // classes in several columns
	DUnsup        // no target
	DInts         // small integers in X, no target
	DPos          // positive values in X, no target
	DLabel        // labels in Y are transformed
	DKern         // X is a kernel matrix
	DHoles        // X has missing values
)

type dataset struct {
	X, Y   *mat.Dense // training data, Y may be nil
	Q, QY  *mat.Dense // queries
	kind   int
	labels []float64
}

// Inst is an estimator with its settings.
type Inst struct {
	Name string
	Kind int
	// New gives a new object with these settings and a new random source
	New func() base.Fiter
	// Reseed gives est the random source that New gives
	Reseed func(est base.Fiter)
	// Jobs sets the number of workers
	Jobs func(est base.Fiter, n int)
	// More gives other results of a fitted object
	More func(est base.Fiter, d *dataset, Q mat.Matrix) []*mat.Dense
	// tolerance for results computed from another representation, 0 for exact
	Tol float64
	// NoRefit: refit continues, as documented
	Small bool
	// results vary from run to run within this tolerance (unseeded start)
	Noise float64
	// the transformer applies to the training data only
	SelfOnly bool
	slow     bool
	// clones agree within this tolerance only (settings kept as logarithms)
	CloneTol float64
	// costs grow too fast for larger data
	heavy bool
	// Attrs: results include the exported attributes
	Attrs bool
	// Prep sets what depends on the training data
	Prep func(est base.Fiter, d *dataset)
}

func (c *C) dataset(kind int, big bool) *dataset {
	d := &dataset{kind: kind}
	p := 1 + c.Intn(4)
	if c.Intn(10) == 0 {
		p = 5 + c.Intn(4)
	}
	n := 10 + c.Intn(25)
	q := 1 + c.Intn(12)
	if big && c.Intn(8) == 0 {
		n, q = 100+c.Intn(400), 20+c.Intn(100)
		if c.Intn(3) == 0 {
			n, q = q, n
		}
	}
	d.X, d.Q = c.RandMat(n, p, KGauss), c.RandMat(q, p, KGauss)
	if c.Intn(3) == 0 {
		scale := math.Pow(10, float64(c.Intn(4)-2))
		d.X.Scale(scale, d.X)
		d.Q.Scale(scale, d.Q)
	}
	o := 1
	if kind == DRegN || kind == DClfN || kind == DLabel {
		o = 1 + c.Intn(3)
		if c.Intn(10) == 0 {
			o = 4 + c.Intn(5)
		}
	}
	switch kind {
	case DReg1, DRegN:
		W := c.RandMat(p, o, KGauss)
		f := func(X *mat.Dense) *mat.Dense {
			Y := &mat.Dense{}
			Y.Mul(X, W)
			Y.Apply(func(i, j int, v float64) float64 { return v + .3*c.NormFloat64() + float64(j) }, Y)
			return Y
		}
		d.Y, d.QY = f(d.X), f(d.Q)
	case DClf2, DClf, DClfN, DLabel:
		k := 2
		if kind != DClf2 {
			k = 2 + c.Intn(3)
			if c.Intn(10) == 0 {
				k = 5 + c.Intn(6)
			}
		}
		d.labels = make([]float64, k)
		off := 0.
		if kind != DClf2 && c.Intn(2) == 0 {
			off = float64(c.Intn(7) - 3)
		}
		for i := range d.labels {
			d.labels[i] = float64(i) + off
		}
		f := func(X *mat.Dense, shift bool) *mat.Dense {
			r, _ := X.Dims()
			Y := mat.NewDense(r, o, nil)
			for i := 0; i < r; i++ {
				for j := 0; j < o; j++ {
					cl := c.Intn(k)
					if shift && i < k {
						cl = i
					}
					Y.Set(i, j, d.labels[cl])
					X.Set(i, (cl+j)%p, X.At(i, (cl+j)%p)+2*float64(cl))
				}
			}
			return Y
		}
		d.Y, d.QY = f(d.X, true), f(d.Q, false)
	case DInts:
		rows, _ := d.X.Dims()
		k := 4
		if c.Intn(3) == 0 {
			k = 1 + c.Intn(min(rows, 40))
		}
		f := func(_, _ int, v float64) float64 { return float64(c.Intn(k)) }
		d.X.Apply(f, d.X)
		for i := 0; i < k; i++ { // all values are known
			for j := 0; j < p; j++ {
				d.X.Set(i, j, float64(i))
			}
		}
		d.Q.Apply(f, d.Q)
	case DPos:
		f := func(_, _ int, v float64) float64 { return .1 + math.Abs(v) }
		d.X.Apply(f, d.X)
		d.Q.Apply(f, d.Q)
	case DKern:
		K, KQ := &mat.Dense{}, &mat.Dense{}
		K.Mul(d.X, d.X.T())
		KQ.Mul(d.Q, d.X.T())
		d.X, d.Q = K, KQ
	case DHoles:
		f := func(i, _ int, v float64) float64 {
			if i > 1 && c.Intn(6) == 0 {
				return math.NaN()
			}
			return v
		}
		d.X.Apply(f, d.X)
		d.Q.Apply(f, d.Q)
	}
	return d
}

func matOrNil(m *mat.Dense) mat.Matrix {
	if m == nil {
		return nil
	}
	return m
}

// vec gives a slice as a column.
func vec(v []float64) *mat.Dense {
	if len(v) == 0 {
		return &mat.Dense{}
	}
	return mat.NewDense(len(v), 1, append([]float64(nil), v...))
}

func vecInt(v []int) *mat.Dense {
	x := make([]float64, len(v))
	for i := range v {
		x[i] = float64(v[i])
	}
	return vec(x)
}

// fingerprint gives the results of a fitted object on the queries.
func (in *Inst) fingerprint(est base.Fiter, d *dataset, Q, QY mat.Matrix) (out []*mat.Dense, names []string) {
	add := func(name string, m *mat.Dense) {
		if m == nil {
			m = &mat.Dense{}
		}
		out, names = append(out, copyOfDense(m)), append(names, name)
	}
	if pr, ok := est.(base.Predicter); ok {
		if Q != nil {
			add("Predict", pr.Predict(Q, nil))
			if QY != nil && d.kind != DUnsup {
				add("Score", mat.NewDense(1, 1, []float64{pr.Score(Q, QY)}))
			}
		}
		add("GetNOutputs", mat.NewDense(1, 1, []float64{float64(pr.GetNOutputs())}))
	} else if tr, ok := est.(base.Transformer); ok {
		Xo, Yo := tr.Transform(Q, QY)
		add("Transform X", Xo)
		add("Transform Y", Yo)
		if inv, ok := est.(preprocessing.InverseTransformer); ok && !in.skipInverse() {
			var a, b *mat.Dense
			if Xo != nil && !Xo.IsEmpty() {
				a = copyOfDense(Xo)
			}
			if Yo != nil && !Yo.IsEmpty() {
				b = copyOfDense(Yo)
			}
			Xi, Yi := inv.InverseTransform(a, b)
			add("InverseTransform X", Xi)
			add("InverseTransform Y", Yi)
		}
	}
	if in.More != nil {
		for i, m := range in.More(est, d, Q) {
			add(fmt.Sprintf("result %d", i), m)
		}
	}
	if in.Attrs {
		attributes("", reflect.ValueOf(est), add)
	}
	return
}

// attributes lists the exported lists and matrices of an object.
func attributes(prefix string, v reflect.Value, add func(name string, m *mat.Dense)) {
	for v.Kind() == reflect.Ptr && !v.IsNil() {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return
	}
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue // not exported
		}
		if f.Anonymous {
			attributes(prefix, v.Field(i), add)
			continue
		}
		name := "attribute " + prefix + f.Name
		switch x := v.Field(i).Interface().(type) {
		case []float64:
			add(name, vec(x))
		case []int:
			add(name, vecInt(x))
		case [][]float64:
			for j := range x {
				add(fmt.Sprintf("%s[%d]", name, j), vec(x[j]))
			}
		case [][]int:
			for j := range x {
				add(fmt.Sprintf("%s[%d]", name, j), vecInt(x[j]))
			}
		case *mat.Dense:
			add(name, x)
		}
	}
}

// partial fits est with more data of the shape of the data it was fitted with; it tells whether est can.
func (in *Inst) partial(est base.Fiter, d *dataset) bool {
	X := copyOfDense(d.X)
	X.Apply(func(i, j int, v float64) float64 { return 3*v + float64(j) - 1 }, X)
	switch e := est.(type) {
	case *preprocessing.MinMaxScaler:
		e.PartialFit(X, nil)
	case *preprocessing.StandardScaler:
		e.PartialFit(X, nil)
	case *preprocessing.MaxAbsScaler:
		e.PartialFit(X, nil)
	case *preprocessing.RobustScaler:
		e.PartialFit(X, nil)
	case *preprocessing.LabelEncoder:
		Y := copyOfDense(d.Y)
		Y.Apply(func(i, j int, v float64) float64 { return v + float64(i%3) + .5*float64(i%2) }, Y)
		e.PartialFit(nil, Y)
	case *nb.GaussianNB:
		e.PartialFit(X, d.Y, e.Classes, false, e.SampleWeight)
	case *nn.MLPRegressor:
		e.WarmStart = true
		e.Fit(X, d.Y)
	case *nn.MLPClassifier:
		e.WarmStart = true
		e.Fit(X, d.Y)
	default:
		return false
	}
	return true
}

func (in *Inst) skipInverse() bool {
	switch in.Name {
	case "PolynomialFeatures", "Binarizer", "KernelCenterer", "Imputer", "Normalizer":
		return true
	}
	return false
}

func copyOfDense(m *mat.Dense) *mat.Dense {
	if m == nil || m.IsEmpty() {
		return &mat.Dense{}
	}
	return mat.DenseCopyOf(m)
}

// sameOut compares two lists of results.
func sameOut(a, b []*mat.Dense, names []string, tol float64) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d results, want %d", len(a), len(b))
	}
	for i := range a {
		name := ""
		if i < len(names) {
			name = names[i]
		}
		if tol == 0 {
			if !SameValues(a[i], b[i]) {
				return fmt.Sprintf("%s: %s", name, orText(DiffMat(a[i], b[i], 0), "differs"))
			}
			continue
		}
		if df := DiffMat(a[i], b[i], tol*(1+absMax(b[i]))); df != "" {
			return fmt.Sprintf("%s: %s", name, df)
		}
	}
	return ""
}

func absMax(m *mat.Dense) float64 {
	s := 0.
	r, k := m.Dims()
	for i := 0; i < r; i++ {
		for j := 0; j < k; j++ {
			if v := math.Abs(m.At(i, j)); v > s && !math.IsInf(v, 0) {
				s = v
			}
		}
	}
	return s
}

func orText(s, alt string) string {
	if s == "" {
		return alt
	}
	return s
}

// layers draws the sizes of hidden layers.
func (c *C) layers() []int {
	h := []int{1 + c.Intn(4)}
	for c.Intn(3) == 0 && len(h) < 4 {
		h = append(h, 1+c.Intn(5))
	}
	return h
}

type subject struct {
	name string
	make func(c *C) *Inst
}

func accuracy(Ytrue, Ypred mat.Matrix) float64 {
	return metrics.AccuracyScore(Ytrue, Ypred, true, nil)
}
func negMSE(Ytrue, Ypred mat.Matrix) float64 {
	return -metrics.MeanSquaredError(Ytrue, Ypred, nil, "").At(0, 0)
}

// a source of random numbers with a seed: the three kinds a user may pass.
func newSrc(kind int, seed uint64) base.Source {
	if kind == 0 {
		return base.NewLockedSource(seed)
	}
	return base.NewSource(seed)
}

func subjects() []subject {
	lin := func(name string, kind int, mk func(c *C) func() base.Fiter, tol float64) subject {
		return subject{name, func(c *C) *Inst {
			return &Inst{Name: name, Kind: kind, New: mk(c), Tol: tol}
		}}
	}
	list := []subject{
		lin("LinearRegression", DRegN, func(c *C) func() base.Fiter {
			fi, no := c.Intn(3) > 0, c.Intn(3) == 0
			return func() base.Fiter {
				m := linearmodel.NewLinearRegression()
				m.FitIntercept, m.Normalize = fi, no
				return m
			}
		}, 1e-8),
		{"Ridge", func(c *C) *Inst {
			alpha := []float64{.01, 1, 10}[c.Intn(3)]
			return &Inst{Name: "Ridge", Kind: DRegN, Tol: 1e-3, Noise: 1e-3, slow: true, New: func() base.Fiter {
				m := linearmodel.NewRidge()
				m.Alpha = alpha
				return m
			}}
		}},
		{"SGDRegressor", func(c *C) *Inst {
			alpha := []float64{.01, 1}[c.Intn(2)]
			return &Inst{Name: "SGDRegressor", Kind: DRegN, Tol: 1e-3, Noise: 1e-3, slow: true, New: func() base.Fiter {
				m := linearmodel.NewSGDRegressor()
				m.Alpha, m.L1Ratio = alpha, 0
				return m
			}, Jobs: func(e base.Fiter, n int) { e.(*linearmodel.SGDRegressor).NJobs = n }}
		}},
		{"BayesianRidge", func(c *C) *Inst {
			fi, cs, no := c.Intn(3) > 0, c.Intn(2) == 0, c.Intn(3) == 0
			return &Inst{Name: "BayesianRidge", Kind: DReg1, Tol: 1e-6, New: func() base.Fiter {
				m := linearmodel.NewBayesianRidge()
				m.FitIntercept, m.ComputeScore, m.Normalize = fi, cs, no
				return m
			}, More: func(e base.Fiter, d *dataset, Q mat.Matrix) []*mat.Dense {
				q, ok := Q.(*mat.Dense)
				if !ok {
					q = mat.DenseCopyOf(Q)
				}
				y, sd := &mat.Dense{}, &mat.Dense{}
				e.(*linearmodel.BayesianRidge).Predict2(q, y, sd)
				return []*mat.Dense{y, sd}
			}}
		}},
		lin("ElasticNet", DReg1, func(c *C) func() base.Fiter {
			alpha, l1, pos := []float64{.01, .1, .5}[c.Intn(3)], []float64{0.01, .5, 1}[c.Intn(3)], c.Intn(3) == 0
			fi, no, it, tol := c.Intn(4) > 0, c.Intn(4) == 0, []int{1, 2, 5, 1000, 1000, 1000}[c.Intn(6)], []float64{1e-4, 1e-4, 1e-2}[c.Intn(3)]
			return func() base.Fiter {
				m := linearmodel.NewElasticNet()
				m.Alpha, m.L1Ratio, m.Positive = alpha, l1, pos
				m.FitIntercept, m.Normalize, m.MaxIter, m.Tol = fi, no, it, tol
				return m
			}
		}, 1e-6),
		lin("Lasso", DReg1, func(c *C) func() base.Fiter {
			alpha := []float64{.01, .1, .5}[c.Intn(3)]
			return func() base.Fiter {
				m := linearmodel.NewLasso()
				m.Alpha = alpha
				return m
			}
		}, 1e-6),
		lin("MultiTaskElasticNet", DRegN, func(c *C) func() base.Fiter {
			alpha, l1 := []float64{.01, .1, .5}[c.Intn(3)], []float64{0.01, .5, 1}[c.Intn(3)]
			fi, no, it := c.Intn(4) > 0, c.Intn(4) == 0, []int{1, 2, 5, 1000, 1000, 1000}[c.Intn(6)]
			return func() base.Fiter {
				m := linearmodel.NewMultiTaskElasticNet()
				m.Alpha, m.L1Ratio = alpha, l1
				m.FitIntercept, m.Normalize, m.MaxIter = fi, no, it
				return m
			}
		}, 1e-6),
		lin("MultiTaskLasso", DRegN, func(c *C) func() base.Fiter {
			alpha := []float64{.01, .1, .5}[c.Intn(3)]
			return func() base.Fiter {
				m := linearmodel.NewMultiTaskLasso()
				m.Alpha = alpha
				return m
			}
		}, 1e-6),
		{"LogisticRegression", func(c *C) *Inst {
			alpha, iter, sk, seed := []float64{0, .01, .1}[c.Intn(3)], 5+c.Intn(30), c.Intn(2), uint64(c.Intn(1000))
			in := &Inst{Name: "LogisticRegression", Kind: DClf, heavy: true, Tol: 1e-4}
			in.Reseed = func(e base.Fiter) { e.(*linearmodel.LogisticRegression).RandomState = newSrc(sk, seed) }
			in.New = func() base.Fiter {
				m := linearmodel.NewLogisticRegression()
				m.Alpha, m.MaxIter = alpha, iter
				in.Reseed(m)
				return m
			}
			in.More = func(e base.Fiter, d *dataset, Q mat.Matrix) []*mat.Dense {
				m := e.(*linearmodel.LogisticRegression)
				return []*mat.Dense{m.PredictProbas(Q, nil), vec(m.Intercept)}
			}
			return in
		}},
		{"KMeans", func(c *C) *Inst {
			k := 1 + c.Intn(4)
			return &Inst{Name: "KMeans", Kind: DUnsup, Tol: 1e-12, New: func() base.Fiter {
				return &cluster.KMeans{NClusters: k}
			}, Jobs: func(e base.Fiter, n int) { e.(*cluster.KMeans).NJobs = n },
				More: func(e base.Fiter, d *dataset, Q mat.Matrix) []*mat.Dense {
					return []*mat.Dense{e.(*cluster.KMeans).Centroids}
				}}
		}},
		{"DBSCAN", func(c *C) *Inst {
			wt := c.Intn(3) == 0
			eps, ms, algo := .3+c.Float64(), float64(1+c.Intn(4)), []string{"auto", "brute", "kd_tree"}[c.Intn(3)]
			return &Inst{Name: "DBSCAN", Kind: DUnsup, Tol: 1e-12, New: func() base.Fiter {
				return cluster.NewDBSCAN(&cluster.DBSCANConfig{Eps: eps, MinSamples: ms, Algorithm: algo, Metric: "euclidean", P: 2, NJobs: -1, LeafSize: 5})
			}, Jobs: func(e base.Fiter, n int) { e.(*cluster.DBSCAN).NJobs = n },
				Prep: func(e base.Fiter, d *dataset) {
					e.(*cluster.DBSCAN).SampleWeight = nil
					if wt {
						e.(*cluster.DBSCAN).SampleWeight = d.weights()
					}
				},
				More: func(e base.Fiter, d *dataset, Q mat.Matrix) []*mat.Dense {
					m := e.(*cluster.DBSCAN)
					return []*mat.Dense{vecInt(m.Labels), vecInt(m.CoreSampleIndices)}
				}, SelfOnly: true}
		}},
		{"KNeighborsClassifier", func(c *C) *Inst {
			k, w, algo, sc := 1+c.Intn(5), []string{"uniform", "distance"}[c.Intn(2)], []string{"auto", "brute", "kd_tree"}[c.Intn(3)], c.Intn(3) == 0
			metric := []string{"euclidean", "euclidean", "manhattan", "minkowski"}[c.Intn(4)]
			return &Inst{Name: "KNeighborsClassifier", Kind: DClfN, Tol: 1e-9, New: func() base.Fiter {
				m := neighbors.NewKNeighborsClassifier(k, w)
				m.Algorithm, m.Scale, m.Metric, m.P = algo, sc, metric, 3
				return m
			}, Jobs: func(e base.Fiter, n int) { e.(*neighbors.KNeighborsClassifier).NJobs = n },
				More: func(e base.Fiter, d *dataset, Q mat.Matrix) []*mat.Dense {
					m := e.(*neighbors.KNeighborsClassifier)
					if len(m.Classes) > 1 {
						return nil
					}
					q, _ := Q.Dims()
					nc := 0
					for _, cl := range m.Classes {
						nc += len(cl)
					}
					P := mat.NewDense(q, nc, nil)
					m.PredictProba(base.ToDense(Q), P)
					return []*mat.Dense{P}
				}}
		}},
		{"KNeighborsRegressor", func(c *C) *Inst {
			k, w, algo, sc := 1+c.Intn(5), []string{"uniform", "distance"}[c.Intn(2)], []string{"auto", "brute", "kd_tree"}[c.Intn(3)], c.Intn(3) == 0
			metric := []string{"euclidean", "euclidean", "manhattan", "minkowski"}[c.Intn(4)]
			return &Inst{Name: "KNeighborsRegressor", Kind: DRegN, Tol: 1e-9, New: func() base.Fiter {
				m := neighbors.NewKNeighborsRegressor(k, w).(*neighbors.KNeighborsRegressor)
				m.Algorithm, m.Scale, m.Metric, m.P = algo, sc, metric, 3
				return m
			}, Jobs: func(e base.Fiter, n int) { e.(*neighbors.KNeighborsRegressor).NJobs = n }}
		}},
		{"PipelineGrid", func(c *C) *Inst {
			sk, seed := c.Intn(2), uint64(c.Intn(1000))
			in := &Inst{Name: "PipelineGrid", Kind: DClf, Tol: 1e-6, slow: true}
			in.Reseed = func(e base.Fiter) {
				g := e.(*pipeline.Pipeline).NamedSteps[1].Fiter.(*modelselection.GridSearchCV)
				g.RandomState = newSrc(sk, seed)
				g.CV = &modelselection.KFold{NSplits: 3, Shuffle: true, RandomState: newSrc(sk, seed+1)}
				e.(*pipeline.Pipeline).NamedSteps[0].Fiter.(*preprocessing.Shuffler).RandomState = newSrc(sk, seed+2)
			}
			in.New = func() base.Fiter {
				p := pipeline.MakePipeline(preprocessing.NewShuffler(), &modelselection.GridSearchCV{NJobs: 2,
					Estimator: neighbors.NewNearestCentroid("euclidean", 0),
					ParamGrid: map[string][]interface{}{"Metric": {"euclidean", "manhattan"}}, Scorer: accuracy})
				in.Reseed(p)
				return p
			}
			in.SelfOnly = true
			return in
		}},
		lin("NearestCentroid", DClf, func(c *C) func() base.Fiter {
			metric := []string{"euclidean", "manhattan"}[c.Intn(2)]
			return func() base.Fiter { return neighbors.NewNearestCentroid(metric, 0) }
		}, 1e-9),
		{"NearestNeighbors", func(c *C) *Inst {
			k, r, algo, metric := 1+c.Intn(5), .2+c.Float64(), []string{"auto", "brute", "kd_tree"}[c.Intn(3)], []string{"euclidean", "manhattan", "minkowski"}[c.Intn(3)]
			return &Inst{Name: "NearestNeighbors", Kind: DUnsup, Tol: 1e-12, New: func() base.Fiter {
				m := neighbors.NewNearestNeighbors()
				m.Algorithm, m.Metric, m.LeafSize = algo, metric, 3
				return &nnFiter{m}
			}, Jobs: func(e base.Fiter, n int) { e.(*nnFiter).NJobs = n },
				More: func(e base.Fiter, d *dataset, Q mat.Matrix) []*mat.Dense {
					m := e.(*nnFiter)
					dd, ii := m.KNeighbors(Q, k)
					g := m.KNeighborsGraph(base.ToDense(Q), k, "distance", true)
					dist, ind := m.RadiusNeighbors(base.ToDense(Q), r)
					var fl, fi []float64
					for i := range dist {
						fl = append(fl, dist[i]...)
						for _, x := range ind[i] {
							fi = append(fi, float64(x))
						}
					}
					return []*mat.Dense{dd, ii, g, vec(fl), vec(fi)}
				}}
		}},
		{"GaussianNB", func(c *C) *Inst {
			wt, pr, vs := c.Intn(2) == 0, c.Intn(2) == 0, []float64{1e-9, 1e-2}[c.Intn(2)]
			return &Inst{Name: "GaussianNB", Kind: DClf, Tol: 1e-9, New: func() base.Fiter { return nb.NewGaussianNB(nil, vs) },
				Prep: func(e base.Fiter, d *dataset) {
					m := e.(*nb.GaussianNB)
					m.SampleWeight, m.Priors = nil, nil
					if wt {
						m.SampleWeight = d.weights()
					}
					if pr {
						m.Priors = make([]float64, len(d.labels))
						for i := range m.Priors {
							m.Priors[i] = 2 * float64(i+1) / float64(len(m.Priors)*(len(m.Priors)+1))
						}
					}
				},
				More: func(e base.Fiter, d *dataset, Q mat.Matrix) []*mat.Dense {
					m := e.(*nb.GaussianNB)
					return []*mat.Dense{m.PredictLogProbas(Q, nil), m.PredictProbas(Q, nil), vec(m.ClassPrior)}
				}}
		}},
		{"SVC", func(c *C) *Inst {
			k, C, sk, seed := []string{"linear", "rbf", "poly"}[c.Intn(3)], []float64{.1, 1, 10}[c.Intn(3)], c.Intn(2), uint64(c.Intn(1000))
			gamma, cache := []float64{0, .3, .3}[c.Intn(3)], []uint{0, 1, 200}[c.Intn(3)]
			in := &Inst{Name: "SVC", Kind: DClfN, heavy: true, Tol: 1e-3}
			in.Reseed = func(e base.Fiter) { e.(*svm.SVC).RandomState = newSrc(sk, seed) }
			in.New = func() base.Fiter {
				m := svm.NewSVC()
				m.Kernel, m.C, m.Gamma, m.MaxIter, m.CacheSize = k, C, gamma, 20, cache
				in.Reseed(m)
				return m
			}
			in.More = func(e base.Fiter, d *dataset, Q mat.Matrix) (out []*mat.Dense) {
				for _, m := range e.(*svm.SVC).Model {
					out = append(out, vec(m.Alphas), mat.NewDense(1, 1, []float64{m.B}))
				}
				return
			}
			return in
		}},
		{"SVR", func(c *C) *Inst {
			k, C, sk, seed := []string{"linear", "rbf"}[c.Intn(2)], []float64{.1, 1, 10}[c.Intn(3)], c.Intn(2), uint64(c.Intn(1000))
			gamma, cache := []float64{0, .3, .3}[c.Intn(3)], []uint{0, 1, 200}[c.Intn(3)]
			in := &Inst{Name: "SVR", Kind: DRegN, heavy: true, Tol: 1e-3}
			in.Reseed = func(e base.Fiter) { e.(*svm.SVR).RandomState = newSrc(sk, seed) }
			in.New = func() base.Fiter {
				m := svm.NewSVR()
				m.Kernel, m.C, m.Gamma, m.MaxIter, m.CacheSize = k, C, gamma, 20, cache
				in.Reseed(m)
				return m
			}
			return in
		}},
		{"GaussianProcess", func(c *C) *Inst {
			ls, al, ny := .3+2*c.Float64(), []float64{1e-6, 1e-2}[c.Intn(2)], c.Intn(2) == 0
			return &Inst{Name: "GaussianProcess", Kind: DRegN, heavy: true, Tol: 1e-6, CloneTol: 1e-6, New: func() base.Fiter {
				k := &kernels.RBF{LengthScale: []float64{ls}, LengthScaleBounds: [][2]float64{{1e-5, 1e5}}}
				m := gaussianprocess.NewRegressor(k)
				m.Alpha, m.NormalizeY = []float64{al}, ny
				return m
			}, More: func(e base.Fiter, d *dataset, Q mat.Matrix) []*mat.Dense {
				m := e.(*gaussianprocess.Regressor)
				_, _, cov := m.PredictEx(Q, nil, false, true)
				lml, _ := m.LogMarginalLikelihood(m.Kernel.Theta(), true)
				return []*mat.Dense{cov, mat.NewDense(1, 2, []float64{m.LogMarginalLikelihoodValue, lml})}
			}}
		}},
		{"MLPRegressor", func(c *C) *Inst {
			h, act, so, sk, seed := c.layers(), []string{"identity", "logistic", "tanh", "relu"}[c.Intn(4)], []string{"sgd", "adam", "lbfgs"}[c.Intn(3)], c.Intn(2), uint64(c.Intn(1000))
			es, sh := c.Intn(3) == 0, c.Intn(2) == 0
			rate, mom, nest, batch := []string{"constant", "constant", "invscaling", "adaptive"}[c.Intn(4)], []float64{0, .5, .9}[c.Intn(3)], c.Intn(2) == 0, []int{1, 5, 5, 7, 200}[c.Intn(5)]
			iters, nochange, tol := []int{3, 8, 8, 25}[c.Intn(4)], []int{1, 2, 10}[c.Intn(3)], []float64{1e-4, 1e-4, .3}[c.Intn(3)]
			in := &Inst{Name: "MLPRegressor", Kind: DRegN, heavy: true, Tol: 1e-3}
			in.Reseed = func(e base.Fiter) { e.(*nn.MLPRegressor).RandomState = newSrc(sk, seed) }
			in.New = func() base.Fiter {
				m := nn.NewMLPRegressor(append([]int(nil), h...), act, so, 1e-4)
				m.MaxIter, m.EarlyStopping, m.Shuffle, m.BatchSize = iters, es && so != "lbfgs", sh, 5
				m.NIterNoChange, m.Tol = nochange, tol
				m.LearningRate, m.Momentum, m.NesterovsMomentum, m.BatchSize = rate, mom, nest, batch
				in.Reseed(m)
				return m
			}
			return in
		}},
		{"MLPClassifier", func(c *C) *Inst {
			h, act, so, sk, seed := c.layers(), []string{"logistic", "tanh", "relu"}[c.Intn(3)], []string{"sgd", "adam", "lbfgs"}[c.Intn(3)], c.Intn(2), uint64(c.Intn(1000))
			es, sh := c.Intn(3) == 0, c.Intn(2) == 0
			rate, mom, nest, batch := []string{"constant", "constant", "invscaling", "adaptive"}[c.Intn(4)], []float64{0, .5, .9}[c.Intn(3)], c.Intn(2) == 0, []int{1, 5, 5, 7, 200}[c.Intn(5)]
			iters, nochange, tol := []int{3, 8, 8, 25}[c.Intn(4)], []int{1, 2, 10}[c.Intn(3)], []float64{1e-4, 1e-4, .3}[c.Intn(3)]
			in := &Inst{Name: "MLPClassifier", Kind: DClf, heavy: true, Tol: 1e-3}
			in.Reseed = func(e base.Fiter) { e.(*nn.MLPClassifier).RandomState = newSrc(sk, seed) }
			in.New = func() base.Fiter {
				m := nn.NewMLPClassifier(append([]int(nil), h...), act, so, 1e-4)
				m.MaxIter, m.EarlyStopping, m.Shuffle, m.BatchSize = iters, es && so != "lbfgs", sh, 5
				m.NIterNoChange, m.Tol = nochange, tol
				m.LearningRate, m.Momentum, m.NesterovsMomentum, m.BatchSize = rate, mom, nest, batch
				in.Reseed(m)
				return m
			}
			return in
		}},
		{"Pipeline", func(c *C) *Inst {
			which, clf := c.Intn(4), c.Intn(2)
			in := &Inst{Name: "Pipeline", Kind: DRegN, Tol: 1e-6}
			if clf == 1 {
				in.Kind = DClf
			}
			in.New = func() base.Fiter {
				var tr base.Fiter
				switch which {
				case 0:
					tr = preprocessing.NewStandardScaler()
				case 1:
					tr = preprocessing.NewMinMaxScaler([]float64{-1, 2})
				case 2:
					tr = preprocessing.NewPCA()
				default:
					tr = preprocessing.NewDefaultRobustScaler()
				}
				var last base.Fiter
				if clf == 1 {
					last = neighbors.NewKNeighborsClassifier(3, "uniform")
				} else {
					last = linearmodel.NewLinearRegression()
				}
				return pipeline.MakePipeline(tr, last)
			}
			return in
		}},
		{"GridSearchCV", func(c *C) *Inst {
			clf, sk, seed, ch := c.Intn(2), c.Intn(2), uint64(c.Intn(1000)), c.Intn(2) == 0
			in := &Inst{Name: "GridSearchCV", Kind: DReg1, Tol: 1e-6, slow: true}
			if clf == 1 {
				in.Kind = DClf
			}
			in.Reseed = func(e base.Fiter) {
				m := e.(*modelselection.GridSearchCV)
				m.RandomState = newSrc(sk, seed)
				m.CV = &modelselection.KFold{NSplits: 3, Shuffle: true, RandomState: newSrc(sk, seed+1)}
			}
			in.New = func() base.Fiter {
				m := &modelselection.GridSearchCV{UseChannels: ch, NJobs: -1}
				if clf == 1 {
					m.Estimator = neighbors.NewKNeighborsClassifier(3, "uniform")
					m.ParamGrid = map[string][]interface{}{"K": {1, 2, 3}, "Weight": {"uniform", "distance"}}
					m.Scorer = accuracy
				} else {
					e := linearmodel.NewElasticNet()
					m.Estimator = e
					m.ParamGrid = map[string][]interface{}{"Alpha": {.01, .1, 1.}, "L1Ratio": {.2, .9}}
					m.Scorer = negMSE
				}
				in.Reseed(m)
				return m
			}
			in.Jobs = func(e base.Fiter, n int) { e.(*modelselection.GridSearchCV).NJobs = n }
			in.More = func(e base.Fiter, d *dataset, Q mat.Matrix) []*mat.Dense {
				m := e.(*modelselection.GridSearchCV)
				var s []float64
				for _, v := range m.CVResults["score"] {
					s = append(s, v.(float64))
				}
				return []*mat.Dense{mat.NewDense(1, 2, []float64{float64(m.BestIndex), m.BestScore}), vec(s)}
			}
			return in
		}},
	}
	tr := func(name string, kind int, mk func(c *C) func() base.Fiter, tol float64) {
		list = append(list, lin(name, kind, mk, tol))
	}
	tr("MinMaxScaler", DUnsup, func(c *C) func() base.Fiter {
		a := c.NormFloat64()
		return func() base.Fiter { return preprocessing.NewMinMaxScaler([]float64{a, a + 2}) }
	}, 1e-12)
	tr("StandardScaler", DUnsup, func(c *C) func() base.Fiter {
		wm, ws := c.Intn(4) > 0, c.Intn(4) > 0
		return func() base.Fiter {
			m := preprocessing.NewStandardScaler()
			m.WithMean, m.WithStd = wm, ws
			return m
		}
	}, 1e-12)
	tr("RobustScaler", DUnsup, func(c *C) func() base.Fiter {
		ce, sc := c.Intn(2) == 0, c.Intn(2) == 0
		return func() base.Fiter { return preprocessing.NewRobustScaler(ce, sc, nil) }
	}, 1e-12)
	tr("MaxAbsScaler", DUnsup, func(c *C) func() base.Fiter {
		return func() base.Fiter { return preprocessing.NewMaxAbsScaler() }
	}, 1e-12)
	tr("Normalizer", DUnsup, func(c *C) func() base.Fiter {
		nm, ax := []string{"l1", "l2", "max"}[c.Intn(3)], 1
		return func() base.Fiter { return &preprocessing.Normalizer{Norm: nm, Axis: ax} }
	}, 1e-12)
	tr("PolynomialFeatures", DUnsup, func(c *C) func() base.Fiter {
		d, io, ib := 1+c.Intn(3), c.Intn(2) == 0, c.Intn(2) == 0
		return func() base.Fiter {
			p := preprocessing.NewPolynomialFeatures(d)
			p.InteractionOnly, p.IncludeBias = io, ib
			return p
		}
	}, 1e-12)
	tr("OneHotEncoder", DInts, func(c *C) func() base.Fiter {
		return func() base.Fiter { return preprocessing.NewOneHotEncoder() }
	}, 1e-12)
	tr("Binarizer", DUnsup, func(c *C) func() base.Fiter {
		th := c.NormFloat64()
		return func() base.Fiter { return &preprocessing.Binarizer{Threshold: th} }
	}, 1e-12)
	tr("KernelCenterer", DKern, func(c *C) func() base.Fiter {
		return func() base.Fiter { return preprocessing.NewKernelCenterer() }
	}, 1e-9)
	tr("QuantileTransformer", DUnsup, func(c *C) func() base.Fiter {
		nq, od := 2+c.Intn(8), []string{"uniform", "normal"}[c.Intn(2)]
		return func() base.Fiter { return preprocessing.NewQuantileTransformer(nq, od, base.NewLockedSource(7)) }
	}, 1e-9)
	tr("PowerTransformer", DPos, func(c *C) func() base.Fiter {
		me, st := []string{"box-cox", "yeo-johnson"}[c.Intn(2)], c.Intn(2) == 0
		return func() base.Fiter {
			p := preprocessing.NewPowerTransformer()
			p.Method, p.Standardize = me, st
			return p
		}
	}, 1e-4)
	tr("KBinsDiscretizer", DUnsup, func(c *C) func() base.Fiter {
		nb, en, st := 2+c.Intn(4), []string{"onehot", "onehot-dense", "ordinal"}[c.Intn(3)], []string{"uniform", "quantile"}[c.Intn(2)]
		return func() base.Fiter {
			d := preprocessing.NewKBinsDiscretizer(nb)
			d.Encode, d.Strategy = en, st
			return d
		}
	}, 1e-9)
	tr("Imputer", DHoles, func(c *C) func() base.Fiter {
		st := []string{"mean", "median", "most_frequent"}[c.Intn(3)]
		return func() base.Fiter {
			m := preprocessing.NewImputer()
			m.Strategy = st
			return m
		}
	}, 1e-12)
	tr("LabelBinarizer", DLabel, func(c *C) func() base.Fiter {
		return func() base.Fiter { return preprocessing.NewLabelBinarizer(-1, 2) }
	}, 0)
	tr("LabelEncoder", DLabel, func(c *C) func() base.Fiter {
		return func() base.Fiter { return preprocessing.NewLabelEncoder() }
	}, 0)
	tr("MultiLabelBinarizer", DLabel, func(c *C) func() base.Fiter {
		return func() base.Fiter { return preprocessing.NewMultiLabelBinarizer() }
	}, 0)
	tr("PCA", DUnsup, func(c *C) func() base.Fiter {
		k := c.Intn(2)
		return func() base.Fiter {
			p := preprocessing.NewPCA()
			p.NComponents = k
			return p
		}
	}, 1e-7)
	tr("FunctionTransformer", DReg1, func(c *C) func() base.Fiter {
		f := func(s float64) func(X, Y *mat.Dense) (X1, Y1 *mat.Dense) {
			return func(X, Y *mat.Dense) (X1, Y1 *mat.Dense) {
				X1, Y1 = copyOfDense(X), copyOfDense(Y)
				if !X1.IsEmpty() {
					X1.Scale(s, X1)
				}
				if !Y1.IsEmpty() {
					Y1.Scale(s, Y1)
				}
				return
			}
		}
		return func() base.Fiter { return preprocessing.NewFunctionTransformer(f(2), f(.5)) }
	}, 1e-12)
	list = append(list, subject{"Shuffler", func(c *C) *Inst {
		sk, seed := c.Intn(2), uint64(c.Intn(1000))
		in := &Inst{Name: "Shuffler", Kind: DReg1, Tol: 0, SelfOnly: true}
		in.Reseed = func(e base.Fiter) { e.(*preprocessing.Shuffler).RandomState = newSrc(sk, seed) }
		in.New = func() base.Fiter {
			s := preprocessing.NewShuffler()
			in.Reseed(s)
			return s
		}
		return in
	}})
	return list
}

// nnFiter gives NearestNeighbors the Fit of the other estimators.
type nnFiter struct{ *neighbors.NearestNeighbors }

func (m *nnFiter) Fit(X, Y mat.Matrix) base.Fiter {
	m.NearestNeighbors.Fit(X, Y)
	return m
}

// cloneOf clones an estimator or transformer.
func cloneOf(e base.Fiter) base.Fiter {
	switch v := e.(type) {
	case base.Predicter:
		return v.PredicterClone()
	case base.Transformer:
		return v.TransformerClone()
	}
	return nil
}

// weights gives weights of the training samples.
func (d *dataset) weights() []float64 {
	n, _ := d.X.Dims()
	w := make([]float64, n)
	for i := range w {
		w[i] = .25 + float64((i*7)%5)
	}
	return w
}

// fit fits est, with what depends on the data set.
func (in *Inst) fit(est base.Fiter, d *dataset, X, Y mat.Matrix) {
	if in.Prep != nil {
		in.Prep(est, d)
	}
	est.Fit(X, Y)
}
