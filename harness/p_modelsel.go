package main

import (
	"fmt"
	"math"
	"sort"
	"sync"

	"github.com/pa-m/sklearn/base"
	linearmodel "github.com/pa-m/sklearn/linear_model"
	modelselection "github.com/pa-m/sklearn/model_selection"
	"github.com/pa-m/sklearn/neighbors"
	exprand "golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register(&Property{
		ID: "C13",
		Rule: "a case draws a number of samples, a number of splits, shuffling and a kind of random source, collects all splits and checks them as sets; train/test splits are compared with an independent " +
			"Mersenne Twister permutation; distinct by configuration and splits seen",
		Families: []Family{
			{Name: "kfold", Quick: 1500, Thorough: 30000, Run: msKFold},
			{Name: "traintest", Quick: 1500, Thorough: 30000, Run: msTrainTest},
			{Name: "grid", Quick: 800, Thorough: 15000, Run: msParamGrid},
		},
	})
	register(&Property{
		ID: "C14",
		Rule: "a case runs cross validation or a grid search with a recording estimator or a real one, a KFold or an arbitrary splitter, any number of jobs, and replays every split by hand; " +
			"distinct by configuration and hash of the data",
		Families: []Family{
			{Name: "recorded", Quick: 500, Thorough: 10000, Run: msRecorded},
			{Name: "default", Quick: 100, Thorough: 2000, Run: msDefault},
			{Name: "real", Quick: 400, Thorough: 8000, Run: msReal},
			{Name: "search", Quick: 400, Thorough: 8000, Run: msSearch},
			{Name: "sorting", Quick: 300, Thorough: 6000, Run: msSorting},
		},
	})
}

// source returns a function making equal random sources and whether they can be cloned.
func (c *C) source() (mk func() base.RandomState, name string, cloneable bool) {
	seed := uint64(c.Intn(1 << 30))
	switch c.Intn(3) {
	case 0:
		return func() base.RandomState { return base.NewSource(seed) }, "RKState", true
	case 1:
		return func() base.RandomState { return base.NewLockedSource(seed) }, "LockedSource", true
	}
	return func() base.RandomState { return exprand.New(base.NewLockedSource(seed)) }, "rand.Rand", false
}

func collect(s modelselection.Splitter, X *mat.Dense) (out []modelselection.Split) {
	for sp := range s.Split(X, nil) {
		out = append(out, sp)
	}
	return
}

func isPartition(n int, sp modelselection.Split) bool {
	seen := make([]int, n)
	for _, l := range [][]int{sp.TrainIndex, sp.TestIndex} {
		for _, i := range l {
			if i < 0 || i >= n {
				return false
			}
			seen[i]++
		}
	}
	for _, k := range seen {
		if k != 1 {
			return false
		}
	}
	return true
}

func msKFold(c *C) {
	n := c.Rarely(c.Size(1, 40, 2500), 30000)
	k := 1 + c.Intn(minInt(n, 12))
	if c.Intn(5) == 0 {
		k = 1 + c.Intn(n+4) // up to leave-one-out, and more splits than samples
		if k > 200 {
			k = 13 + k%100
		}
	}
	if c.Intn(6) == 0 {
		n, k = 3+c.Intn(30), 0 // default
	}
	wantK := k
	if k == 0 {
		wantK = 3
	}
	X := c.RandMat(n, 1+c.Intn(2), KGauss)
	if c.Intn(4) == 0 {
		X = DenseView(X, true)
	}
	mk, name, cloneable := c.source()
	kf := &modelselection.KFold{NSplits: k, Shuffle: c.Intn(2) == 0}
	if c.Intn(6) == 0 {
		name = "nil"
	} else {
		kf.RandomState = mk()
	}
	what := fmt.Sprintf("KFold{%d,%v,%s} of %d samples", k, kf.Shuffle, name, n)
	c.True("nsplits", kf.GetNSplits(X, nil) == wantK, "%s: GetNSplits before Split is %d", what, kf.GetNSplits(X, nil))
	var clone modelselection.Splitter
	if name != "nil" && cloneable {
		clone = kf.SplitterClone()
	}
	splits := collect(kf, X)
	c.True("nsplits", kf.GetNSplits(X, nil) == wantK, "%s: GetNSplits after Split is %d", what, kf.GetNSplits(X, nil))
	if !c.True("count", len(splits) == wantK, "%s: %d splits", what, len(splits)) {
		return
	}
	check := func(what string, splits []modelselection.Split) {
		for i, sp := range splits {
			c.True("partition", isPartition(n, sp), "%s: split %d %v is not a partition", what, i, sp)
			want := n / wantK
			if i < n%wantK {
				want++
			}
			c.True("size", len(sp.TestIndex) == want, "%s: test set %d has %d samples, want %d", what, i, len(sp.TestIndex), want)
		}
	}
	check(what, splits)
	if name != "nil" {
		kf2 := &modelselection.KFold{NSplits: k, Shuffle: kf.Shuffle, RandomState: mk()}
		s2 := collect(kf2, X)
		c.True("reproducible", fmt.Sprint(s2) == fmt.Sprint(splits), "%s: same seed gives %v then %v", what, splits, s2)
	}
	if clone != nil {
		s3 := collect(clone, X)
		c.True("clone", fmt.Sprint(s3) == fmt.Sprint(splits), "%s: clone gives %v instead of %v", what, s3, splits)
		// splitting with the clone left the original where it was, so that the second splits agree too
		a, b := collect(kf, X), collect(clone, X)
		check(what+" again", a)
		c.True("clone", fmt.Sprint(a) == fmt.Sprint(b), "%s: second splits of clone %v and original %v", what, b, a)
	}
	// a kept split is the consumer's own: writing to one changes no other
	if len(splits) > 1 {
		before := fmt.Sprint(splits[1:])
		for _, l := range [][]int{splits[0].TrainIndex, splits[0].TestIndex} {
			for i := range l {
				l[i] = -1
			}
		}
		c.True("shared", fmt.Sprint(splits[1:]) == before, "%s: splits share memory", what)
	}
	c.Sig("%s %x", what, fmt.Sprint(splits[len(splits)-1]))
}

// mt19937 is the reference generator.
type mt19937 struct {
	mt [624]uint32
	i  int
}

func newMT(seed uint32) *mt19937 {
	m := &mt19937{i: 624}
	m.mt[0] = seed
	for i := 1; i < 624; i++ {
		m.mt[i] = 1812433253*(m.mt[i-1]^(m.mt[i-1]>>30)) + uint32(i)
	}
	return m
}

func (m *mt19937) next() uint32 {
	if m.i == 624 {
		for k := 0; k < 624; k++ {
			y := m.mt[k]&0x80000000 | m.mt[(k+1)%624]&0x7fffffff
			v := m.mt[(k+397)%624] ^ y>>1
			if y&1 == 1 {
				v ^= 0x9908b0df
			}
			m.mt[k] = v
		}
		m.i = 0
	}
	y := m.mt[m.i]
	m.i++
	y ^= y >> 11
	y ^= y << 7 & 0x9d2c5680
	y ^= y << 15 & 0xefc60000
	y ^= y >> 18
	return y
}

// perm is numpy.random.RandomState(seed).permutation(n).
func (m *mt19937) perm(n int) []int {
	a := make([]int, n)
	for i := range a {
		a[i] = i
	}
	for i := n - 1; i > 0; i-- {
		mask := uint32(i)
		for s := uint(1); s <= 16; s *= 2 {
			mask |= mask >> s
		}
		j := m.next() & mask
		for j > uint32(i) {
			j = m.next() & mask
		}
		a[i], a[j] = a[j], a[i]
	}
	return a
}

func msTrainTest(c *C) {
	n, f, o := c.Rarely(c.Size(2, 60, 3000), 30000), 1+c.Intn(3), 1+c.Intn(2)
	X, Y := mat.NewDense(n, f, nil), mat.NewDense(n, o, nil)
	for i := 0; i < n; i++ {
		for j := 0; j < f; j++ {
			X.Set(i, j, float64(100*i+j))
		}
		for j := 0; j < o; j++ {
			Y.Set(i, j, float64(100*i+j)+.5)
		}
	}
	var size float64
	var lo, hi int // accepted numbers of test samples
	if c.Intn(3) == 0 && n > 3 {
		k := 2 + c.Intn(n-2)
		size, lo, hi = float64(k), k, k
	} else {
		size = float64(1+c.Intn(n-1)) / float64(n)
		if c.Intn(2) == 0 {
			size = .01 + .97*c.Float64()
		}
		lo, hi = int(math.Ceil(size*float64(n)-1e-9)), int(math.Ceil(size*float64(n)+1e-9))
	}
	if hi >= n || lo < 1 {
		return
	}
	seed := uint64(c.Intn(1 << 31))
	if c.Intn(8) == 0 {
		seed = uint64(c.Intn(4))
	}
	what := fmt.Sprintf("TrainTestSplit(%dx%d, %v, %d)", n, f, size, seed)
	Xtr, Xte, ytr, yte := modelselection.TrainTestSplit(c.layout(X), c.layout(Y), size, seed)
	nte, ntr := 0, 0
	nte, _ = Xte.Dims()
	ntr, _ = Xtr.Dims()
	c.True("sizes", nte >= lo && nte <= hi && nte+ntr == n && dimsAre(Xte, nte, f) && dimsAre(Xtr, ntr, f) && dimsAre(yte, nte, o) && dimsAre(ytr, ntr, o),
		"%s: %d test samples and %d train samples, want %d..%d test", what, nte, ntr, lo, hi)
	ind := newMT(uint32(seed)).perm(n)
	for k := 0; k < n; k++ {
		A, B, r := Xte, yte, k
		if k >= nte {
			A, B, r = Xtr, ytr, k-nte
		}
		i := ind[k]
		for j := 0; j < f; j++ {
			c.True("rows", A.At(r, j) == X.At(i, j), "%s: row %d is %v, want sample %d", what, k, mat.Row(nil, r, A), i)
		}
		for j := 0; j < o; j++ {
			c.True("targets", B.At(r, j) == Y.At(i, j), "%s: target of row %d is %v, want that of sample %d", what, k, mat.Row(nil, r, B), i)
		}
	}
	c.Sig("%s", what)
}

func msParamGrid(c *C) {
	grid := map[string][]interface{}{}
	names := []string{"Alpha", "tol", "L1Ratio", "NJobs", "Weights"}
	total := 1
	for _, i := range c.Perm(len(names))[:1+c.Intn(4)] {
		k := c.Size(1, 4, 40)
		if c.Intn(12) == 0 {
			k = 0
		}
		vals := []interface{}{}
		for j := 0; j < k; j++ {
			if i == 4 {
				vals = append(vals, fmt.Sprint("v", j))
			} else if i == 3 {
				vals = append(vals, j)
			} else {
				vals = append(vals, float64(j)/4)
			}
		}
		grid[names[i]] = vals
		total *= k
	}
	g := modelselection.ParameterGrid(grid)
	c.True("count", len(g) == total, "ParameterGrid(%v) has %d combinations, want %d", grid, len(g), total)
	seen := map[string]bool{}
	for i, m := range g {
		c.True("keys", len(m) == len(grid), "ParameterGrid(%v): combination %d is %v", grid, i, m)
		for k, v := range m {
			ok := false
			for _, w := range grid[k] {
				ok = ok || w == v
			}
			c.True("value", ok, "ParameterGrid(%v): combination %d is %v", grid, i, m)
		}
		c.True("duplicate", !seen[fmt.Sprint(m)], "ParameterGrid(%v): combination %v twice", grid, m)
		seen[fmt.Sprint(m)] = true
	}
	if len(g) > 1 {
		// combinations don't share storage
		w := fmt.Sprint(g[1])
		for k := range g[0] {
			g[0][k] = "changed"
		}
		c.True("shared", fmt.Sprint(g[1]) == w, "ParameterGrid(%v): combinations share a map", grid)
		h := modelselection.ParameterGrid(grid)
		c.True("order", fmt.Sprint(h[1:]) == fmt.Sprint(g[1:]), "ParameterGrid(%v): order changes between calls", grid)
	}
	c.Sig("%v", grid)
}

// listSplitter yields arbitrary splits.
type listSplitter []modelselection.Split

func (l listSplitter) Split(X, Y *mat.Dense) chan modelselection.Split {
	ch := make(chan modelselection.Split)
	go func() {
		for _, s := range l {
			ch <- s
		}
		close(ch)
	}()
	return ch
}
func (l listSplitter) GetNSplits(X, Y *mat.Dense) int         { return len(l) }
func (l listSplitter) SplitterClone() modelselection.Splitter { return l }

// splitter draws a splitter and the splits it gives.
func (c *C) splitter(n int) (cv modelselection.Splitter, splits []modelselection.Split, name string) {
	if c.Intn(2) == 0 {
		k := 2 + c.Intn(minInt(5, n-1))
		if c.Intn(5) == 0 {
			k = 2 + c.Intn(minInt(30, n-1))
		}
		mk, sname, _ := c.source()
		sh := c.Intn(2) == 0
		X := mat.NewDense(n, 1, nil)
		return &modelselection.KFold{NSplits: k, Shuffle: sh, RandomState: mk()},
			collect(&modelselection.KFold{NSplits: k, Shuffle: sh, RandomState: mk()}, X), fmt.Sprintf("KFold(%d,%v,%s)", k, sh, sname)
	}
	k := c.Size(1, 6, 40)
	if c.Intn(6) == 0 {
		k = 7 + c.Intn(14)
	}
	var l listSplitter
	for i := 0; i < k; i++ {
		p := c.Perm(n)
		nt := 1 + c.Intn(n-1)
		rest := 1 + c.Intn(n-nt)
		l = append(l, modelselection.Split{TrainIndex: p[:nt], TestIndex: p[nt : nt+rest]})
	}
	return l, l, fmt.Sprintf("list%v", [][]modelselection.Split{l})
}

func rowsOf(M *mat.Dense, idx []int) *mat.Dense {
	_, k := M.Dims()
	out := mat.NewDense(len(idx), k, nil)
	for a, i := range idx {
		for j := 0; j < k; j++ {
			out.Set(a, j, M.At(i, j))
		}
	}
	return out
}

// recLog is what the recording estimators share.
type recLog struct {
	sync.Mutex
	clones, origFits int
}

// recorder is an estimator that keeps what it was given.
type recorder struct {
	Alpha    float64
	K        int
	Mode     string
	Flag     bool
	Any      interface{}
	Ref      *float64
	log      *recLog
	original bool
	nOut     int
	keepX    *mat.Dense // the matrix of the caller, kept like lazy learners do
	fitX     *mat.Dense
	fitY     *mat.Dense
	predX    *mat.Dense
	fits     int
	preds    int
}

func (r *recorder) Fit(X, Y mat.Matrix) base.Fiter {
	r.fits++
	r.fitX, r.fitY = mat.DenseCopyOf(X), mat.DenseCopyOf(Y)
	r.keepX, _ = X.(*mat.Dense)
	_, r.nOut = Y.Dims()
	if r.original {
		r.log.Lock()
		r.log.origFits++
		r.log.Unlock()
	}
	return r
}
func (r *recorder) GetNOutputs() int { return r.nOut }
func (r *recorder) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
	r.preds++
	r.predX = mat.DenseCopyOf(X)
	n, _ := X.Dims()
	out := mat.NewDense(n, r.nOut, nil)
	for i := 0; i < n; i++ {
		for j := 0; j < r.nOut; j++ {
			out.Set(i, j, r.value(X.At(i, 0), j))
			if Y != nil {
				Y.Set(i, j, out.At(i, j))
			}
		}
	}
	return out
}
func (r *recorder) value(x float64, j int) float64 {
	m := 0.
	n, _ := r.fitX.Dims()
	for i := 0; i < n; i++ {
		m += math.Sin(r.fitX.At(i, 0)) * float64(i+1) // depends on the order of rows too
	}
	if r.Flag {
		m += .3 * float64(n)
	}
	switch v := r.Any.(type) {
	case int:
		m += .17 * float64(v*n)
	case string:
		m += .011 * float64(len(v)*n)
	}
	if r.Ref != nil {
		m += *r.Ref * float64(n)
	}
	return math.Cos(m/float64(n) + x*r.Alpha + float64(r.K) + float64(len(r.Mode)) + float64(j))
}
func (r *recorder) Score(X, Y mat.Matrix) float64 { return 42 }
func (r *recorder) IsClassifier() bool            { return false }
func (r *recorder) PredicterClone() base.Predicter {
	r.log.Lock()
	r.log.clones++
	r.log.Unlock()
	clone := *r
	clone.original = false
	clone.fits, clone.preds = 0, 0
	return &clone
}

// scorer draws a scorer: positive, of either sign, tiny or huge.
func (c *C) scorer() func(Ytrue, Ypred mat.Matrix) float64 {
	k, off := math.Pow(10, float64(c.Intn(25)-12)), 0.
	switch c.Intn(3) {
	case 0:
		return sseScorer
	case 1:
		k, off = 1, c.NormFloat64()
	}
	return func(Ytrue, Ypred mat.Matrix) float64 { return k * (sseScorer(Ytrue, Ypred) - off) }
}

func sseScorer(Ytrue, Ypred mat.Matrix) float64 {
	n, k := Ytrue.Dims()
	if a, b := Ypred.Dims(); a != n || b != k {
		return math.NaN()
	}
	s := 0.
	for i := 0; i < n; i++ {
		for j := 0; j < k; j++ {
			d := Ytrue.At(i, j) - Ypred.At(i, j)
			s += d * d * float64(1+i)
		}
	}
	return s/float64(n) + .01*Ytrue.At(0, 0)
}

// msDefault: without a splitter, three shuffled folds.
func msDefault(c *C) {
	n, f, o := c.Size(3, 15, 400), 1+c.Intn(3), 1+c.Intn(2)
	X, Y := c.RandMat(n, f, KGauss), c.RandMat(n, o, KGauss)
	jobs := c.Intn(6) - 1
	score := c.scorer()
	orig := &recorder{Alpha: c.Float64(), K: c.Intn(4), log: &recLog{}, original: true}
	what := fmt.Sprintf("CrossValidate n=%d default splitter NJobs=%d", n, jobs)
	res := modelselection.CrossValidate(orig, Clone(X), Clone(Y), nil, score, nil, jobs)
	if !c.True("default length", len(res.TestScore) == 3 && len(res.Estimator) == 3, "%s: %d scores %d estimators", what, len(res.TestScore), len(res.Estimator)) {
		return
	}
	where := map[float64]int{}
	for i := 0; i < n; i++ {
		where[X.At(i, 0)] = i
	}
	for s, e := range res.Estimator {
		r, ok := e.(*recorder)
		if !c.True("default estimator", ok && r.fits == 1 && r.preds == 1, "%s: estimator %d", what, s) {
			return
		}
		side := make([]int, n)
		var test []int
		nTrain, _ := r.fitX.Dims()
		nTest, _ := r.predX.Dims()
		ok = nTrain+nTest == n && nTest >= n/3 && nTest <= (n+2)/3
		for i := 0; i < nTrain; i++ {
			q, found := where[r.fitX.At(i, 0)]
			ok = ok && found && fmt.Sprint(row(X, q)) == fmt.Sprint(row(r.fitX, i)) && fmt.Sprint(row(Y, q)) == fmt.Sprint(row(r.fitY, i))
			side[q]++
		}
		for i := 0; i < nTest; i++ {
			q, found := where[r.predX.At(i, 0)]
			ok = ok && found && fmt.Sprint(row(X, q)) == fmt.Sprint(row(r.predX, i))
			side[q]++
			test = append(test, q)
		}
		for _, v := range side {
			ok = ok && v == 1
		}
		if !c.True("default split", ok, "%s: split %d is not a partition in train and test rows of the right sizes (%d and %d)", what, s, nTrain, nTest) {
			return
		}
		P := mat.NewDense(nTest, o, nil)
		for a := range test {
			for j := 0; j < o; j++ {
				P.Set(a, j, r.value(X.At(test[a], 0), j))
			}
		}
		c.NearRel("default score", res.TestScore[s], score(rowsOf(Y, test), P), res.TestScore[s], 1e-12, "%s: score of split %d", what, s)
	}
	c.Sig("%s %x", what, Hash(X, Y))
}

func msRecorded(c *C) {
	n, f, o := c.Size(3, 15, 400), 1+c.Intn(3), 1+c.Intn(2)
	X, Y := c.RandMat(n, f, KGauss), c.RandMat(n, o, KGauss)
	cv, splits, name := c.splitter(n)
	jobs := c.Intn(10) - 1
	score := c.scorer()
	log := &recLog{}
	orig := &recorder{Alpha: c.Float64(), K: c.Intn(4), log: log, original: true}
	what := fmt.Sprintf("CrossValidate n=%d %s NJobs=%d", n, name, jobs)
	Xa, Ya := DenseView(X, c.Intn(3) == 0), DenseView(Y, c.Intn(3) == 0)
	res := modelselection.CrossValidate(orig, Xa, Ya, nil, score, cv, jobs)
	c.True("inputs", SameValues(Xa, X) && SameValues(Ya, Y), "%s changed its inputs", what)
	c.True("original", log.origFits == 0 && orig.fits == 0, "%s fitted the given estimator", what)
	k := len(splits)
	if !c.True("length", len(res.TestScore) == k && len(res.Estimator) == k && len(res.FitTime) == k && len(res.ScoreTime) == k, "%s: %d scores %d estimators for %d splits", what, len(res.TestScore), len(res.Estimator), k) {
		return
	}
	seen := map[*recorder]bool{}
	for i, sp := range splits {
		r, ok := res.Estimator[i].(*recorder)
		if !c.True("estimator", ok && r != nil && !seen[r], "%s: estimator %d missing or shared", what, i) {
			return
		}
		seen[r] = true
		if !c.True("fits", r.fits == 1 && r.preds == 1, "%s: estimator %d fitted %d times, %d predictions", what, i, r.fits, r.preds) {
			continue
		}
		c.True("train", SameValues(r.fitX, rowsOf(X, sp.TrainIndex)) && SameValues(r.fitY, rowsOf(Y, sp.TrainIndex)), "%s: estimator %d was not fitted on the train rows", what, i)
		c.True("test", SameValues(r.predX, rowsOf(X, sp.TestIndex)), "%s: estimator %d did not predict the test rows", what, i)
		c.True("kept", r.keepX == nil || SameValues(r.keepX, r.fitX), "%s: the train matrix kept by estimator %d changed after its fit", what, i)
		P := mat.NewDense(len(sp.TestIndex), o, nil)
		for a, s := range sp.TestIndex {
			for j := 0; j < o; j++ {
				P.Set(a, j, r.value(X.At(s, 0), j))
			}
		}
		c.NearRel("score", res.TestScore[i], score(rowsOf(Y, sp.TestIndex), P), res.TestScore[i], 1e-12, "%s: score of split %d", what, i)
		c.True("config", r.Alpha == orig.Alpha && r.K == orig.K, "%s: configuration of estimator %d", what, i)
	}
	c.Sig("%s %x", what, Hash(X, Y))
}

// realEstimator draws a deterministic estimator of the library.
func (c *C) realEstimator() (mk func() base.Predicter, name string) {
	switch c.Intn(4) {
	case 0:
		k := 1 + c.Intn(2)
		return func() base.Predicter { return neighbors.NewKNeighborsRegressor(k, "uniform") }, fmt.Sprintf("KNeighborsRegressor(%d)", k)
	case 1:
		return func() base.Predicter { return linearmodel.NewLinearRegression() }, "LinearRegression"
	case 2:
		a := .1 + c.Float64()
		return func() base.Predicter { l := linearmodel.NewLasso(); l.Alpha = a; return l }, fmt.Sprintf("Lasso(%v)", a)
	}
	return func() base.Predicter { return neighbors.NewNearestCentroid("euclidean", 0) }, "NearestCentroid"
}

func msReal(c *C) {
	n, f := c.Size(6, 15, 150), 1+c.Intn(2)
	X := c.RandMat(n, f, KGauss)
	mk, ename := c.realEstimator()
	var Y *mat.Dense
	if ename == "NearestCentroid" {
		Y = mat.NewDense(n, 1, nil)
		for i := 0; i < n; i++ {
			Y.Set(i, 0, float64(c.Intn(3)))
		}
	} else {
		Y = c.RandMat(n, 1, KGauss)
	}
	var cv modelselection.Splitter
	var splits []modelselection.Split
	var name string
	for {
		cv, splits, name = c.splitter(n)
		ok := true
		for _, s := range splits {
			ok = ok && len(s.TrainIndex) >= 4
		}
		if ok {
			break
		}
	}
	jobs := c.Intn(8) - 1
	what := fmt.Sprintf("CrossValidate(%s) n=%d %s NJobs=%d", ename, n, name, jobs)
	res := modelselection.CrossValidate(mk(), X, Y, nil, sseScorer, cv, jobs)
	for i, sp := range splits {
		ref := mk()
		ref.Fit(rowsOf(X, sp.TrainIndex), rowsOf(Y, sp.TrainIndex))
		P := ref.Predict(rowsOf(X, sp.TestIndex), nil)
		c.Near("score", res.TestScore[i], sseScorer(rowsOf(Y, sp.TestIndex), P), 1e-9, "%s: score of split %d", what, i)
		// the returned estimator is still the one fitted on this split
		c.NearMat("estimator", res.Estimator[i].Predict(X, nil), ref.Predict(X, nil), 1e-9, "%s: predictions of returned estimator %d", what, i)
	}
	c.Sig("%s %x", what, Hash(X, Y))
}

func msSearch(c *C) {
	n, f := c.Size(4, 12, 150), 1+c.Intn(2)
	X, Y := c.RandMat(n, f, KGauss), c.RandMat(n, 1, KGauss)
	cv, splits, name := c.splitter(n)
	if c.Intn(8) == 0 {
		cv, splits, name = nil, nil, "default"
	}
	log := &recLog{}
	orig := &recorder{Alpha: .5, K: 1, Mode: "x", log: log, original: true}
	grid := map[string][]interface{}{}
	kinds := 3
	if c.Intn(3) == 0 {
		kinds = 6
	}
	for _, k := range c.Perm(kinds)[:1+c.Intn(3)] {
		switch k {
		case 3:
			grid["Flag"] = []interface{}{true, false}[:1+c.Intn(2)]
		case 4:
			grid["any"] = []interface{}{"any", 3, "thing"}[:1+c.Intn(3)]
		case 5:
			a, b := .5, 1.25
			grid["Ref"] = []interface{}{&a, &b}[:1+c.Intn(2)]
		case 0:
			vals := []interface{}{}
			nv := c.Size(1, 4, 30)
			if c.Intn(8) == 0 {
				nv = 4 + c.Intn(8)
			}
			for i := 0; i < nv; i++ {
				if c.Intn(8) == 0 {
					vals = append(vals, float32(i)/7+.01)
				} else if c.Intn(4) == 0 {
					vals = append(vals, i+2) // integers are accepted for float parameters
				} else {
					vals = append(vals, c.NormFloat64())
				}
			}
			grid[[]string{"Alpha", "alpha"}[c.Intn(2)]] = vals
		case 1:
			grid["K"] = []interface{}{1, 5, 3}[:1+c.Intn(3)]
		case 2:
			grid["Mode"] = []interface{}{"a", "bb", "ccc"}[:1+c.Intn(3)]
		}
	}
	lower := c.Intn(2) == 0
	score := c.scorer()
	if c.Intn(4) == 0 {
		score = func(Ytrue, Ypred mat.Matrix) float64 { return math.Round(sseScorer(Ytrue, Ypred)) } // ties
	}
	gs := &modelselection.GridSearchCV{Estimator: orig, ParamGrid: grid, Scorer: score, CV: cv, LowerScoreIsBetter: lower, NJobs: c.Intn(7) - 1}
	if c.Intn(3) == 0 {
		seed := uint64(c.Intn(1000))
		gs.RandomState = base.NewLockedSource(seed)
		if name == "default" {
			// three shuffled folds drawn with the random state given
			splits = collect(&modelselection.KFold{NSplits: 3, Shuffle: true, RandomState: base.NewLockedSource(seed)}, X)
		}
	}
	if c.Intn(4) == 0 {
		// a previous search leaves nothing behind
		gs.LowerScoreIsBetter = !lower
		gs.Fit(c.RandMat(n, f, KGauss), c.RandMat(n, 1, KGauss))
		gs.LowerScoreIsBetter = lower
		if name != "default" {
			gs.CV = cv
		} else {
			splits = nil
		}
		if kf, ok := cv.(*modelselection.KFold); ok {
			splits = collect(kf.SplitterClone(), X) // where the source is now
			if _, ok := kf.RandomState.(base.SourceCloner); !ok {
				splits = nil
			}
		}
	}
	Xm, Ym := c.layout(X), c.layout(Y)
	gs.Fit(Xm, Ym)
	what := fmt.Sprintf("GridSearchCV(%v,lower=%v,NJobs=%d) n=%d %s", grid, lower, gs.NJobs, n, name)
	c.True("original", log.origFits == 0 && orig.Alpha == .5 && orig.K == 1 && orig.Mode == "x" && !orig.Flag && orig.Any == nil && orig.Ref == nil, "%s changed the given estimator", what)
	total := 1
	for _, v := range grid {
		total *= len(v)
	}
	scores := gs.CVResults["score"]
	if !c.True("count", len(scores) == total, "%s: %d scores", what, len(scores)) {
		return
	}
	better := func(a, b float64) bool {
		if lower {
			return a < b
		}
		return a > b
	}
	seen := map[string]bool{}
	set := func(i int) *recorder {
		r := orig.PredicterClone().(*recorder)
		for k := range grid {
			v := gs.CVResults[k][i]
			switch k {
			case "K":
				r.K = v.(int)
			case "Mode":
				r.Mode = v.(string)
			case "Flag":
				r.Flag = v.(bool)
			case "any":
				r.Any = v
			case "Ref":
				r.Ref = v.(*float64)
			default:
				switch vv := v.(type) {
				case int:
					r.Alpha = float64(vv)
				case float32:
					r.Alpha = float64(vv)
				case float64:
					r.Alpha = vv
				}
			}
		}
		return r
	}
	best := 0
	for i := 0; i < total; i++ {
		key := ""
		for _, k := range []string{"Alpha", "alpha", "K", "Mode", "Flag", "any", "Ref"} {
			if vals, ok := grid[k]; ok {
				if !c.True("columns", len(gs.CVResults[k]) == total, "%s: results of %s %v", what, k, gs.CVResults[k]) {
					return
				}
				v := gs.CVResults[k][i]
				in := false
				for _, w := range vals {
					in = in || w == v
				}
				c.True("value", in, "%s: value %v of %s for candidate %d is not in the grid", what, v, k, i)
				key += fmt.Sprint(v, "|")
			}
		}
		c.True("distinct", !seen[key], "%s: candidate %s evaluated twice", what, key)
		seen[key] = true
		if better(scores[i].(float64), scores[best].(float64)) {
			best = i
		}
		if splits == nil {
			continue
		}
		s, abs := 0., 0.
		for _, sp := range splits {
			r := set(i)
			r.Fit(rowsOf(X, sp.TrainIndex), rowsOf(Y, sp.TrainIndex))
			v := score(rowsOf(Y, sp.TestIndex), r.Predict(rowsOf(X, sp.TestIndex), nil))
			s, abs = s+v, abs+math.Abs(v)
		}
		c.NearRel("score", scores[i].(float64), s/float64(len(splits)), abs/float64(len(splits)), 1e-10, "%s: score of candidate %d", what, i)
	}
	if !c.True("best", gs.BestIndex >= 0 && gs.BestIndex < total && scores[gs.BestIndex].(float64) == scores[best].(float64), "%s: best index %d, scores %v", what, gs.BestIndex, scores) {
		return
	}
	c.True("bestscore", gs.BestScore == scores[gs.BestIndex].(float64), "%s: BestScore %v, want %v", what, gs.BestScore, scores[gs.BestIndex])
	c.True("bestparams", len(gs.BestParams) == len(grid), "%s: BestParams %v", what, gs.BestParams)
	for k, v := range gs.BestParams {
		c.True("bestparams", gs.CVResults[k] != nil && gs.CVResults[k][gs.BestIndex] == v, "%s: BestParams %v", what, gs.BestParams)
	}
	b, ok := gs.BestEstimator.(*recorder)
	if !c.True("bestestimator", ok && b != nil, "%s: no best estimator", what) {
		return
	}
	w := set(gs.BestIndex)
	c.True("bestconfig", b.Alpha == w.Alpha && b.K == w.K && b.Mode == w.Mode && b.Flag == w.Flag && b.Any == w.Any && b.Ref == w.Ref && b.fits == 1, "%s: the best estimator has parameters %v %v %v %v %v %v", what, b.Alpha, b.K, b.Mode, b.Flag, b.Any, b.Ref)
	c.True("bestkept", b.keepX == nil || SameValues(b.keepX, b.fitX), "%s: the train matrix of the best estimator changed", what)
	if splits != nil {
		// the best estimator is the one of a fold with the best score
		bestS, got := math.NaN(), math.NaN()
		for _, sp := range splits {
			r := set(gs.BestIndex)
			r.Fit(rowsOf(X, sp.TrainIndex), rowsOf(Y, sp.TrainIndex))
			s := score(rowsOf(Y, sp.TestIndex), r.Predict(rowsOf(X, sp.TestIndex), nil))
			if math.IsNaN(bestS) || better(s, bestS) {
				bestS = s
			}
			if SameValues(r.fitX, b.fitX) && SameValues(r.fitY, b.fitY) && (math.IsNaN(got) || better(s, got)) {
				got = s
			}
		}
		c.NearRel("bestfold", got, bestS, bestS, 1e-10, "%s: score of the fold of the best estimator", what)
	}
	c.NearMat("predict", gs.Predict(X, nil), b.Predict(X, nil), 0, "%s: predictions", what)
	Z := mat.NewDense(n, 1, nil)
	gs.Predict(X, Z)
	c.NearMat("predict", Z, b.Predict(X, nil), 0, "%s: predictions into a given matrix", what)
	c.True("noutputs", gs.GetNOutputs() == 1 && gs.Score(X, Y) == 42 && gs.IsClassifier() == false, "%s: NOutputs or Score", what)
	c.Sig("%s %x", what, Hash(X, Y))
}

func msSorting(c *C) {
	n := 8 + c.Intn(10)
	X, Y := c.RandMat(n, 1, KGauss), c.RandMat(n, 1, KGauss)
	cv, splits, name := c.splitter(n)
	orig := &recorder{Alpha: c.Float64(), log: &recLog{}}
	res := modelselection.CrossValidate(orig, X, Y, nil, sseScorer, cv, 1+c.Intn(3))
	want := map[base.Predicter]string{}
	for i := range res.Estimator {
		want[res.Estimator[i]] = fmt.Sprint(res.TestScore[i], res.FitTime[i], res.ScoreTime[i])
	}
	sort.Sort(res)
	for i := range res.Estimator {
		c.True("tuple", want[res.Estimator[i]] == fmt.Sprint(res.TestScore[i], res.FitTime[i], res.ScoreTime[i]), "sorting results of %s separated an estimator from its score", name)
		c.True("descending", i == 0 || res.TestScore[i-1] >= res.TestScore[i], "sorted scores %v", res.TestScore)
	}
	c.True("len", res.Len() == len(splits), "Len %d", res.Len())
	c.Sig("%s %v", name, res.TestScore)
}
