package main

import (
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"sort"

	"github.com/pa-m/sklearn/metrics"
	"gonum.org/v1/gonum/mat"
)

func init() {
	log.SetOutput(ioutil.Discard) // the ranking metrics log warnings
	register(&Property{
		ID: "C15",
		Rule: "a case draws true and predicted labels (negative, fractional, missing on one side, tied, one class only), optional sample weights and extra columns, and recomputes accuracy, confusion matrix, " +
			"precision, recall, F-scores and supports from counts; distinct by configuration and hash of the data",
		Families: []Family{
			{Name: "accuracy", Quick: 1000, Thorough: 20000, Run: mtAccuracy},
			{Name: "confusion", Quick: 1000, Thorough: 20000, Run: mtConfusion},
			{Name: "prf", Quick: 1500, Thorough: 30000, Run: mtPRF},
		},
	})
	register(&Property{
		ID: "C16",
		Rule: "a case draws binary labels or label indicators with scores (ties, few distinct values), optional weights, and recomputes every curve point by thresholding, the AUC by comparing all pairs and the " +
			"average precision by its definition; distinct by configuration and hash of the data",
		Families: []Family{
			{Name: "roc", Quick: 1500, Thorough: 30000, Run: mtROC},
			{Name: "precisionrecall", Quick: 1500, Thorough: 30000, Run: mtPR},
			{Name: "multilabel", Quick: 1000, Thorough: 20000, Run: mtMultilabel},
		},
	})
	register(&Property{
		ID: "C17",
		Rule: "a case draws targets and predictions with one or several outputs, optional sample weights and an aggregation, in any matrix layout, and recomputes the metric from its formula; " +
			"distinct by configuration and hash of the data",
		Families: []Family{
			{Name: "errors", Quick: 2000, Thorough: 40000, Run: mtErrors},
			{Name: "r2", Quick: 2000, Thorough: 40000, Run: mtR2},
		},
	})
}

func (c *C) weights(n int) []float64 {
	if c.Intn(2) == 0 {
		return nil
	}
	w := make([]float64, n)
	wide := c.Intn(4) == 0
	for i := range w {
		if wide {
			w[i] = math.Pow(10, 8*c.Float64()-5)
		} else if c.Intn(2) == 0 {
			w[i] = float64(1 + c.Intn(4))
		} else {
			w[i] = .1 + c.Float64()*3
		}
	}
	if c.Intn(5) == 0 { // samples that do not count
		keep := c.Intn(n)
		for i := range w {
			if i != keep && c.Intn(3) == 0 {
				w[i] = 0
			}
		}
	}
	return w
}

// bothClasses gives zero weights up when they leave no positive or no negative sample that counts.
func bothClasses(w, y []float64, pos float64) []float64 {
	var t [2]float64
	for i := range w {
		t[b2i(y[i] == pos)] += w[i]
	}
	for i := range w {
		if (t[0] == 0 || t[1] == 0) && w[i] == 0 {
			w[i] = 1
		}
	}
	return w
}

func wAt(w []float64, i int) float64 {
	if w == nil {
		return 1
	}
	return w[i]
}

func wDense(w []float64) *mat.Dense {
	if w == nil {
		return nil
	}
	return mat.NewDense(len(w), 1, append([]float64{}, w...))
}

// labelPair draws true and predicted labels.
func (c *C) labelPair(n, cols int) (Yt, Yp *mat.Dense) {
	pool := [][]float64{{0, 1}, {0, 1, 2}, {-1, 1}, {3, 7, 10, 12}, {-2.5, .5, 4}, {1}, {1, 1 + 1e-9, 2}, {1e9, 1e9 + 1}, {1e-12, 2e-12, 0}}[c.Intn(9)]
	if c.Intn(6) == 0 { // many classes
		pool = nil
		for i, step := 0, .5+float64(c.Intn(3)); i < c.Size(5, 30, 200); i++ {
			pool = append(pool, float64(i-c.Intn(2)*3)*step)
		}
		sort.Float64s(pool)
	}
	Yt, Yp = mat.NewDense(n, cols, nil), mat.NewDense(n, cols, nil)
	skipT, skipP := -1, -1
	if c.Intn(3) == 0 {
		skipT = c.Intn(len(pool)) // a label which is predicted only
	}
	if c.Intn(3) == 0 {
		skipP = c.Intn(len(pool)) // a label which is never predicted
	}
	draw := func(skip int) float64 {
		for {
			i := c.Intn(len(pool))
			if i != skip || len(pool) == 1 {
				return pool[i]
			}
		}
	}
	for i := 0; i < n; i++ {
		for j := 0; j < cols; j++ {
			Yt.Set(i, j, draw(skipT))
			if c.Intn(2) == 0 {
				Yp.Set(i, j, Yt.At(i, j))
				if skipP >= 0 && Yp.At(i, j) == pool[skipP] {
					Yp.Set(i, j, draw(skipP))
				}
			} else {
				Yp.Set(i, j, draw(skipP))
			}
		}
	}
	return
}

func mtAccuracy(c *C) {
	n, k := c.Rarely(c.Size(1, 20, 4000), 60000), c.Size(1, 3, 12)
	Yt, Yp := c.labelPair(n, k)
	w := c.weights(n)
	N, D := 0., 0.
	for i := 0; i < n; i++ {
		eq := true
		for j := 0; j < k; j++ {
			eq = eq && Yt.At(i, j) == Yp.At(i, j)
		}
		if eq {
			N += wAt(w, i)
		}
		D += wAt(w, i)
	}
	what := fmt.Sprintf("AccuracyScore %s %s w=%v", MatString(Yt), MatString(Yp), w)
	c.Near("normalized", metrics.AccuracyScore(c.layout(Yt), c.layout(Yp), true, wDense(w)), N/D, 1e-12, "%s", what)
	c.Near("count", metrics.AccuracyScore(c.layout(Yt), c.layout(Yp), false, wDense(w)), N, 1e-12, "%s not normalized", what)
	c.Sig("%v %x", w, Hash(Yt, Yp))
}

// confusion is the reference confusion matrix of the first columns.
func confusion(Yt, Yp *mat.Dense, w []float64) (classes []float64, cm [][]float64) {
	set := map[float64]bool{}
	n, _ := Yt.Dims()
	for i := 0; i < n; i++ {
		set[Yt.At(i, 0)], set[Yp.At(i, 0)] = true, true
	}
	for v := range set {
		classes = append(classes, v)
	}
	sort.Float64s(classes)
	cm = make([][]float64, len(classes))
	for i := range cm {
		cm[i] = make([]float64, len(classes))
	}
	for i := 0; i < n; i++ {
		cm[sort.SearchFloat64s(classes, Yt.At(i, 0))][sort.SearchFloat64s(classes, Yp.At(i, 0))] += wAt(w, i)
	}
	return
}

func mtConfusion(c *C) {
	n := c.Rarely(c.Size(1, 20, 4000), 60000)
	Yt, Yp := c.labelPair(n, 1+c.Intn(6)/5)
	w := c.weights(n)
	classes, ref := confusion(Yt, Yp, w)
	Ta, Pa := DenseView(Yt, c.Intn(3) == 0), DenseView(Yp, c.Intn(3) == 0)
	got := metrics.ConfusionMatrix(Ta, Pa, w)
	what := fmt.Sprintf("ConfusionMatrix %s %s w=%v", MatString(Yt), MatString(Yp), w)
	if !c.True("dims", dimsAre(got, len(classes), len(classes)), "%s: %s for classes %v", what, MatString(got), classes) {
		return
	}
	for i := range classes {
		for j := range classes {
			c.Near("cell", got.At(i, j), ref[i][j], 1e-12, "%s: cell %d,%d", what, i, j)
		}
	}
	c.True("inputs", SameValues(Ta, Yt) && SameValues(Pa, Yp), "%s changed its inputs", what)
	c.Sig("%v %x", w, Hash(Yt, Yp))
}

func mtPRF(c *C) {
	n := c.Rarely(c.Size(1, 20, 3000), 40000)
	Yt, Yp := c.labelPair(n, 1)
	w := c.weights(n)
	beta := []float64{1, .5, 2, .1 + 2*c.Float64()}[c.Intn(4)]
	classes, cm := confusion(Yt, Yp, w)
	k := len(classes)
	type prfs struct{ p, r, f, s float64 }
	score := func(tp, pred, truth, beta float64) (o prfs) {
		if pred > 0 {
			o.p = tp / pred
		}
		if truth > 0 {
			o.r = tp / truth
		}
		if o.p > 0 || o.r > 0 {
			o.f = (1 + beta*beta) * o.p * o.r / (beta*beta*o.p + o.r)
		}
		o.s = truth
		return
	}
	avg := func(beta float64) (per []prfs, macro, micro, weighted prfs) {
		var tp, pred, truth, W float64
		for a := 0; a < k; a++ {
			P, T := 0., 0.
			for b := 0; b < k; b++ {
				P += cm[b][a]
				T += cm[a][b]
			}
			o := score(cm[a][a], P, T, beta)
			per = append(per, o)
			tp, pred, truth = tp+cm[a][a], pred+P, truth+T
			macro.p, macro.r, macro.f = macro.p+o.p/float64(k), macro.r+o.r/float64(k), macro.f+o.f/float64(k)
			weighted.p, weighted.r, weighted.f = weighted.p+o.p*T, weighted.r+o.r*T, weighted.f+o.f*T
			W += T
		}
		micro = score(tp, pred, truth, beta)
		weighted = prfs{p: weighted.p / W, r: weighted.r / W, f: weighted.f / W}
		return
	}
	per, macro, micro, weighted := avg(beta)
	_, macro1, micro1, weighted1 := avg(1)
	Ta, Pa := DenseView(Yt, c.Intn(3) == 0), DenseView(Yp, c.Intn(3) == 0)
	what := fmt.Sprintf("%s %s beta=%v w=%v", MatString(Yt), MatString(Yp), beta, w)
	for a := 0; a < k; a++ {
		p, r, f, s := metrics.PrecisionRecallFScoreSupport(Ta, Pa, beta, nil, a, "", nil, w)
		o := per[a]
		c.Near("class precision", p, o.p, 1e-12, "precision of class %v: %s", classes[a], what)
		c.Near("class recall", r, o.r, 1e-12, "recall of class %v: %s", classes[a], what)
		c.Near("class fscore", f, o.f, 1e-12, "fscore of class %v: %s", classes[a], what)
		c.Near("class support", s, o.s, 1e-12, "support of class %v: %s", classes[a], what)
	}
	for i, name := range []string{"macro", "micro", "weighted"} {
		o, o1 := []prfs{macro, micro, weighted}[i], []prfs{macro1, micro1, weighted1}[i]
		p, r, f, _ := metrics.PrecisionRecallFScoreSupport(Ta, Pa, beta, nil, -1, name, nil, w)
		c.Near(name+" precision", p, o.p, 1e-12, "%s precision: %s", name, what)
		c.Near(name+" recall", r, o.r, 1e-12, "%s recall: %s", name, what)
		c.Near(name+" fscore", f, o.f, 1e-12, "%s fscore: %s", name, what)
		c.Near(name+" PrecisionScore", metrics.PrecisionScore(Ta, Pa, name, w), o.p, 1e-12, "PrecisionScore %s: %s", name, what)
		c.Near(name+" RecallScore", metrics.RecallScore(Ta, Pa, name, w), o.r, 1e-12, "RecallScore %s: %s", name, what)
		c.Near(name+" F1Score", metrics.F1Score(Ta, Pa, name, w), o1.f, 1e-12, "F1Score %s: %s", name, what)
		c.Near(name+" FBetaScore", metrics.FBetaScore(Ta, Pa, beta, name, w), o.f, 1e-12, "FBetaScore %s: %s", name, what)
	}
	c.True("inputs", SameValues(Ta, Yt) && SameValues(Pa, Yp), "inputs changed: %s", what)
	c.Sig("%v %v %x", beta, w, Hash(Yt, Yp))
}

// binaryScores draws labels with both classes present, and scores.
func (c *C) binaryScores(n int) (y, s []float64, pos float64) {
	neg := 0.
	pos = 1
	if c.Intn(3) == 0 {
		neg = -1
	}
	for {
		y, s = nil, nil
		np := 0
		for i := 0; i < n; i++ {
			v := neg
			if c.Intn(2) == 0 {
				v, np = pos, np+1
			}
			y = append(y, v)
		}
		if np > 0 && np < n {
			break
		}
	}
	kind := c.Intn(4)
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			s = append(s, c.Float64())
		case 1:
			s = append(s, float64(c.Intn(4))/4)
		case 2:
			s = append(s, y[i]+c.NormFloat64())
		case 3:
			s = append(s, -y[i]+math.Round(2*c.NormFloat64()))
		}
	}
	switch c.Intn(6) {
	case 0: // tiny or huge scores
		k := math.Pow(10, float64(c.Intn(25)-12))
		for i := range s {
			s[i] *= k
		}
	case 1: // scores that differ in the last bits
		for i := range s {
			s[i] = math.Float64frombits(math.Float64bits(1+float64(c.Intn(2))) + uint64(c.Intn(5)))
		}
	}
	return
}

func colMat(v []float64) *mat.Dense { return mat.NewDense(len(v), 1, append([]float64{}, v...)) }

func aucRef(y, s, w []float64, pos float64) float64 {
	N, D := 0., 0.
	for i := range y {
		for j := range y {
			if y[i] == pos && y[j] != pos {
				ww := wAt(w, i) * wAt(w, j)
				D += ww
				if s[i] > s[j] {
					N += ww
				} else if s[i] == s[j] {
					N += ww / 2
				}
			}
		}
	}
	return N / D
}

func apRef(y, s, w []float64, pos float64) float64 {
	ap, prev := 0., 0.
	th := distinctDesc(s)
	W := 0.
	for i := range y {
		if y[i] == pos {
			W += wAt(w, i)
		}
	}
	for _, t := range th {
		tp, all := 0., 0.
		for i := range y {
			if s[i] >= t {
				all += wAt(w, i)
				if y[i] == pos {
					tp += wAt(w, i)
				}
			}
		}
		ap += (tp/W - prev) * tp / all
		prev = tp / W
	}
	return ap
}

func distinctDesc(s []float64) (out []float64) {
	v := sortedCopy(s)
	for i := len(v) - 1; i >= 0; i-- {
		if len(out) == 0 || out[len(out)-1] != v[i] {
			out = append(out, v[i])
		}
	}
	return
}

func mtROC(c *C) {
	n := c.Rarely(c.Size(2, 25, 1500), 12000)
	y, s, pos := c.binaryScores(n)
	if c.Intn(3) == 0 {
		pos = 2
		for i := range y {
			y[i] = 1 + math.Max(0, y[i])
		}
	}
	w := bothClasses(c.weights(n), y, pos)
	Y, S := DenseView(colMat(y), c.Intn(3) == 0), DenseView(colMat(s), c.Intn(3) == 0)
	what := fmt.Sprintf("labels %v scores %v positive %v weights %v", y, s, pos, w)
	fpr, tpr, th := metrics.ROCCurve(Y, S, pos, w)
	if !c.True("length", len(fpr) == len(tpr) && len(fpr) == len(th) && len(fpr) > 0, "ROCCurve lengths %d %d %d: %s", len(fpr), len(tpr), len(th), what) {
		return
	}
	P, N := 0., 0.
	for i := range y {
		if y[i] == pos {
			P += wAt(w, i)
		} else {
			N += wAt(w, i)
		}
	}
	for k, t := range th {
		tp, fp := 0., 0.
		for i := range y {
			if s[i] >= t {
				if y[i] == pos {
					tp += wAt(w, i)
				} else {
					fp += wAt(w, i)
				}
			}
		}
		c.Near("tpr", tpr[k], tp/P, 1e-12, "true positive rate at threshold %v: %s", t, what)
		c.Near("fpr", fpr[k], fp/N, 1e-12, "false positive rate at threshold %v: %s", t, what)
		c.True("thresholds", k == 0 || th[k-1] > t, "thresholds %v don't decrease: %s", th, what)
	}
	c.Near("start", fpr[0], 0, 0, "ROCCurve starts at fpr %v: %s", fpr[0], what)
	c.Near("end", fpr[len(fpr)-1]+tpr[len(fpr)-1], 2, 1e-12, "ROCCurve ends at %v,%v: %s", fpr[len(fpr)-1], tpr[len(fpr)-1], what)
	seen := setOfFloats(th)
	for i, v := range s {
		if wAt(w, i) == 0 {
			continue
		}
		c.True("complete", seen[v], "score %v is not among the thresholds %v: %s", v, th, what)
	}
	c.Near("auc", metrics.AUC(fpr, tpr), aucRef(y, s, w, pos), 1e-11, "AUC: %s", what)
	{
		c.Near("rocauc", metrics.ROCAUCScore(Y, S, []string{"", "macro", "micro", "weighted"}[c.Intn(4)], w), aucRef(y, s, w, 1), 1e-11, "ROCAUCScore: %s", what)
	}
	c.True("inputs", SameValues(Y, colMat(y)) && SameValues(S, colMat(s)), "inputs changed: %s", what)
	c.Sig("%s", what)
}

func setOfFloats(v []float64) map[float64]bool {
	m := map[float64]bool{}
	for _, x := range v {
		m[x] = true
	}
	return m
}

func mtPR(c *C) {
	n := c.Rarely(c.Size(2, 25, 1500), 12000)
	y, s, pos := c.binaryScores(n)
	w := bothClasses(c.weights(n), y, pos)
	Y, S := DenseView(colMat(y), c.Intn(3) == 0), DenseView(colMat(s), c.Intn(3) == 0)
	what := fmt.Sprintf("labels %v scores %v positive %v weights %v", y, s, pos, w)
	pr, rc, th := metrics.PrecisionRecallCurve(Y, S, pos, w)
	if !c.True("length", len(pr) == len(rc) && len(pr) == len(th)+1, "PrecisionRecallCurve lengths %d %d %d: %s", len(pr), len(rc), len(th), what) {
		return
	}
	P := 0.
	for i := range y {
		if y[i] == pos {
			P += wAt(w, i)
		}
	}
	for k, t := range th {
		tp, all := 0., 0.
		for i := range y {
			if s[i] >= t {
				all += wAt(w, i)
				if y[i] == pos {
					tp += wAt(w, i)
				}
			}
		}
		if all == 0 {
			continue // undefined
		}
		c.Near("precision", pr[k], tp/all, 1e-12, "precision at threshold %v: %s", t, what)
		c.Near("recall", rc[k], tp/P, 1e-12, "recall at threshold %v: %s", t, what)
		c.True("thresholds", k == 0 || th[k-1] < t, "thresholds %v don't increase: %s", th, what)
	}
	c.True("last", pr[len(th)] == 1 && rc[len(th)] == 0, "curve ends at %v,%v: %s", pr[len(th)], rc[len(th)], what)
	// the curve starts where full recall is attained and has all higher scores
	lowest := math.Inf(1)
	for i := range y {
		if y[i] == pos && wAt(w, i) > 0 {
			lowest = math.Min(lowest, s[i])
		}
	}
	want := 0
	for _, v := range distinctDesc(s) {
		if v >= lowest {
			want++
		}
	}
	zero := false
	for _, v := range w {
		zero = zero || v == 0
	}
	c.True("complete", zero || len(th) == want && th[0] == lowest, "thresholds %v, want those from %v: %s", th, lowest, what)
	c.Near("average precision", metrics.AveragePrecisionScore(Y, S, []string{"", "macro"}[c.Intn(2)], w), apRef(y, s, w, pos), 1e-11, "AveragePrecisionScore: %s", what)
	c.Sig("%s", what)
}

func mtMultilabel(c *C) {
	n, k := c.Size(2, 12, 60), c.Size(2, 4, 25)
	if c.Intn(20) == 0 {
		n, k = 8+c.Intn(10), 6+c.Intn(12)
	}
	Y, S := mat.NewDense(n, k, nil), mat.NewDense(n, k, nil)
	for i := 0; i < n; i++ {
		for j := 0; j < k; j++ {
			Y.Set(i, j, float64(c.Intn(2)))
		}
	}
	for ok := false; !ok; { // both values in every row and column
		ok = true
		for j := 0; j < k; j++ {
			if s := sum(col(Y, j)); s == 0 || s == float64(n) {
				i := c.Intn(n)
				Y.Set(i, j, 1-Y.At(i, j))
				ok = false
			}
		}
		for i := 0; i < n; i++ {
			if s := sum(row(Y, i)); s == 0 || s == float64(k) {
				j := c.Intn(k)
				Y.Set(i, j, 1-Y.At(i, j))
				ok = false
			}
		}
	}
	for i := 0; i < n; i++ {
		for j := 0; j < k; j++ {
			if c.Intn(2) == 0 {
				S.Set(i, j, float64(c.Intn(5))/5)
			} else {
				S.Set(i, j, c.Float64())
			}
		}
	}
	w := c.weights(n)
	for j := 0; j < k; j++ {
		w = bothClasses(w, col(Y, j), 1)
	}
	average := []string{"macro", "", "micro", "weighted", "samples"}[c.Intn(5)]
	for m, name := range []string{"ROCAUCScore", "AveragePrecisionScore"} {
		ref := []func(y, s, w []float64, pos float64) float64{aucRef, apRef}[m]
		var want float64
		switch average {
		case "macro", "":
			for j := 0; j < k; j++ {
				want += ref(col(Y, j), col(S, j), w, 1) / float64(k)
			}
		case "weighted":
			W := 0.
			for j := 0; j < k; j++ {
				sup := 0.
				for i := 0; i < n; i++ {
					sup += Y.At(i, j) * wAt(w, i)
				}
				want += sup * ref(col(Y, j), col(S, j), w, 1)
				W += sup
			}
			want /= W
		case "samples":
			W := 0.
			for i := 0; i < n; i++ {
				want += wAt(w, i) * ref(row(Y, i), row(S, i), nil, 1)
				W += wAt(w, i)
			}
			want /= W
		case "micro":
			var y, s, ww []float64
			for i := 0; i < n; i++ {
				for j := 0; j < k; j++ {
					y, s, ww = append(y, Y.At(i, j)), append(s, S.At(i, j)), append(ww, wAt(w, i))
				}
			}
			want = ref(y, s, ww, 1)
		}
		f := []func(Ytrue, Yscore *mat.Dense, average string, sampleWeight []float64) float64{metrics.ROCAUCScore, metrics.AveragePrecisionScore}[m]
		Ya, Sa := DenseView(Y, c.Intn(3) == 0), DenseView(S, c.Intn(3) == 0)
		wa := append([]float64(nil), w...)
		c.Near(name+" "+average, f(Ya, Sa, average, wa), want, 1e-11, "%s(%q) of %s %s w=%v", name, average, MatString(Y), MatString(S), w)
		c.True("inputs", SameValues(Ya, Y) && SameValues(Sa, S) && fmt.Sprint(wa) == fmt.Sprint(w), "%s(%q) changed its inputs", name, average)
	}
	c.Sig("%s %v %x", average, w, Hash(Y, S))
}

func (c *C) targets() (Y, P *mat.Dense, w []float64, agg, what string) {
	n, k := c.Rarely(c.Size(1, 20, 3000), 40000), c.Size(1, 3, 40)
	Y, kind := c.Mat(n, k)
	P = c.RandMat(n, k, KGauss)
	if c.Intn(3) > 0 {
		P.Add(P, Y)
	}
	switch c.Intn(6) {
	case 0: // all columns at one scale, tiny to huge
		s := math.Pow(10, float64(c.Intn(18)-9))
		Y.Scale(s, Y)
		P.Scale(s, P)
	case 1: // some values predicted exactly
		for i := 0; i < n; i++ {
			for j := 0; j < k; j++ {
				if c.Intn(2) == 0 {
					P.Set(i, j, Y.At(i, j))
				}
			}
		}
	}
	w = c.weights(n)
	agg = []string{"", "uniform_average", "raw_values", "variance_weighted"}[c.Intn(4)]
	return Y, P, w, agg, fmt.Sprintf("%s agg=%q w=%v %s %s", kind, agg, w, MatString(Y), MatString(P))
}

func mtErrors(c *C) {
	Y, P, w, agg, what := c.targets()
	if agg == "variance_weighted" {
		agg = "raw_values"
	}
	n, k := Y.Dims()
	mse, mae := mat.NewDense(1, k, nil), mat.NewDense(1, k, nil)
	for j := 0; j < k; j++ {
		N, A, D := 0., 0., 0.
		for i := 0; i < n; i++ {
			d := Y.At(i, j) - P.At(i, j)
			N, A, D = N+wAt(w, i)*d*d, A+wAt(w, i)*math.Abs(d), D+wAt(w, i)
		}
		mse.Set(0, j, N/D)
		mae.Set(0, j, A/D)
	}
	if agg != "raw_values" {
		mse, mae = mat.NewDense(1, 1, []float64{mean(row(mse, 0))}), mat.NewDense(1, 1, []float64{mean(row(mae, 0))})
	}
	gotS, gotA := metrics.MeanSquaredError(c.layout(Y), c.layout(P), wDense(w), agg), metrics.MeanAbsoluteError(c.layout(Y), c.layout(P), wDense(w), agg)
	_, ko := mse.Dims()
	if c.True("dims", dimsAre(gotS, 1, ko) && dimsAre(gotA, 1, ko), "dimensions %s %s: %s", MatString(gotS), MatString(gotA), what) {
		for j := 0; j < ko; j++ {
			c.NearRel("mse", gotS.At(0, j), mse.At(0, j), mse.At(0, j), 1e-10, "MeanSquaredError output %d %s", j, what)
			c.NearRel("mae", gotA.At(0, j), mae.At(0, j), mae.At(0, j), 1e-10, "MeanAbsoluteError output %d %s", j, what)
		}
	}
	c.NearMat("zero", metrics.MeanSquaredError(c.layout(Y), c.layout(Y), wDense(w), ""), mat.NewDense(1, 1, nil), 0, "MeanSquaredError of a perfect prediction %s", what)
	c.Sig("%s %v %x", agg, w, Hash(Y, P))
}

func mtR2(c *C) {
	Y, P, w, agg, what := c.targets()
	n, k := Y.Dims()
	raw, den := mat.NewDense(1, k, nil), make([]float64, k)
	constant := false
	for j := 0; j < k; j++ {
		m, W := 0., 0.
		for i := 0; i < n; i++ {
			m, W = m+wAt(w, i)*Y.At(i, j), W+wAt(w, i)
		}
		m /= W
		N, big := 0., 0.
		for i := 0; i < n; i++ {
			N += wAt(w, i) * math.Pow(Y.At(i, j)-P.At(i, j), 2)
			den[j] += wAt(w, i) * math.Pow(Y.At(i, j)-m, 2)
			big += math.Abs(Y.At(i, j))
		}
		if den[j] <= 1e-12*big*big*W || den[j] < 1e-19 {
			constant = true
		}
		raw.Set(0, j, 1-N/den[j])
	}
	if constant {
		// R2 of a constant target is 1 for a perfect prediction and not positive otherwise
		c.Near("constant perfect", metrics.R2Score(Y, Y, wDense(w), "").At(0, 0), 1, 1e-6, "R2Score of a perfect prediction of %s", what)
		return
	}
	want := raw
	switch agg {
	case "raw_values":
	case "variance_weighted":
		N := 0.
		for j := range den {
			N += den[j] * raw.At(0, j)
		}
		want = mat.NewDense(1, 1, []float64{N / sum(den)})
	default:
		want = mat.NewDense(1, 1, []float64{mean(row(raw, 0))})
	}
	c.NearMat("r2", metrics.R2Score(c.layout(Y), c.layout(P), wDense(w), agg), want, 1e-9, "R2Score %s", what)
	c.NearMat("perfect", metrics.R2Score(c.layout(Y), c.layout(Y), wDense(w), ""), mat.NewDense(1, 1, []float64{1}), 1e-12, "R2Score of a perfect prediction %s", what)
	c.Sig("%s %v %x", agg, w, Hash(Y, P))
}
