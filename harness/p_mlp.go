package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"

	"github.com/pa-m/sklearn/base"
	nn "github.com/pa-m/sklearn/neural_network"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register(&Property{
		ID: "C23",
		Rule: "a case draws an architecture, settings, data and starting weights (loaded through Unmarshal or left by a previous fit), runs the real network and compares losses, weights, validation scores, iteration counts and predictions with a scalar reference network, or gradients with finite differences of the reported loss; " +
			"distinct by architecture, settings and hash of the data",
		Families: []Family{
			{Name: "forward", Quick: 3000, Thorough: 100000, Run: mlpForward},
			{Name: "gradient", Quick: 600, Thorough: 20000, Run: mlpGradient},
			{Name: "train", Quick: 3000, Thorough: 100000, Run: mlpTrain},
			{Name: "shuffle", Quick: 800, Thorough: 20000, Run: mlpShuffle},
			{Name: "lbfgs", Quick: 300, Thorough: 6000, Run: mlpLbfgs},
			{Name: "history", Quick: 600, Thorough: 15000, Run: mlpHistory},
			{Name: "binarizer", Quick: 1000, Thorough: 20000, Run: mlpBinarizer},
			{Name: "labels", Quick: 400, Thorough: 10000, Run: mlpLabels},
			{Name: "losses", Quick: 400, Thorough: 10000, Run: mlpLosses},
		},
	})
}

const (
	mlpReg = iota
	mlpClf
	mlpBase64Reg
	mlpBase64Clf
	mlpBase32Reg
	mlpBase32Clf
	nMlpKinds
)

var mlpNames = []string{"MLPRegressor", "MLPClassifier", "Base64/regression", "Base64/classification", "Base32/regression", "Base32/classification"}

type mlpCfg struct {
	kind            int
	sizes           []int
	act, out        string
	solver          string
	alpha, decay    float64
	batch           int
	sched           string
	lr, powerT      float64
	maxIter         int
	shuffle         bool
	seed            uint64
	tol, mom        float64
	nesterov, early bool
	valFrac         float64
	b1, b2, eps     float64
	noChange        int
	warm, bn        bool
}

func (g *mlpCfg) is32() bool { return g.kind >= mlpBase32Reg }
func (g *mlpCfg) isClf() bool {
	return g.kind == mlpClf || g.kind == mlpBase64Clf || g.kind == mlpBase32Clf
}

func (c *C) mlpConfig() *mlpCfg {
	g := &mlpCfg{kind: c.Intn(nMlpKinds), act: []string{"identity", "logistic", "tanh", "relu"}[c.Intn(4)],
		solver: "sgd", sched: "constant", lr: .01, powerT: .5, maxIter: 1, tol: 1e-4,
		valFrac: .1, b1: .9, b2: .999, eps: 1e-8, noChange: 10, seed: uint64(c.Intn(1000))}
	return g
}

// netUT is a network under test.
type netUT struct {
	b64 *nn.BaseMultilayerPerceptron64
	b32 *nn.BaseMultilayerPerceptron32
	reg *nn.MLPRegressor
	clf *nn.MLPClassifier
}

func (g *mlpCfg) hidden() []int { return append([]int{}, g.sizes[1:len(g.sizes)-1]...) }

func (g *mlpCfg) build() *netUT {
	u := &netUT{}
	switch g.kind {
	case mlpReg:
		u.reg = nn.NewMLPRegressor(g.hidden(), g.act, g.solver, g.alpha)
		u.b64 = &u.reg.BaseMultilayerPerceptron64
	case mlpClf:
		u.clf = nn.NewMLPClassifier(g.hidden(), g.act, g.solver, g.alpha)
		u.b64 = &u.clf.BaseMultilayerPerceptron64
	case mlpBase64Reg, mlpBase64Clf:
		u.b64 = nn.NewBaseMultilayerPerceptron64()
		if g.kind == mlpBase64Reg {
			u.b64.LossFuncName = "square_loss"
		}
	default:
		u.b32 = nn.NewBaseMultilayerPerceptron32()
		if g.kind == mlpBase32Reg {
			u.b32.LossFuncName = "square_loss"
		}
	}
	u.apply(g)
	return u
}

func (u *netUT) apply(g *mlpCfg) {
	if b := u.b64; b != nil {
		b.HiddenLayerSizes, b.Activation, b.Solver, b.Alpha, b.WeightDecay = g.hidden(), g.act, g.solver, g.alpha, g.decay
		b.BatchSize, b.LearningRate, b.LearningRateInit, b.PowerT, b.MaxIter = g.batch, g.sched, g.lr, g.powerT, g.maxIter
		b.Shuffle, b.RandomState, b.Tol, b.Momentum, b.NesterovsMomentum = g.shuffle, base.NewLockedSource(g.seed), g.tol, g.mom, g.nesterov
		b.BatchNormalize = g.bn
		b.EarlyStopping, b.ValidationFraction, b.Beta1, b.Beta2, b.Epsilon, b.NIterNoChange, b.WarmStart = g.early, g.valFrac, g.b1, g.b2, g.eps, g.noChange, g.warm
		return
	}
	b := u.b32
	b.BatchNormalize = g.bn
	f := func(x float64) float32 { return float32(x) }
	b.HiddenLayerSizes, b.Activation, b.Solver, b.Alpha, b.WeightDecay = g.hidden(), g.act, g.solver, f(g.alpha), f(g.decay)
	b.BatchSize, b.LearningRate, b.LearningRateInit, b.PowerT, b.MaxIter = g.batch, g.sched, f(g.lr), f(g.powerT), g.maxIter
	b.Shuffle, b.RandomState, b.Tol, b.Momentum, b.NesterovsMomentum = g.shuffle, base.NewLockedSource(g.seed), f(g.tol), f(g.mom), g.nesterov
	b.EarlyStopping, b.ValidationFraction, b.Beta1, b.Beta2, b.Epsilon, b.NIterNoChange, b.WarmStart = g.early, f(g.valFrac), f(g.b1), f(g.b2), f(g.eps), g.noChange, g.warm
}

func (u *netUT) Fit(X, Y mat.Matrix) {
	switch {
	case u.reg != nil:
		u.reg.Fit(X, Y)
	case u.clf != nil:
		u.clf.Fit(X, Y)
	case u.b64 != nil:
		u.b64.Fit(X, Y)
	default:
		u.b32.Fit(X, Y)
	}
}

func (u *netUT) Predict(X mat.Matrix, Y mat.Mutable) {
	switch {
	case u.reg != nil:
		u.reg.Predict(X, Y)
	case u.clf != nil:
		u.clf.Predict(X, Y)
	case u.b64 != nil:
		u.b64.Predict(X, Y)
	default:
		u.b32.Predict(X, Y)
	}
}

func (u *netUT) Score(X, Y mat.Matrix) float64 {
	switch {
	case u.reg != nil:
		return u.reg.Score(X, Y)
	case u.clf != nil:
		return u.clf.Score(X, Y)
	case u.b64 != nil:
		return u.b64.Score(X, Y)
	}
	return u.b32.Score(X, Y)
}

func (u *netUT) loss() float64 {
	if u.b64 != nil {
		return u.b64.Loss
	}
	return float64(u.b32.Loss)
}
func (u *netUT) nIter() int {
	if u.b64 != nil {
		return u.b64.NIter
	}
	return u.b32.NIter
}
func f32s(v []float32) []float64 {
	o := make([]float64, len(v))
	for i := range v {
		o[i] = float64(v[i])
	}
	return o
}
func (u *netUT) curve() []float64 {
	if u.b64 != nil {
		return u.b64.LossCurve
	}
	return f32s(u.b32.LossCurve)
}
func (u *netUT) valScores() []float64 {
	if u.b64 != nil {
		return u.b64.ValidationScores
	}
	return f32s(u.b32.ValidationScores)
}

// params copies the weights out of a network.
func (u *netUT) params() *refNet {
	p := &refNet{}
	if u.b64 != nil {
		for l, w := range u.b64.Coefs {
			m := make([][]float64, w.Rows)
			for i := range m {
				m[i] = append([]float64{}, w.Data[i*w.Stride:i*w.Stride+w.Cols]...)
			}
			p.W = append(p.W, m)
			p.b = append(p.b, append([]float64{}, u.b64.Intercepts[l]...))
		}
		return p
	}
	for l, w := range u.b32.Coefs {
		m := make([][]float64, w.Rows)
		for i := range m {
			m[i] = f32s(w.Data[i*w.Stride : i*w.Stride+w.Cols])
		}
		p.W = append(p.W, m)
		p.b = append(p.b, f32s(u.b32.Intercepts[l]))
	}
	return p
}

// load gives the network weights the way a saved scikit-learn model does.
func (u *netUT) load(g *mlpCfg, p *refNet) error {
	saved := map[string]interface{}{"activation": g.act, "alpha": g.alpha, "out_activation_": g.out, "coefs_": p.W, "intercepts_": p.b, "hidden_layer_sizes": g.hidden(), "batch_size": "auto"}
	if g.seed%2 == 0 { // the settings may come in a map of their own, with numbers of any kind
		saved["params"] = map[string]interface{}{"activation": g.act, "alpha": g.alpha, "MaxIter": 7, "momentum": .25, "Shuffle": g.shuffle, "solver": g.solver}
		delete(saved, "activation")
		delete(saved, "alpha")
	}
	buf, err := json.Marshal(saved)
	if err != nil {
		panic(err)
	}
	if u.b64 != nil {
		return u.b64.Unmarshal(buf)
	}
	return u.b32.Unmarshal(buf)
}

// ---- reference ----

type refNet struct {
	W [][][]float64
	b [][]float64
}

func (p *refNet) clone() *refNet {
	q := &refNet{}
	for l := range p.W {
		q.W = append(q.W, copy2(p.W[l]))
		q.b = append(q.b, append([]float64{}, p.b[l]...))
	}
	return q
}
func copy2(a [][]float64) [][]float64 {
	o := make([][]float64, len(a))
	for i := range a {
		o[i] = append([]float64{}, a[i]...)
	}
	return o
}

// each visits pointers to all weights in the order intercepts, coefficients of each layer.
func (p *refNet) each(f func(i int, w *float64, isCoef bool)) {
	n := 0
	for l := range p.W {
		for j := range p.b[l] {
			f(n, &p.b[l][j], false)
			n++
		}
		for i := range p.W[l] {
			for j := range p.W[l][i] {
				f(n, &p.W[l][i][j], true)
				n++
			}
		}
	}
}
func (p *refNet) flat() (v []float64) {
	p.each(func(_ int, w *float64, _ bool) { v = append(v, *w) })
	return
}

func (c *C) randNet(sizes []int, scale float64) *refNet {
	p := &refNet{}
	for l := 0; l+1 < len(sizes); l++ {
		w := make([][]float64, sizes[l])
		for i := range w {
			w[i] = make([]float64, sizes[l+1])
			for j := range w[i] {
				w[i][j] = float64(float32(c.NormFloat64() * scale))
			}
		}
		b := make([]float64, sizes[l+1])
		for j := range b {
			b[j] = float64(float32(c.NormFloat64() * scale))
		}
		p.W, p.b = append(p.W, w), append(p.b, b)
	}
	return p
}

func actRow(name string, z []float64) {
	switch name {
	case "logistic":
		for i := range z {
			z[i] = 1 / (1 + math.Exp(-z[i]))
		}
	case "tanh":
		for i := range z {
			z[i] = math.Tanh(z[i])
		}
	case "relu":
		for i := range z {
			z[i] = math.Max(0, z[i])
		}
	case "softmax":
		m := math.Inf(-1)
		for _, v := range z {
			m = math.Max(m, v)
		}
		s := 0.
		for i := range z {
			z[i] = math.Exp(z[i] - m)
			s += z[i]
		}
		for i := range z {
			z[i] /= s
		}
	}
}

// raw is the last layer before its activation; margin is how close a hidden relu came to its kink.
func (p *refNet) raw(g *mlpCfg, x []float64) []float64 {
	a := x
	for l := range p.W {
		z := append([]float64{}, p.b[l]...)
		for i := range a {
			for j := range z {
				z[j] += a[i] * p.W[l][i][j]
			}
		}
		if l+1 < len(p.W) {
			actRow(g.act, z)
		}
		a = z
	}
	return a
}

func nnRows(m mat.Matrix) [][]float64 {
	r, _ := m.Dims()
	o := make([][]float64, r)
	for i := range o {
		o[i] = row(m, i)
	}
	return o
}

// refTrainer replays training.
type refTrainer struct {
	g              *mlpCfg
	p              *refNet
	act            [][][]float64 // buffers of batch rows for each layer but the input
	delta          [][][]float64
	stale, adamBug bool
	B              int
	curve, val     []float64
	nIter          int
	minMargin      float64
	maxLogit       float64
}

func newRefTrainer(g *mlpCfg, p *refNet, B int) *refTrainer {
	t := &refTrainer{g: g, p: p.clone(), B: B, minMargin: math.Inf(1)}
	for l := range p.W {
		k := len(p.b[l])
		mk := func() [][]float64 {
			m := make([][]float64, B)
			for i := range m {
				m[i] = make([]float64, k)
			}
			return m
		}
		t.act, t.delta = append(t.act, mk()), append(t.delta, mk())
	}
	return t
}

func refLoss(out string, y, h [][]float64, rows float64) float64 {
	s := 0.
	for i := range y {
		for j := range y[i] {
			hv, yv := h[i][j], y[i][j]
			switch out {
			case "identity":
				s += (hv - yv) * (hv - yv) / 2
			case "softmax":
				if yv != 0 {
					s -= yv * math.Log(math.Max(hv, 5e-324))
				}
			case "logistic":
				hv = math.Min(math.Max(hv, 5e-324), math.Nextafter(1, 0))
				if yv != 0 {
					s -= yv * math.Log(hv)
				}
				if yv != 1 {
					s -= (1 - yv) * math.Log1p(-hv)
				}
			}
		}
	}
	return s / rows
}

// backprop returns the loss of a batch and the gradient. With t.stale it shows the recorded
// defect of the code: rows left in the buffers by the previous batch take part in a shorter one.
func (t *refTrainer) backprop(X, Y [][]float64) (float64, *refNet) {
	p, g := t.p, t.g
	r := len(X)
	rows := func(layer int) int { // rows of activation[layer]
		if layer > 0 && t.stale {
			return t.B
		}
		return r
	}
	if g.decay > 0 {
		p.each(func(_ int, w *float64, _ bool) { *w *= 1 - g.decay })
	}
	L := len(p.W)
	in := func(l, i int) []float64 {
		if l == 0 {
			return X[i]
		}
		return t.act[l-1][i]
	}
	for l := 0; l < L; l++ {
		for i := 0; i < rows(l+1); i++ {
			z := t.act[l][i]
			if i < rows(l) {
				for j := range z {
					s := 0.
					for k, a := range in(l, i) {
						s += a * p.W[l][k][j]
					}
					z[j] = s
				}
			}
			for j := range z {
				z[j] += p.b[l][j]
			}
			if l+1 < L {
				if g.act == "relu" {
					for _, v := range z {
						if v != 0 {
							t.minMargin = math.Min(t.minMargin, math.Abs(v))
						}
					}
				}
				actRow(g.act, z)
				if g.solver == "adam" {
					// digits lost in a saturated unit come back when adam normalises the gradient
					for _, v := range z {
						switch g.act {
						case "tanh":
							t.minMargin = math.Min(t.minMargin, 1-math.Abs(v))
						case "logistic":
							t.minMargin = math.Min(t.minMargin, math.Min(v, 1-v))
						}
					}
				}
			} else {
				if g.isClf() {
					for _, v := range z {
						t.maxLogit = math.Max(t.maxLogit, math.Abs(v))
					}
				}
				actRow(g.out, z)
			}
		}
	}
	loss := refLoss(g.out, Y, t.act[L-1], float64(rows(L)))
	sq := 0.
	p.each(func(_ int, w *float64, coef bool) {
		if coef {
			sq += *w * *w
		}
	})
	loss += g.alpha * sq / 2 / float64(r)
	grad := p.clone()
	for i := range Y {
		for j := range Y[i] {
			t.delta[L-1][i][j] = t.act[L-1][i][j] - Y[i][j]
		}
	}
	for l := L - 1; l >= 0; l-- {
		for j := range p.b[l] {
			s := 0.
			for i := 0; i < rows(l+1); i++ {
				s += t.delta[l][i][j]
			}
			grad.b[l][j] = s / float64(rows(l+1))
			for k := range p.W[l] {
				s := 0.
				for i := 0; i < rows(l); i++ {
					s += in(l, i)[k] * t.delta[l][i][j]
				}
				grad.W[l][k][j] = (s + g.alpha*p.W[l][k][j]) / float64(r)
			}
		}
		if l == 0 {
			break
		}
		for i := 0; i < rows(l); i++ {
			for k := range p.W[l] {
				s := 0.
				for j := range p.b[l] {
					s += t.delta[l][i][j] * p.W[l][k][j]
				}
				a := t.act[l-1][i][k]
				switch g.act {
				case "logistic":
					s *= a * (1 - a)
				case "tanh":
					s *= 1 - a*a
				case "relu":
					if a == 0 {
						s = 0
					}
				}
				t.delta[l-1][i][k] = s
			}
		}
	}
	return loss, grad
}

func (t *refTrainer) score(X, Y [][]float64) float64 {
	g := t.g
	if g.isClf() {
		ok := 0.
		for i := range X {
			z := t.p.raw(g, X[i])
			if len(z) == 1 {
				t.minMargin = math.Min(t.minMargin, math.Abs(z[0]))
				if (z[0] > 0) == (Y[i][0] == 1) {
					ok++
				}
				continue
			}
			k, margin := argmaxMargin(z)
			t.minMargin = math.Min(t.minMargin, margin)
			if Y[i][k] == 1 {
				ok++
			}
		}
		return ok / float64(len(X))
	}
	H := make([][]float64, len(X))
	for i := range X {
		H[i] = t.p.raw(g, X[i])
	}
	return refR2(Y, H)
}

func refR2(Y, H [][]float64) float64 {
	s := 0.
	for j := range Y[0] {
		m, num, den := 0., 0., 0.
		for i := range Y {
			m += Y[i][j]
		}
		m /= float64(len(Y))
		for i := range Y {
			num += (H[i][j] - Y[i][j]) * (H[i][j] - Y[i][j])
			den += (Y[i][j] - m) * (Y[i][j] - m)
		}
		switch {
		case den > 0:
			s += 1 - num/den
		case num == 0:
			s++
		}
	}
	return s / float64(len(Y[0]))
}

func argmaxMargin(z []float64) (int, float64) {
	k := 0
	for j := range z {
		if z[j] > z[k] {
			k = j
		}
	}
	m := math.Inf(1)
	for j := range z {
		if j != k {
			m = math.Min(m, z[k]-z[j])
		}
	}
	return k, m
}

// train replays a whole Fit without shuffling.
func (t *refTrainer) train(X, Y [][]float64) {
	g := t.g
	n := len(X)
	var XV, YV [][]float64
	best := t.p.clone()
	bestScore, bestLoss := math.Inf(-1), math.Inf(1)
	if g.early {
		k := int(math.Ceil(g.valFrac * float64(n)))
		n -= k
		X, XV = X[:n], X[n:]
		Y, YV = Y[:n], Y[n:]
	}
	np := len(t.p.flat())
	vel, ms, vs := make([]float64, np), make([]float64, np), make([]float64, np)
	lr := g.lr
	steps, bad, seen := 0., 0, 0.
	for it := 0; it < g.maxIter; it++ {
		acc := 0.
		for s := 0; s < n; s += t.B {
			e := s + t.B
			if e > n {
				e = n
			}
			loss, grad := t.backprop(X[s:e], Y[s:e])
			acc += loss * float64(e-s)
			gr := grad.flat()
			steps++
			t.p.each(func(i int, w *float64, _ bool) {
				d := gr[i]
				if g.solver == "sgd" {
					vel[i] = g.mom*vel[i] - lr*d
					if g.nesterov {
						*w += g.mom*vel[i] - lr*d
					} else {
						*w += vel[i]
					}
					return
				}
				ms[i] = g.b1*ms[i] + (1-g.b1)*d
				vs[i] = g.b2*vs[i] + (1-g.b2)*d*d
				pw := steps
				if t.adamBug {
					pw = (steps-1)*float64(np) + float64(i) + 1
				}
				*w -= g.lr * math.Sqrt(1-math.Pow(g.b2, pw)) / (1 - math.Pow(g.b1, pw)) * ms[i] / (math.Sqrt(vs[i]) + g.eps)
			})
		}
		t.nIter++
		seen += float64(n)
		last := acc / float64(n)
		t.curve = append(t.curve, last)
		if g.early {
			sc := t.score(XV, YV)
			t.val = append(t.val, sc)
			if sc < bestScore+g.tol {
				bad++
			} else {
				bad = 0
			}
			if !math.IsInf(bestScore, 0) {
				t.minMargin = math.Min(t.minMargin, math.Abs(sc-bestScore-g.tol))
			}
			if sc > bestScore {
				if !g.isClf() && !math.IsInf(bestScore, 0) {
					t.minMargin = math.Min(t.minMargin, math.Abs(sc-bestScore))
				}
				bestScore = sc
				best = t.p.clone()
			}
		} else {
			if last > bestLoss-g.tol {
				bad++
			} else {
				bad = 0
			}
			if !math.IsInf(bestLoss, 0) {
				t.minMargin = math.Min(t.minMargin, math.Abs(last-bestLoss+g.tol))
			}
		}
		bestLoss = math.Min(bestLoss, last)
		if g.solver == "sgd" && g.sched == "invscaling" {
			lr = g.lr / math.Pow(seen+1, g.powerT)
		}
		if bad > g.noChange {
			if g.solver == "sgd" && g.sched == "adaptive" && lr > 1e-6 {
				lr /= 5
				bad = 0
				continue
			}
			break
		}
	}
	if g.early {
		t.p = best
	}
}

// ---- data ----

// mlpData makes samples and targets; Y is what Fit gets, T what the output layer must learn.
func (c *C) mlpData(g *mlpCfg, n int) (X, Y, T *mat.Dense) {
	f := 1 + c.Intn(4)
	X = c.RandMat(n, f, []int{KGauss, KGauss, KInt, KSparse}[c.Intn(4)])
	for i := 0; i < n; i++ { // representable in single precision
		for j := 0; j < f; j++ {
			X.Set(i, j, float64(float32(X.At(i, j))))
		}
	}
	hidden := make([]int, c.Intn(3))
	for i := range hidden {
		hidden[i] = 1 + c.Intn(4)
	}
	outs := 1
	if !g.isClf() {
		outs = 1 + c.Intn(3)
		Y = mat.NewDense(n, outs, nil)
		kind := c.Intn(4)
		for i := 0; i < n; i++ {
			for j := 0; j < outs; j++ {
				v := c.NormFloat64() + X.At(i, 0)
				if kind == 0 { // 0/1 targets are still a regression
					v = float64(c.Intn(2))
				}
				Y.Set(i, j, float64(float32(v)))
			}
		}
		T, g.out = Y, "identity"
	} else {
		switch c.Intn(3) {
		case 0:
			Y = mat.NewDense(n, 1, nil)
			for i := 0; i < n; i++ {
				Y.Set(i, 0, float64(b2i(c.NormFloat64()+X.At(i, 0) > 0)))
			}
			T, g.out = Y, "logistic"
		case 1: // labels
			k := 2 + c.Intn(3)
			if k > n {
				k = n
			}
			labels := []float64{}
			for v := -2 + c.Intn(3); len(labels) < k; v += 1 + c.Intn(3) {
				labels = append(labels, float64(v))
			}
			labels[k-1] = math.Max(labels[k-1], 2)
			if k == 1 {
				labels[0] = 5
			}
			Y, T = mat.NewDense(n, 1, nil), mat.NewDense(n, k, nil)
			perm := c.Perm(n)
			for i := 0; i < n; i++ {
				l := c.Intn(k)
				if i < k {
					l = i
				}
				Y.Set(perm[i], 0, labels[l])
				T.Set(perm[i], l, 1)
			}
			outs, g.out = k, "softmax"
			if k == 1 {
				g.out = "logistic"
			}
		case 2: // one-hot
			k := 2 + c.Intn(3)
			Y = mat.NewDense(n, k, nil)
			for i := 0; i < n; i++ {
				Y.Set(i, c.Intn(k), 1)
			}
			T, g.out, outs = Y, "softmax", k
		}
	}
	g.sizes = append(append([]int{f}, hidden...), outs)
	return
}

// start makes a network holding known weights, ready for a warm start.
func (c *C) mlpStart(g *mlpCfg, scale float64) (u *netUT, p *refNet) {
	u = g.build()
	p = c.randNet(g.sizes, scale)
	if u.b64 != nil {
		u.b64.Activation, u.b64.Alpha = "relu", 42
	} else {
		u.b32.Activation, u.b32.Alpha = "relu", 42
	}
	if err := u.load(g, p); err != nil {
		c.Failf("load", "Unmarshal: %v", err)
	}
	if b := u.b64; b != nil {
		c.True("loaded", b.Activation == g.act && b.Alpha == g.alpha && (g.seed%2 == 1 || b.MaxIter == 7 && b.Momentum == .25 && b.Shuffle == g.shuffle), "Unmarshal: %s alpha=%v iter=%d momentum=%v", b.Activation, b.Alpha, b.MaxIter, b.Momentum)
	} else {
		b := u.b32
		c.True("loaded", b.Activation == g.act && b.Alpha == float32(g.alpha) && (g.seed%2 == 1 || b.MaxIter == 7 && b.Momentum == .25 && b.Shuffle == g.shuffle), "Unmarshal: %s alpha=%v iter=%d momentum=%v", b.Activation, b.Alpha, b.MaxIter, b.Momentum)
	}
	w := g.warm
	g.warm = true
	u.apply(g)
	g.warm = w
	return
}

func (g *mlpCfg) String() string {
	return fmt.Sprintf("%s %v %s>%s %s alpha=%g decay=%g batch=%d %s lr=%g iter=%d mom=%g/%v early=%v/%g tol=%g/%d", mlpNames[g.kind], g.sizes, g.act, g.out, g.solver, g.alpha, g.decay, g.batch, g.sched, g.lr, g.maxIter, g.mom, g.nesterov, g.early, g.valFrac, g.tol, g.noChange)
}

// logitLimit is how far outputs may saturate before the loss loses its digits.
func (g *mlpCfg) logitLimit() float64 {
	if g.is32() {
		return 5
	}
	return 15
}

func (g *mlpCfg) tolerance() float64 {
	if g.is32() {
		return 2e-3
	}
	return 1e-7
}

func compareNets(got, want *refNet, tol float64) string {
	if len(got.W) != len(want.W) {
		return fmt.Sprintf("%d layers, want %d", len(got.W), len(want.W))
	}
	for l := range got.W {
		if len(got.W[l]) != len(want.W[l]) || len(got.b[l]) != len(want.b[l]) {
			return fmt.Sprintf("layer %d: %dx%d, want %dx%d", l, len(got.W[l]), len(got.b[l]), len(want.W[l]), len(want.b[l]))
		}
	}
	a, b := got.flat(), want.flat()
	if len(a) != len(b) {
		return "different sizes"
	}
	for i := range a {
		if !Close(a[i], b[i], tol) {
			return fmt.Sprintf("weight %d is %v, want %v", i, a[i], b[i])
		}
	}
	return ""
}

// ---- forward ----

func mlpForward(c *C) {
	g := c.mlpConfig()
	n := c.Rarely(c.Size(1, 12, 400), 4000)
	X, Y, T := c.mlpData(g, n)
	Xd := X
	scale := []float64{.5, 1, 3, 300}[c.Intn(4)]
	if g.is32() && scale > 3 {
		scale = 30
	}
	u, p := c.mlpStart(g, scale)
	if d := compareNets(u.params(), p, 0); d != "" {
		c.Failf("load", "%v: weights loaded from json: %s", g, d)
		return
	}
	c.Stage("Predict of %v", g)
	// a loaded network has no label encoder: outputs are those of the last layer
	lx := c.Intn(nLayouts)
	Xl, gx := Layout(Xd, lx)
	_, outs := T.Dims()
	junk := mat.NewDense(n, outs, nil)
	for i := 0; i < n; i++ {
		for j := 0; j < outs; j++ {
			junk.Set(i, j, float64(c.Intn(9)))
		}
	}
	ly := []int{LDense, LView}[c.Intn(2)]
	Yl, gy := Layout(junk, ly)
	u.Predict(Xl, Yl.(mat.Mutable))
	c.True("outside", (gx == nil || gx()) && (gy == nil || gy()) && SameValues(Xl, Xd), "%v: Predict wrote outside of its output", g)
	tol := 1e-9
	if g.is32() {
		tol = 1e-3
	}
	agree, near := 0., false
	P := mat.NewDense(n, outs, nil)
	for i := 0; i < n; i++ {
		z := p.raw(g, row(Xd, i))
		if !g.isClf() {
			mx := 1.
			for _, v := range z {
				mx = math.Max(mx, math.Abs(v))
			}
			mx = math.Max(mx, p.magnitude(g, row(Xd, i)))
			for j := range z {
				P.Set(i, j, z[j])
				if d := math.Abs(Yl.At(i, j) - z[j]); !(d <= tol*mx) {
					c.Failf("predict", "%v: prediction [%d,%d] is %v, the forward pass gives %v (input %s, output %s)", g, i, j, Yl.At(i, j), z[j], layoutNames[lx], layoutNames[ly])
				}
			}
			continue
		}
		mag := p.magnitude(g, row(Xd, i))
		want := make([]float64, outs)
		if outs == 1 {
			if math.Abs(z[0]) < tol*mag {
				near = true
				continue
			}
			want[0] = float64(b2i(z[0] > 0))
			if z[0] > 0 && 1/(1+math.Exp(-z[0])) <= .5 {
				near = true
				continue
			}
		} else {
			k, m := argmaxMargin(z)
			if m < tol*mag || m < 1e-9 || (g.is32() && m < 1e-3) {
				near = true
				continue
			}
			want[k] = 1
		}
		eq := true
		for j := range want {
			if Yl.At(i, j) != want[j] {
				c.Failf("predict", "%v: sample %d predicted %v, outputs before activation are %v (input %s, output %s)", g, i, row(Yl, i), z, layoutNames[lx], layoutNames[ly])
			}
			eq = eq && T.At(i, j) == want[j]
		}
		if eq {
			agree++
		}
	}
	c.Obs(n * outs)
	c.Stage("Score of %v", g)
	lt, _ := Layout(T, c.Intn(nLayouts))
	if !g.isClf() {
		want := refR2(nnRows(T), nnRows(P))
		if math.Abs(want) < 1e6 {
			c.Near("score", u.Score(Xl, lt), want, tol*1e3, "%v: R2 score", g)
		}
	} else if !near {
		c.Near("score", u.Score(Xl, lt), agree/float64(n), 1e-6, "%v: accuracy", g)
	}
	_ = Y
	c.Sig("%v scale=%g %x", g, scale, Hash(X))
}

// magnitude bounds the size of the numbers met on the way to the last layer.
func (p *refNet) magnitude(g *mlpCfg, x []float64) float64 {
	a := make([]float64, len(x))
	for i := range x {
		a[i] = math.Abs(x[i])
	}
	for l := range p.W {
		z := make([]float64, len(p.b[l]))
		for j := range z {
			z[j] = math.Abs(p.b[l][j])
			for i := range a {
				z[j] += a[i] * math.Abs(p.W[l][i][j])
			}
		}
		a = z
	}
	m := 1.
	for _, v := range a {
		m = math.Max(m, v)
	}
	return m
}

// ---- gradient: finite differences of the reported loss ----

func mlpGradient(c *C) {
	g := c.mlpConfig()
	n := c.Size(1, 10, 200)
	X, Y, T := c.mlpData(g, n)
	g.alpha = []float64{0, .1, 2}[c.Intn(3)]
	g.batch = n
	g.lr = 1e-3
	u, p := c.mlpStart(g, 1)
	Xl, Yl := c.layout(X), c.layout(Y)
	c.Stage("gradient step of %v", g)
	u.Fit(Xl, Yl)
	if !c.True("inputs", SameValues(Xl, X) && SameValues(Yl, Y), "%v: Fit changed its inputs", g) {
		return
	}
	t := newRefTrainer(g, p, n)
	wantLoss, grad := t.backprop(nnRows(X), nnRows(T))
	if t.minMargin < 1e-3 || wantLoss > 1e3 || t.maxLogit > g.logitLimit() {
		return
	}
	tol := 1e-8
	if g.is32() {
		tol = 1e-4
	}
	c.Near("loss", u.loss(), wantLoss, tol, "%v: reported loss", g)
	after, before, gr := u.params().flat(), p.flat(), grad.flat()
	c.Obs(len(gr))
	for i := range after {
		got := (before[i] - after[i]) / g.lr
		lim := 1e-8 * (1 + math.Abs(gr[i]) + math.Abs(before[i]))
		if g.is32() {
			lim = 2e-3 * (1 + math.Abs(gr[i]) + math.Abs(before[i]))
		}
		if !(math.Abs(got-gr[i]) <= lim) {
			c.Failf("gradient", "%v: descent direction %d is %v, derivative of the loss %v", g, i, got, gr[i])
		}
	}
	if !g.is32() {
		// the reported loss itself, differentiated numerically
		lossAt := func(q *refNet) float64 {
			v := g.build()
			if err := v.load(g, q); err != nil {
				panic(err)
			}
			w := *g
			w.warm = true
			v.apply(&w)
			v.Fit(X, Y)
			return v.loss()
		}
		for k := 0; k < 4; k++ {
			i := c.Intn(len(gr))
			const h = 1e-5
			q1, q2 := p.clone(), p.clone()
			q1.each(func(j int, w *float64, _ bool) {
				if i == j {
					*w += h
				}
			})
			q2.each(func(j int, w *float64, _ bool) {
				if i == j {
					*w -= h
				}
			})
			fd := (lossAt(q1) - lossAt(q2)) / (2 * h)
			got := (before[i] - after[i]) / g.lr
			c.Near("finite-difference", got, fd, 1e-4*(1+wantLoss), "%v: descent direction %d against the finite difference of the reported loss", g, i)
		}
	}
	c.Sig("%v %x", g, Hash(X, Y))
}

// ---- training ----

func mlpTrain(c *C) {
	g := c.mlpConfig()
	n := c.Size(2, 30, 500)
	X, Y, T := c.mlpData(g, n)
	g.solver = []string{"sgd", "sgd", "adam"}[c.Intn(3)]
	g.sched = []string{"constant", "invscaling", "adaptive"}[c.Intn(3)]
	g.alpha = []float64{0, 1e-4, .5}[c.Intn(3)]
	g.decay = []float64{0, 0, .01}[c.Intn(3)]
	g.lr = []float64{.001, .01, .1}[c.Intn(3)]
	g.powerT = []float64{.5, .25, 1}[c.Intn(3)]
	g.mom = []float64{0, .5, .9}[c.Intn(3)]
	g.nesterov = c.Intn(2) == 0
	g.maxIter = 1 + c.Intn(12)
	g.noChange = 1 + c.Intn(3)
	g.tol = []float64{1e-4, 1e-2, .1}[c.Intn(3)]
	g.b1, g.b2 = []float64{.9, .5}[c.Intn(2)], []float64{.999, .9}[c.Intn(2)]
	g.early = c.Intn(3) == 0
	g.valFrac = []float64{.1, .3, .5}[c.Intn(3)]
	if g.is32() {
		g.maxIter = 1 + c.Intn(4)
		if g.act == "relu" {
			g.act = "tanh"
		}
		g.lr = math.Min(g.lr, .01)
	}
	nTrain := n
	if g.early {
		nTrain = n - int(math.Ceil(g.valFrac*float64(n)))
		if g.is32() {
			// the size of the validation set must not depend on rounding
			if x := g.valFrac * float64(n); math.Abs(x-math.Round(x)) < 1e-3 {
				return
			}
		}
		if nTrain < 1 {
			return
		}
	}
	// mini-batches: mostly a divisor of the training set
	if c.Intn(4) == 0 {
		g.batch = 1 + c.Intn(nTrain)
	} else {
		for {
			g.batch = 1 + c.Intn(nTrain)
			if nTrain%g.batch == 0 {
				break
			}
		}
	}
	B := g.batch
	switch c.Intn(8) {
	case 0:
		g.batch, B = 0, minInt(n, 200)
	case 1:
		g.batch, B = n+5, n
	}
	u, p := c.mlpStart(g, .7)
	// with every sample in one batch the order of the samples does not matter
	g.shuffle = c.Intn(2) == 0 && B >= nTrain
	w := *g
	w.warm = true
	u.apply(&w)
	Xl, Yl := c.layout(X), c.layout(Y)
	c.Stage("Fit of %v", g)
	u.Fit(Xl, Yl)
	if !c.True("inputs", SameValues(Xl, X) && SameValues(Yl, Y), "%v: Fit changed its inputs", g) {
		return
	}
	run := func(stale, adamBug bool) (string, *refTrainer) {
		t := newRefTrainer(g, p, B)
		t.stale, t.adamBug = stale, adamBug
		t.train(nnRows(X), nnRows(T))
		tol := g.tolerance()
		switch {
		case u.nIter() != t.nIter:
			return fmt.Sprintf("%d iterations, want %d", u.nIter(), t.nIter), t
		case len(u.curve()) != len(t.curve):
			return fmt.Sprintf("%d losses, want %d", len(u.curve()), len(t.curve)), t
		case len(u.valScores()) != len(t.val):
			return fmt.Sprintf("%d validation scores, want %d", len(u.valScores()), len(t.val)), t
		}
		for i := range t.curve {
			if !Close(u.curve()[i], t.curve[i], tol) {
				return fmt.Sprintf("loss of epoch %d is %v, want %v", i, u.curve()[i], t.curve[i]), t
			}
		}
		if !Close(u.loss(), t.curve[len(t.curve)-1], tol) {
			return fmt.Sprintf("loss is %v, want %v", u.loss(), t.curve[len(t.curve)-1]), t
		}
		for i := range t.val {
			if !Close(u.valScores()[i], t.val[i], tol*100) {
				return fmt.Sprintf("validation score of epoch %d is %v, want %v", i, u.valScores()[i], t.val[i]), t
			}
		}
		return compareNets(u.params(), t.p, tol), t
	}
	lim := 1e-6
	eps, gain := 1e-12, 1e-8
	if g.is32() {
		lim = 1e-2
		eps, gain = 1e-7, 2e-4
	}
	// unstable tells whether rounding decides the outcome: a decision was taken by a hair, digits
	// were lost, or a tiny change of the starting point grows too much
	unstable := func(t *refTrainer, stale, adamBug bool) bool {
		for _, v := range append(t.p.flat(), t.curve...) {
			if !(math.Abs(v) < 1e4) {
				return true
			}
		}
		if t.minMargin < lim || t.maxLogit > g.logitLimit() {
			return true
		}
		q := p.clone()
		q.each(func(i int, w *float64, _ bool) { *w *= 1 + eps*float64(1-2*(i%2)) })
		t2 := newRefTrainer(g, q, B)
		t2.stale, t2.adamBug = stale, adamBug
		t2.train(nnRows(X), nnRows(T))
		if t2.nIter != t.nIter || compareNets(t2.p, t.p, gain) != "" {
			return true
		}
		for i := range t.curve {
			if !Close(t2.curve[i], t.curve[i], gain) {
				return true
			}
		}
		return false
	}
	d, t := run(false, false)
	partial := nTrain%B != 0
	if d != "" {
		// d may be one of the recorded defects
		known := ""
		for _, v := range [][2]bool{{false, true}, {true, false}, {true, true}} {
			if (v[0] && !partial) || (v[1] && g.solver != "adam") {
				continue
			}
			if e, _ := run(v[0], v[1]); e == "" {
				known = "adam-bias"
				if v[0] {
					known = "partial-batch"
					if v[1] {
						c.Failf("adam-bias", "%v: %s", g, d)
					}
				}
				break
			}
		}
		if known == "" {
			for _, v := range [][2]bool{{false, false}, {false, true}, {true, false}, {true, true}} {
				if (v[0] && !partial) || (v[1] && g.solver != "adam") {
					continue
				}
				if _, t2 := run(v[0], v[1]); unstable(t2, v[0], v[1]) {
					return
				}
			}
		}
		switch known {
		case "":
			c.Failf("trajectory", "%v, %d samples: %s", g, n, d)
		case "partial-batch":
			c.Failf(known, "%v, %d samples: the last batch of %d rows also uses rows of the previous one: %s", g, n, nTrain%B, d)
		default:
			c.Failf(known, "%v: %s", g, d)
		}
	}
	c.Obs(len(t.curve) + len(t.val) + len(t.p.flat()))
	c.Count(g.solver+" "+g.sched, 1)
	if g.early {
		c.Count("early stopping", 1)
	}
	if t.nIter < g.maxIter {
		c.Count("stopped before max_iter", 1)
	}
	if partial {
		c.Count("partial last batch", 1)
	}
	c.Sig("%v n=%d %x", g, n, Hash(X, Y))
}

// ---- shuffling: an epoch visits every training sample once ----

func mlpShuffle(c *C) {
	g := c.mlpConfig()
	nb := 1 + c.Intn(5)
	B := 1 + c.Intn(5)
	g.early = c.Intn(2) == 0
	n := nb * B
	val := 0
	g.valFrac = .3
	if g.early {
		for n = nb * B; ; n++ {
			x := g.valFrac * float64(n)
			val = int(math.Ceil(x))
			if math.Abs(x-math.Round(x)) < 1e-3 {
				return
			}
			if n-val == nb*B {
				break
			}
			if n-val > nb*B {
				return
			}
		}
	}
	if g.is32() {
		g.kind -= 2
	}
	X, Y, T := c.mlpData(g, n)
	g.batch, g.shuffle = B, true
	g.alpha = []float64{0, .5}[c.Intn(2)]
	g.lr = 1e-7
	g.maxIter = 1 + c.Intn(4)
	g.tol = 0
	g.noChange = 100
	u, p := c.mlpStart(g, 1)
	Xl, Yl := c.layout(X), c.layout(Y)
	c.Stage("shuffled Fit of %v", g)
	u.Fit(Xl, Yl)
	if !c.True("inputs", SameValues(Xl, X) && SameValues(Yl, Y), "%v: Fit changed its inputs", g) {
		return
	}
	nT := n - val
	gr := make([]float64, len(p.flat()))
	loss := 0.
	margin := math.Inf(1)
	for i := 0; i < nT; i++ {
		t := newRefTrainer(&mlpCfg{act: g.act, out: g.out, sizes: g.sizes, kind: g.kind}, p, 1)
		l, d := t.backprop(nnRows(X)[i:i+1], nnRows(T)[i:i+1])
		margin = math.Min(margin, t.minMargin)
		loss += l / float64(nT)
		for k, v := range d.flat() {
			gr[k] += v / float64(B)
		}
	}
	sq := 0.
	p.each(func(k int, w *float64, coef bool) {
		if coef {
			gr[k] += g.alpha * *w / float64(B) * float64(nb)
			sq += *w * *w
		}
	})
	loss += g.alpha * sq / 2 / float64(B)
	mx := 0.
	for _, v := range gr {
		mx = math.Max(mx, math.Abs(v))
	}
	if margin < 1e-3 || mx > 30 || loss > 30 {
		return
	}
	c.Near("loss", u.curve()[0], loss, 1e-3, "%v: loss of the first epoch", g)
	if u.nIter() != g.maxIter || g.early {
		if !g.early {
			c.Failf("iterations", "%v: %d iterations", g, u.nIter())
		}
		// early stopping keeps the weights of one of the epochs
	}
	after, before := u.params().flat(), p.flat()
	c.Obs(len(gr))
	ok := false
	msg := ""
	lo, hi := g.maxIter, g.maxIter
	if g.early {
		lo = 1
	}
	for e := lo; e <= hi && !ok; e++ {
		ok = true
		for i := range gr {
			got := (before[i] - after[i]) / g.lr / float64(e)
			if !(math.Abs(got-gr[i]) <= 5e-3*(1+mx)) {
				ok = false
				msg = fmt.Sprintf("mean move %d of an epoch is %v gradients, the sum over batches of every training sample once is %v", i, got, gr[i])
				break
			}
		}
	}
	c.True("epoch", ok, "%v, %d samples, %d for validation: %s", g, n, val, msg)
	c.Sig("%v n=%d %x", g, n, Hash(X, Y))
}

// ---- lbfgs ----

func mlpLbfgs(c *C) {
	g := c.mlpConfig()
	if g.is32() && c.Intn(3) > 0 {
		g.kind -= 2
	}
	n := 3 + c.Intn(20)
	X, Y, T := c.mlpData(g, n)
	if c.Intn(2) == 0 {
		g.sizes = []int{g.sizes[0], g.sizes[len(g.sizes)-1]}
	}
	g.solver = "lbfgs"
	g.alpha = []float64{0, .1, 1}[c.Intn(3)]
	g.maxIter = []int{1, 2, 5, 20, 300}[c.Intn(5)]
	g.batch = []int{0, 1, 7, 200}[c.Intn(4)]
	g.shuffle = c.Intn(2) == 0
	u, p := c.mlpStart(g, 1)
	w := *g
	w.warm = true
	w.tol = []float64{1e-4, 1e-8}[c.Intn(2)]
	u.apply(&w)
	Xl, Yl := c.layout(X), c.layout(Y)
	c.Stage("lbfgs Fit of %v", g)
	u.Fit(Xl, Yl)
	if !c.True("inputs", SameValues(Xl, X) && SameValues(Yl, Y), "%v: Fit changed its inputs", g) {
		return
	}
	if u.b64 != nil {
		c.True("batch-size", u.b64.BatchSize == g.batch, "%v: Fit changed BatchSize to %d", g, u.b64.BatchSize)
	}
	t0 := newRefTrainer(g, p, n)
	l0, _ := t0.backprop(nnRows(X), nnRows(T))
	q := u.params()
	if d := compareNets(q, p, math.Inf(1)); d != "" {
		c.Failf("shape", "%v: %s", g, d)
		return
	}
	t1 := newRefTrainer(g, q, n)
	l1, grad := t1.backprop(nnRows(X), nnRows(T))
	tol := 1e-8
	if g.is32() {
		tol = 1e-3
	}
	if g.is32() && g.isClf() {
		// a saturated output leaves no digits of the loss in single precision
		for _, x := range nnRows(X) {
			for _, q := range []*refNet{p, q} {
				for _, z := range q.raw(g, x) {
					if math.Abs(z) > 5 {
						return
					}
				}
			}
		}
	}
	c.Near("loss", u.loss(), l1, tol, "%v: reported loss against the loss of the weights", g)
	c.True("descent", l1 <= l0*(1+tol)+tol, "%v: loss went from %v to %v", g, l0, l1)
	for i, v := range u.curve() {
		c.True("best", v >= l1-tol*(1+math.Abs(l1)), "%v: evaluation %d had loss %v, the weights kept have %v", g, i, v, l1)
	}
	if len(g.sizes) == 2 && g.maxIter >= 300 && g.alpha > 0 && !g.is32() && w.tol == 1e-8 {
		gn := 0.
		for _, v := range grad.flat() {
			gn = math.Max(gn, math.Abs(v))
		}
		c.True("optimal", gn < 1e-2*(1+l0), "%v: gradient %v left at the end of a convex problem (loss %v, was %v)", g, gn, l1, l0)
		c.Count("convex optimum", 1)
	}
	c.Sig("%v n=%d %x", g, n, Hash(X, Y))
}

// ---- histories of fits ----

func (c *C) mlpSameState(key string, a, b *netUT, tol float64, what string, g *mlpCfg) {
	if d := compareNets(a.params(), b.params(), tol); d != "" {
		c.Failf(key, "%v: %s: %s", g, what, d)
	}
	c.Near(key, a.loss(), b.loss(), tol, "%v: %s: loss", g, what)
	c.True(key, a.nIter() == b.nIter(), "%v: %s: %d and %d iterations", g, what, a.nIter(), b.nIter())
	c.True(key, fmt.Sprint(a.curve()) == fmt.Sprint(b.curve()), "%v: %s: loss curves %v and %v", g, what, a.curve(), b.curve())
	c.True(key, fmt.Sprint(a.valScores()) == fmt.Sprint(b.valScores()), "%v: %s: validation scores %v and %v", g, what, a.valScores(), b.valScores())
}

func mlpHistory(c *C) {
	g := c.mlpConfig()
	X, Y, _ := c.mlpData(g, 4+c.Intn(20))
	_, labels := Y.Dims()
	g.solver = []string{"sgd", "adam", "lbfgs"}[c.Intn(3)]
	g.shuffle = c.Intn(2) == 0
	g.early = c.Intn(3) == 0
	g.valFrac = .25
	g.batch = []int{0, 1, 5, 200}[c.Intn(4)]
	g.maxIter = 1 + c.Intn(6)
	g.alpha = []float64{0, .1}[c.Intn(2)]
	g.bn = c.Intn(4) == 0
	c.Stage("Fit of %v", g)
	cold := g.build()
	cold.Fit(X, Y)
	tiny := *g
	tiny.lr, tiny.solver = 1e-9, "sgd"
	small := tiny.build()
	small.Fit(X, Y)
	for i, w := range small.params().flat() {
		c.True("finite", !math.IsNaN(w), "%v, batch normalization %v: weight %d is NaN after %d iterations", &tiny, g.bn, i, small.nIter())
	}

	// a first fit is the same whether or not a warm start is asked for
	if c.Intn(2) == 0 {
		h := *g
		h.warm = true
		v := h.build()
		c.Stage("first Fit with WarmStart of %v", g)
		v.Fit(X, Y)
		c.mlpSameState("first-warm", v, cold, 0, "first fit with WarmStart", g)
	}

	// a refit forgets what came before
	again := g.build()
	g2 := *g
	X2, Y2, _ := c.mlpData(&g2, 4+c.Intn(30))
	c.Stage("Fit of other data, %v", &g2)
	again.apply(&g2)
	again.Fit(X2, Y2)
	again.apply(g)
	c.Stage("second Fit of %v", g)
	again.Fit(X, Y)
	c.mlpSameState("refit", again, cold, 0, "fit after a fit of other data", g)
	n, _ := X.Dims()
	Z1, Z2 := mat.NewDense(n, labels, nil), mat.NewDense(n, labels, nil)
	c.Stage("Predict of %v", g)
	cold.Predict(X, Z1)
	again.Predict(X, Z2)
	c.NearMat("refit", Z2, Z1, 0, "%v: predictions after a fit of other data", g)

	// weights of a cold start: bounded by the initialisation of Glorot
	if g.solver != "lbfgs" {
		h := *g
		h.maxIter, h.lr, h.early, h.solver, h.mom, h.alpha = 1, 1e-12, false, "sgd", 0, 0
		v := h.build()
		v.Fit(X, Y)
		q := v.params()
		factor := 6.
		if g.act == "logistic" {
			factor = 2
		}
		for l := range q.W {
			bound := math.Sqrt(factor / float64(len(q.W[l])+len(q.b[l])))
			for i := range q.W[l] {
				for _, w := range q.W[l][i] {
					c.True("init", math.Abs(w) <= bound*(1+1e-6)+1e-5, "%v: layer %d starts with weight %v, bound %v", g, l, w, bound)
				}
			}
		}
	}

	// clones: independent of the original, and equal to it when refitted
	if cold.reg != nil || cold.clf != nil {
		h := *g
		h.warm = c.Intn(2) == 0
		orig := h.build()
		orig.Fit(X, Y)
		before := orig.params()
		Z := mat.NewDense(n, labels, nil)
		orig.Predict(X, Z)
		v := &netUT{}
		if orig.reg != nil {
			v.reg = orig.reg.PredicterClone().(*nn.MLPRegressor)
			v.b64 = &v.reg.BaseMultilayerPerceptron64
		} else {
			v.clf = orig.clf.PredicterClone().(*nn.MLPClassifier)
			v.b64 = &v.clf.BaseMultilayerPerceptron64
		}
		c.Stage("clone of %v", g)
		Zc := mat.NewDense(n, labels, nil)
		v.Predict(X, Zc)
		c.NearMat("clone", Zc, Z, 0, "%v: predictions of a clone", g)
		v.Fit(X, Y)
		if d := compareNets(orig.params(), before, 0); d != "" {
			c.Failf("clone", "%v: fitting a clone changed the original: %s", g, d)
		}
		if h.warm && g.solver != "lbfgs" && !g.early {
			// a warm start continues from the weights of the clone
			t := newRefTrainer(g, before, 1)
			_ = t
			if !g.shuffle {
				o2 := orig
				o2.Fit(X, Y)
				if d := compareNets(o2.params(), v.params(), 1e-9); d != "" {
					c.Failf("clone", "%v: the same warm fit of original and clone: %s", g, d)
				}
			}
		}
	}
	c.Sig("%v %x", g, Hash(X, Y))
}

// mlpLabels: classifiers of several label columns answer, for each column, the class with the largest output.
func mlpLabels(c *C) {
	g := c.mlpConfig()
	g.kind = []int{mlpClf, mlpClf, mlpBase64Clf, mlpBase32Clf}[c.Intn(4)]
	n, f, cols := 4+c.Intn(20), 1+c.Intn(4), 1+c.Intn(4)
	X := c.RandMat(n, f, KGauss)
	Y := mat.NewDense(n, cols, nil)
	classes := make([][]float64, cols)
	for j := range classes {
		seen := map[float64]bool{}
		off := float64(c.Intn(5) - 2)
		for i := 0; i < n; i++ {
			v := off + 1.5*float64(c.Intn(4))
			if i == 0 {
				v = off + 4.5 // never only zeros and ones
			}
			Y.Set(i, j, v)
			if !seen[v] {
				seen[v] = true
				classes[j] = append(classes[j], v)
			}
		}
		sort.Float64s(classes[j])
	}
	outs := 0
	for _, k := range classes {
		outs += len(k)
	}
	g.sizes, g.out = append([]int{f}, 1+c.Intn(5), outs), "softmax"
	g.solver, g.maxIter, g.lr = []string{"sgd", "adam", "lbfgs"}[c.Intn(3)], 1+c.Intn(8), .05
	if c.Intn(3) == 0 {
		g.sizes = []int{f, outs}
	}
	g.shuffle = c.Intn(2) == 0
	g.warm = c.Intn(3) == 0
	u := g.build()
	c.Stage("labels of %v, %d columns", g, cols)
	lX, lY := c.layout(X), c.layout(Y)
	u.Fit(lX, lY)
	if g.warm || c.Intn(4) == 0 {
		u.Fit(lX, lY) // the same labels again
	}
	c.True("inputs", SameValues(lX, X) && SameValues(lY, Y), "%v: Fit changed its inputs", g)
	no := 0
	if u.b64 != nil {
		no = u.b64.GetNOutputs()
	} else {
		no = u.b32.GetNOutputs()
	}
	c.True("noutputs", no == cols, "%v: GetNOutputs %d, fitted on %d label columns", g, no, cols)
	nq := 1 + c.Intn(15)
	Q := c.RandMat(nq, f, KGauss)
	P := mat.NewDense(nq, cols, nil)
	u.Predict(c.layout(Q), P)
	if u.clf != nil {
		c.NearMat("alloc", u.clf.Predict(c.layout(Q), nil), P, 0, "%v: predictions without destination", g)
	}
	p := u.params()
	W := mat.NewDense(nq, cols, nil)
	sure := true
	for i := 0; i < nq; i++ {
		z := p.raw(g, row(Q, i))
		mag := 1 + p.magnitude(g, row(Q, i))
		o := 0
		for j := range classes {
			k, m := argmaxMargin(z[o : o+len(classes[j])])
			o += len(classes[j])
			W.Set(i, j, classes[j][k])
			if m < 1e-5*mag || m < 1e-4 {
				sure = false
				W.Set(i, j, P.At(i, j))
				continue
			}
			c.True("predict", P.At(i, j) == classes[j][k], "%v, classes %v: label [%d,%d] is %v, outputs before activation are %v", g, classes, i, j, P.At(i, j), z)
		}
	}
	if sure {
		// accuracy: share of rows with all labels right
		T := Clone(W)
		ok := 0.
		for i := 0; i < nq; i++ {
			if c.Intn(3) == 0 {
				T.Set(i, c.Intn(cols), 99)
			} else {
				ok++
			}
		}
		c.Near("score", u.Score(c.layout(Q), c.layout(T)), ok/float64(nq), 1e-6, "%v: accuracy", g)
	}
	c.Sig("%v %d %x", g, cols, Hash(X, Y))
}

// mlpLosses: the exported losses, also of soft targets, and the derivatives of the exported activations.
func mlpLosses(c *C) {
	n, k := 1+c.Intn(6), 1+c.Intn(4)
	pad := c.Intn(3)
	mk := func(m *mat.Dense) nn.General64 {
		g := nn.General64{Rows: n, Cols: k, Stride: k + pad, Data: make([]float64, n*(k+pad))}
		for i := range g.Data {
			g.Data[i] = 1e30
		}
		for i := 0; i < n; i++ {
			for j := 0; j < k; j++ {
				g.Data[i*g.Stride+j] = m.At(i, j)
			}
		}
		return g
	}
	Y, H := mat.NewDense(n, k, nil), mat.NewDense(n, k, nil)
	for i := 0; i < n; i++ {
		for j := 0; j < k; j++ {
			Y.Set(i, j, []float64{0, 1, c.Float64()}[c.Intn(3)])
			H.Set(i, j, math.Min(.999, math.Max(.001, c.Float64())))
		}
	}
	names := map[string]string{"square_loss": "identity", "log_loss": "softmax", "binary_log_loss": "logistic"}
	for name, out := range names {
		y, h := mk(Y), mk(H)
		got := nn.LossFunctions64[name](y.RawMatrix(), h.RawMatrix())
		want := refLoss(out, nnRows(Y), nnRows(H), float64(n))
		c.Near("loss", got, want, 1e-10*(1+math.Abs(want)), "%s of %s against %s", name, MatString(H), MatString(Y))
	}
	mk32 := func(m *mat.Dense) nn.General32 {
		g := nn.General32{Rows: n, Cols: k, Stride: k + pad, Data: make([]float32, n*(k+pad))}
		for i := range g.Data {
			g.Data[i] = 1e30
		}
		for i := 0; i < n; i++ {
			for j := 0; j < k; j++ {
				g.Data[i*g.Stride+j] = float32(m.At(i, j))
			}
		}
		return g
	}
	for name, out := range names {
		y, h := mk32(Y), mk32(H)
		got := float64(nn.LossFunctions32[name](y.RawMatrix(), h.RawMatrix()))
		want := refLoss(out, nnRows(Y), nnRows(H), float64(n))
		c.Near("loss32", got, want, 1e-4*(1+math.Abs(want)), "%s of %s against %s", name, MatString(H), MatString(Y))
	}
	for _, name := range []string{"identity", "logistic", "tanh", "relu", "softmax"} {
		Z := c.RandMat(n, k, KGauss)
		Z.Scale([]float64{1, 10, .01, 50, 300}[c.Intn(5)], Z)
		{ // single precision
			for i := 0; i < n; i++ {
				for j := 0; j < k; j++ {
					Z.Set(i, j, float64(float32(Z.At(i, j))))
				}
			}
			a, d := mk32(Z), mk32(H)
			nn.Activations32[name](a.RawMatrix())
			for i := 0; i < n; i++ {
				z := mat.Row(nil, i, Z)
				actRow(name, z)
				for j := 0; j < k; j++ {
					c.Near("activation32", a.At(i, j), z[j], 1e-5*(1+math.Abs(z[j])), "single precision %s(%v)", name, mat.Row(nil, i, Z))
				}
			}
			if name != "softmax" {
				nn.Derivatives32[name](a.RawMatrix(), d.RawMatrix())
			}
			for i := 0; i < n; i++ {
				for j := 0; j < k && name != "softmax"; j++ {
					v := a.At(i, j)
					f := map[string]float64{"identity": 1, "logistic": v * (1 - v), "tanh": 1 - v*v, "relu": float64(b2i(v > 0))}[name]
					c.Near("derivative32", d.At(i, j), f*H.At(i, j), 1e-5, "single precision derivative of %s where it is %v", name, v)
				}
				for j := k; j < k+pad; j++ {
					c.True("outside", a.Data[i*a.Stride+j] == 1e30 && d.Data[i*d.Stride+j] == 1e30, "single precision %s wrote outside of its matrix", name)
				}
			}
		}
		if name == "softmax" {
			a := mk(Z)
			nn.Activations64[name](a.RawMatrix())
			for i := 0; i < n; i++ {
				z := mat.Row(nil, i, Z)
				actRow(name, z)
				for j := 0; j < k; j++ {
					c.Near("activation", a.At(i, j), z[j], 1e-12, "softmax(%v)", mat.Row(nil, i, Z))
				}
				for j := k; j < k+pad; j++ {
					c.True("outside", a.Data[i*a.Stride+j] == 1e30, "%s wrote outside of its matrix", name)
				}
			}
			continue
		}
		a, d := mk(Z), mk(H)
		nn.Activations64[name](a.RawMatrix())
		nn.Derivatives64[name](a.RawMatrix(), d.RawMatrix())
		for i := 0; i < n; i++ {
			for j := 0; j < k; j++ {
				z := []float64{Z.At(i, j)}
				actRow(name, z)
				tol := 1e-12 * (1 + math.Abs(z[0]))
				if math.Abs(z[0]) < 1e-6 {
					tol = 1e-14
				}
				c.Near("activation", a.At(i, j), z[0], tol, "%s(%v)", name, Z.At(i, j))
				f := map[string]float64{"identity": 1, "logistic": z[0] * (1 - z[0]), "tanh": 1 - z[0]*z[0], "relu": float64(b2i(z[0] > 0))}[name]
				c.Near("derivative", d.At(i, j), f*H.At(i, j), 1e-10, "%s derivative at %v", name, Z.At(i, j))
			}
			for j := k; j < k+pad; j++ {
				c.True("outside", a.Data[i*a.Stride+j] == 1e30 && d.Data[i*d.Stride+j] == 1e30, "%s wrote outside of its matrix", name)
			}
		}
	}
	c.Sig("%d %d %x", n, k, Hash(Y, H))
}

// ---- label binarizer of the networks ----

func mlpBinarizer(c *C) {
	n, k := c.Size(1, 10, 500), c.Size(1, 3, 20)
	Y := mat.NewDense(n, k, nil)
	for i := 0; i < n; i++ {
		for j := 0; j < k; j++ {
			Y.Set(i, j, float64(c.Intn(4)-1))
		}
	}
	neg, pos := 0., 1.
	if c.Intn(2) == 0 {
		neg, pos = -1, 2
	}
	classes := make([][]float64, k)
	for j := range classes {
		m := map[float64]bool{}
		for _, v := range col(Y, j) {
			if !m[v] {
				m[v] = true
				classes[j] = append(classes[j], v)
			}
		}
		sort.Float64s(classes[j])
	}
	want := mat.NewDense(n, func() (t int) {
		for _, k := range classes {
			t += len(k)
		}
		return
	}(), nil)
	for i := 0; i < n; i++ {
		o := 0
		for j := range classes {
			for _, v := range classes[j] {
				if Y.At(i, j) == v {
					want.Set(i, o, pos)
				} else {
					want.Set(i, o, neg)
				}
				o++
			}
		}
	}
	c.Stage("LabelBinarizer64")
	Yl := c.layout(Y)
	b64 := nn.NewLabelBinarizer64(neg, pos)
	x0 := nn.General64{Rows: n, Cols: 1, Stride: 1, Data: make([]float64, n)}
	_, yb := b64.FitTransform(x0, Yl)
	c.NearMat("binarize64", yb, want, 0, "LabelBinarizer64 of %s", MatString(Y))
	_, yi := b64.InverseTransform(x0, yb)
	c.NearMat("inverse64", yi, Y, 0, "LabelBinarizer64 inverse of %s", MatString(Y))
	c.Stage("LabelBinarizer32")
	b32 := nn.NewLabelBinarizer32(float32(neg), float32(pos))
	x32 := nn.General32{Rows: n, Cols: 1, Stride: 1, Data: make([]float32, n)}
	_, yb3 := b32.FitTransform(x32, Yl)
	c.NearMat("binarize32", yb3, want, 0, "LabelBinarizer32 of %s", MatString(Y))
	_, yi3 := b32.InverseTransform(x32, yb3)
	c.NearMat("inverse32", yi3, Y, 0, "LabelBinarizer32 inverse of %s", MatString(Y))
	// a label never seen belongs to no class
	Q := Clone(Y)
	Q.Set(0, 0, 77)
	_, yq := b64.Transform(x0, Q)
	for o := range classes[0] {
		c.True("unknown", yq.At(0, o) == neg, "unknown label binarized to %v", row(yq, 0))
	}
	c.True("inputs", SameValues(Yl, Y), "binarizer changed its input")
	c.Sig("%v %x", neg, Hash(Y))
}
