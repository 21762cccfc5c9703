package main

import (
	"fmt"
	"math"

	gp "github.com/pa-m/sklearn/gaussian_process"
	"github.com/pa-m/sklearn/gaussian_process/kernels"
	"github.com/pa-m/sklearn/gaussian_process/tensor"
	"github.com/pa-m/sklearn/metrics"
	"gonum.org/v1/gonum/mat"
)

// kNode is the reference description of a covariance kernel: a tree of formulas
// with its own hyperparameter list.
type kNode struct {
	op     string // const white rbf dot sum prod pow
	val    []float64
	bounds [][2]float64
	exp    float64
	a, b   *kNode
}

func (k *kNode) free() (vals []*float64, bounds [][2]float64) {
	switch k.op {
	case "sum", "prod":
		v1, b1 := k.a.free()
		v2, b2 := k.b.free()
		return append(v1, v2...), append(b1, b2...)
	case "pow":
		return k.a.free()
	}
	for i := range k.val {
		if i < len(k.bounds) && k.bounds[i][0] != k.bounds[i][1] {
			vals = append(vals, &k.val[i])
			bounds = append(bounds, k.bounds[i])
		}
	}
	return
}

func (k *kNode) eval(x, y []float64) float64 {
	switch k.op {
	case "const":
		return k.val[0]
	case "white":
		for i := range x {
			if x[i] != y[i] {
				return 0
			}
		}
		return k.val[0]
	case "rbf":
		s := 0.
		for i := range x {
			l := k.val[0]
			if len(k.val) > 1 {
				l = k.val[i]
			}
			d := (x[i] - y[i]) / l
			s += d * d
		}
		return math.Exp(-s / 2)
	case "dot":
		s := k.val[0] * k.val[0]
		for i := range x {
			s += x[i] * y[i]
		}
		return s
	case "sum":
		return k.a.eval(x, y) + k.b.eval(x, y)
	case "prod":
		return k.a.eval(x, y) * k.b.eval(x, y)
	case "pow":
		return math.Pow(k.a.eval(x, y), k.exp)
	}
	panic("kNode")
}

// grad returns derivatives with respect to logs of free hyperparameters
func (k *kNode) grad(x, y []float64) []float64 {
	free := func(i int) bool { return i < len(k.bounds) && k.bounds[i][0] != k.bounds[i][1] }
	switch k.op {
	case "const", "white":
		if free(0) {
			return []float64{k.eval(x, y)}
		}
		return nil
	case "dot":
		if free(0) {
			return []float64{2 * k.val[0] * k.val[0]}
		}
		return nil
	case "rbf":
		v := k.eval(x, y)
		var g []float64
		for l := range k.val {
			if !free(l) {
				continue
			}
			s := 0.
			for i := range x {
				if len(k.val) == 1 || i == l {
					d := (x[i] - y[i]) / k.val[l]
					s += d * d
				}
			}
			g = append(g, v*s)
		}
		return g
	case "sum":
		return append(append([]float64{}, k.a.grad(x, y)...), k.b.grad(x, y)...)
	case "prod":
		va, vb := k.a.eval(x, y), k.b.eval(x, y)
		var g []float64
		for _, v := range k.a.grad(x, y) {
			g = append(g, v*vb)
		}
		for _, v := range k.b.grad(x, y) {
			g = append(g, v*va)
		}
		return g
	case "pow":
		va := k.a.eval(x, y)
		var g []float64
		for _, v := range k.a.grad(x, y) {
			g = append(g, v*k.exp*math.Pow(va, k.exp-1))
		}
		return g
	}
	panic("kNode")
}

func (k *kNode) stationary() bool {
	switch k.op {
	case "dot":
		return false
	case "sum", "prod":
		return k.a.stationary() && k.b.stationary()
	case "pow":
		return k.a.stationary()
	}
	return true
}

func (k *kNode) clone() *kNode {
	c := *k
	c.val = append([]float64(nil), k.val...)
	c.bounds = append([][2]float64(nil), k.bounds...)
	if k.a != nil {
		c.a = k.a.clone()
	}
	if k.b != nil {
		c.b = k.b.clone()
	}
	return &c
}

// positive: values are positive and lose no relative accuracy
func (k *kNode) positive() bool {
	switch k.op {
	case "const", "rbf":
		return true
	case "sum", "prod":
		return k.a.positive() && k.b.positive()
	case "pow":
		return k.a.positive()
	}
	return false
}

func (k *kNode) real() kernels.Kernel {
	b := func() [2]float64 {
		if len(k.bounds) > 0 {
			return k.bounds[0]
		}
		return [2]float64{}
	}
	switch k.op {
	case "const":
		return &kernels.ConstantKernel{ConstantValue: k.val[0], ConstantValueBounds: b()}
	case "white":
		return &kernels.WhiteKernel{NoiseLevel: k.val[0], NoiseLevelBounds: b()}
	case "dot":
		return &kernels.DotProduct{Sigma0: k.val[0], Sigma0Bounds: b()}
	case "rbf":
		return &kernels.RBF{LengthScale: append([]float64(nil), k.val...), LengthScaleBounds: append([][2]float64(nil), k.bounds...)}
	case "sum", "prod":
		o := kernels.KernelOperator{K1: k.a.real()}
		if o.K2 = o.K1; k.b != k.a {
			o.K2 = k.b.real()
		}
		if k.op == "sum" {
			return &kernels.Sum{KernelOperator: o}
		}
		return &kernels.Product{KernelOperator: o}
	case "pow":
		return &kernels.Exponentiation{Kernel: k.a.real(), Exponent: k.exp}
	}
	panic("kNode")
}

func (k *kNode) shape() string {
	switch k.op {
	case "sum", "prod":
		return k.op + "(" + k.a.shape() + "," + k.b.shape() + ")"
	case "pow":
		return "pow(" + k.a.shape() + ")"
	}
	s := k.op
	for i := range k.val {
		if i < len(k.bounds) && k.bounds[i][0] != k.bounds[i][1] {
			s += "+"
		} else {
			s += "-"
		}
	}
	return s
}

func (c *C) kernelTree(depth, p int, psd bool) *kNode {
	r := c.Float64()
	if depth == 0 || r < .35 {
		k := &kNode{op: []string{"const", "white", "rbf", "rbf", "dot"}[c.Intn(5)]}
		n := 1
		if k.op == "rbf" && c.Intn(2) == 0 {
			n = p
		}
		mode := c.Intn(5)
		for i := 0; i < n; i++ {
			v := math.Exp(c.NormFloat64())
			if !psd && c.Intn(8) == 0 {
				v = math.Exp(4 * c.NormFloat64())
			}
			k.val = append(k.val, v)
			b := [2]float64{v * 1e-3, v * 1e3 * (1 + c.Float64())}
			switch mode {
			case 0: // fixed
				b = [2]float64{v, v}
			case 1: // mixed
				if c.Intn(2) == 0 {
					b = [2]float64{0, 0}
				}
			case 2: // close bounds
				if c.Intn(2) == 0 {
					b = [2]float64{v * (1 - 1e-5), v * (1 + 1e-5)}
				}
			}
			k.bounds = append(k.bounds, b)
		}
		if k.op == "rbf" && mode == 0 && c.Intn(2) == 0 {
			k.bounds = nil
		}
		return k
	}
	switch {
	case r < .6:
		k := &kNode{op: "sum", a: c.kernelTree(depth-1, p, psd)}
		if k.b = k.a; psd || c.Intn(8) > 0 {
			k.b = c.kernelTree(depth-1, p, psd)
		}
		return k
	case r < .85:
		return &kNode{op: "prod", a: c.kernelTree(depth-1, p, psd), b: c.kernelTree(depth-1, p, psd)}
	}
	// integer exponents keep the power of a (possibly negative) value defined
	k := &kNode{op: "pow", a: c.kernelTree(depth-1, p, psd), exp: float64(1 + c.Intn(3))}
	if !psd && k.a.positive() {
		k.exp = []float64{.5, 1. / 3, .1, .9, 1.5, 2.5, 4, k.exp}[c.Intn(8)]
	}
	return k
}

func (c *C) kernelData(n, p int) *mat.Dense {
	X := mat.NewDense(n, p, nil)
	sc := []float64{1, 1, .1, 5, 1e-3, 40}[c.Intn(6)]
	share := c.Intn(3) == 0
	for i := 0; i < n; i++ {
		if i > 0 && c.Intn(5) == 0 {
			X.SetRow(i, row(X, c.Intn(i))) // exact duplicates
			continue
		}
		for j := 0; j < p; j++ {
			// different coordinates are apart (white noise compares with a tolerance)
			X.Set(i, j, math.Round(1e7*sc*1e-4*math.Round(1e4*c.NormFloat64()))/1e7)
			if share && i > 0 && c.Intn(2) == 0 {
				X.Set(i, j, X.At(c.Intn(i), j)) // equal coordinates in different samples
			}
		}
	}
	return X
}

func (c *C) sameKernelMatrix(key string, k *kNode, K mat.Matrix, X, Y *mat.Dense) {
	nx, _ := X.Dims()
	ny, _ := Y.Dims()
	r, cc := K.Dims()
	c.True(key+".dims", r == nx && cc == ny, "%s: kernel matrix %dx%d for %d and %d samples", k.shape(), r, cc, nx, ny)
	for i := 0; i < nx; i++ {
		for j := 0; j < ny; j++ {
			w := k.eval(row(X, i), row(Y, j))
			tol := 2e-8 * (1 + math.Abs(w))
			if k.positive() {
				tol = 2e-8*math.Abs(w) + 1e-290
			}
			c.Near(key, K.At(i, j), w, tol, "%s K[%d,%d]", k.shape(), i, j)
		}
	}
}

func (c *C) thetaIs(key string, K kernels.Kernel, ref *kNode) {
	vals, bounds := ref.free()
	th := K.Theta()
	r, cc := th.Dims()
	c.True(key+".n", r == len(vals) && cc == 1, "%s: Theta is %dx%d, %d free hyperparameters", ref.shape(), r, cc, len(vals))
	bd := K.Bounds()
	br, bc := bd.Dims()
	c.True(key+".nb", br == len(vals) && bc == 2, "%s: Bounds is %dx%d, %d free hyperparameters", ref.shape(), br, bc, len(vals))
	for i := range vals {
		c.Near(key, th.At(i, 0), math.Log(*vals[i]), 1e-10, "%s theta[%d]", ref.shape(), i)
		for j := 0; j < 2; j++ {
			c.Near(key+".bounds", bd.At(i, j), math.Log(bounds[i][j]), 1e-10, "%s bounds[%d,%d]", ref.shape(), i, j)
		}
	}
}

func kernelCase(c *C) {
	p := 1 + c.Intn(4)
	n := c.Size(1, 9, 40)
	ny := 1 + c.Intn(7)
	X := c.kernelData(n, p)
	Y := c.kernelData(ny, p)
	for i := 0; i < ny; i++ {
		if c.Intn(3) == 0 {
			Y.SetRow(i, row(X, c.Intn(n)))
		}
	}
	ref := c.kernelTree(c.Intn(4), p, false)
	K := ref.real()
	c.Sig("%s p=%d", ref.shape(), p)
	lx, ly := c.layout(X), c.layout(Y)
	c.Stage("theta")
	c.thetaIs("theta", K, ref)
	c.True("stationary", K.IsStationary() == ref.stationary(), "%s IsStationary %v", ref.shape(), K.IsStationary())
	c.Stage("eval")
	Kxy, _ := K.Eval(lx, ly, false)
	c.sameKernelMatrix("cross", ref, Kxy, X, Y)
	Kxx, Kg := K.Eval(lx, nil, true)
	c.sameKernelMatrix("full", ref, Kxx, X, X)
	c.gradIs("gradient", ref, Kg, X)
	D := K.Diag(lx)
	dn, _ := D.Dims()
	c.True("diag.dims", dn == n, "%s: diagonal of %d for %d", ref.shape(), dn, n)
	for i := 0; i < n; i++ {
		w := Kxx.At(i, i)
		c.Near("diag", D.At(i, i), w, 1e-9*(1+math.Abs(w)), "%s diag[%d]", ref.shape(), i)
	}
	c.True("input", SameValues(lx, X) && SameValues(ly, Y), "%s changed its inputs", ref.shape())
	// evaluating again gives the same (no state)
	Kxx2, _ := K.Eval(lx, nil, false)
	c.True("again", SameValues(Kxx, Kxx2), "%s evaluates differently the second time", ref.shape())

	// clones
	c.Stage("clone")
	vals, _ := ref.free()
	ref2 := ref.clone()
	vals2, _ := ref2.free()
	th := mat.NewDense(len(vals)+1, 1, nil)
	for i := range vals2 {
		t := c.NormFloat64()
		th.Set(i, 0, t)
		*vals2[i] = math.Exp(t)
	}
	var cl kernels.Kernel
	if len(vals) > 0 {
		cl = K.CloneWithTheta(th.Slice(0, len(vals), 0, 1))
	} else {
		cl = K.CloneWithTheta(K.Theta())
	}
	c.True("clone.type", fmt.Sprintf("%T", cl) == fmt.Sprintf("%T", K), "CloneWithTheta of %T is %T", K, cl)
	c.thetaIs("clone.theta", cl, ref2)
	Kc, Kcg := cl.Eval(lx, nil, true)
	c.sameKernelMatrix("clone.eval", ref2, Kc, X, X)
	c.gradIs("clone.gradient", ref2, Kcg, X)
	c.thetaIs("original.theta", K, ref)
	K2, _ := K.Eval(lx, nil, false)
	c.sameKernelMatrix("original.eval", ref, K2, X, X)
	// writing through Theta() of the clone leaves the original alone, and conversely
	if len(vals) > 0 {
		i := c.Intn(len(vals))
		cl.Theta().(mat.Mutable).Set(i, 0, .25)
		*vals2[i] = math.Exp(.25)
		c.thetaIs("set.theta", cl, ref2)
		c.thetaIs("set.original", K, ref)
		if bd, ok := cl.Bounds().(mat.Mutable); ok {
			bd.Set(i, 1, 5.5)
			c.thetaIs("setbounds.original", K, ref)
		}
		c2 := K.CloneWithTheta(nil)
		c.thetaIs("nil.theta", c2, ref)
		K.Theta().(mat.Mutable).Set(i, 0, -.5)
		c.thetaIs("nil.after", c2, ref)
	}
}

func (c *C) gradIs(key string, ref *kNode, Kg *tensor.Dense, X *mat.Dense) {
	n, _ := X.Dims()
	vals, _ := ref.free()
	c.True(key+".nil", Kg != nil, "%s: no gradient", ref.shape())
	sh := Kg.Shape()
	c.True(key+".shape", len(sh) == 3 && sh[0] == n && sh[1] == n && sh[2] == len(vals), "%s: gradient shape %v, %d samples and %d free hyperparameters", ref.shape(), sh, n, len(vals))
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			g := ref.grad(row(X, i), row(X, j))
			for l := range g {
				v, err := Kg.At(i, j, l)
				c.True(key+".at", err == nil, "%s: gradient At %v", ref.shape(), err)
				if math.IsNaN(g[l]) { // powers of values that underflow
					continue
				}
				c.Near(key, v.(float64), g[l], 1e-8*(1+math.Abs(g[l]))*10, "%s dK[%d,%d]/dlog theta[%d]", ref.shape(), i, j, l)
			}
		}
	}
}

// luSolve solves A X = B by elimination with partial pivoting, and returns log|det A|
func luSolve(A, B *mat.Dense) (*mat.Dense, float64) {
	n, _ := A.Dims()
	_, m := B.Dims()
	a, b := mat.DenseCopyOf(A), mat.DenseCopyOf(B)
	ld := 0.
	for k := 0; k < n; k++ {
		p := k
		for i := k + 1; i < n; i++ {
			if math.Abs(a.At(i, k)) > math.Abs(a.At(p, k)) {
				p = i
			}
		}
		if p != k {
			rk, rp := row(a, k), row(a, p)
			a.SetRow(k, rp)
			a.SetRow(p, rk)
			rk, rp = row(b, k), row(b, p)
			b.SetRow(k, rp)
			b.SetRow(p, rk)
		}
		ld += math.Log(math.Abs(a.At(k, k)))
		for i := k + 1; i < n; i++ {
			f := a.At(i, k) / a.At(k, k)
			for j := k; j < n; j++ {
				a.Set(i, j, a.At(i, j)-f*a.At(k, j))
			}
			for j := 0; j < m; j++ {
				b.Set(i, j, b.At(i, j)-f*b.At(k, j))
			}
		}
	}
	x := mat.NewDense(n, m, nil)
	for j := 0; j < m; j++ {
		for i := n - 1; i >= 0; i-- {
			s := b.At(i, j)
			for k := i + 1; k < n; k++ {
				s -= a.At(i, k) * x.At(k, j)
			}
			x.Set(i, j, s/a.At(i, i))
		}
	}
	return x, ld
}

func refKernelMatrix(k *kNode, X, Y *mat.Dense) *mat.Dense {
	nx, _ := X.Dims()
	ny, _ := Y.Dims()
	K := mat.NewDense(nx, ny, nil)
	for i := 0; i < nx; i++ {
		for j := 0; j < ny; j++ {
			K.Set(i, j, k.eval(row(X, i), row(Y, j)))
		}
	}
	return K
}

func gprCase(c *C) {
	p := 1 + c.Intn(3)
	n := c.Size(2, 14, 60)
	o := 1 + c.Intn(3)
	if c.Intn(6) == 0 {
		o = 4 + c.Intn(6)
	}
	nq := 1 + c.Intn(8)
	X := c.kernelData(n, p)
	Y := mat.NewDense(n, o, nil)
	off := []float64{0, 10}[c.Intn(2)]
	for i := 0; i < n; i++ {
		for j := 0; j < o; j++ {
			Y.Set(i, j, c.NormFloat64()+off*float64(j+1))
		}
	}
	Q := c.kernelData(nq, p)
	for i := 0; i < nq; i++ {
		if c.Intn(3) == 0 {
			Q.SetRow(i, row(X, c.Intn(n)))
		}
	}
	ref := c.kernelTree(c.Intn(3), p, true)
	K := ref.real()
	m := gp.NewRegressor(K)
	if c.Intn(4) == 0 { // the kernel is replaced before the fit
		m = gp.NewRegressor(c.kernelTree(c.Intn(2), p, true).real())
		m.Kernel = K
	}
	var alpha []float64
	ill := c.Intn(4) == 0
	if ill {
		alpha = []float64{math.Pow(10, -4-7*c.Float64())}
	} else if c.Intn(2) == 0 {
		alpha = []float64{math.Exp(c.NormFloat64() - 1)}
	} else {
		alpha = make([]float64, n)
		for i := range alpha {
			alpha[i] = .05 + c.Float64()
		}
	}
	m.Alpha = append([]float64(nil), alpha...)
	m.NormalizeY = c.Intn(2) == 0
	nAlpha := func(i int) float64 {
		if len(alpha) == 1 {
			return alpha[0]
		}
		return alpha[i]
	}
	// the kernel matrix must be well conditioned enough for the comparison to mean something:
	// a power or product of dot products has a huge scale, which the tolerance follows
	Kn := refKernelMatrix(ref, X, X)
	scale := mat.Max(Kn)
	if scale > 1e4 {
		c.Sig("skipped: scale")
		return
	}
	A := mat.DenseCopyOf(Kn)
	for i := 0; i < n; i++ {
		A.Set(i, i, A.At(i, i)+nAlpha(i))
	}
	inv, _ := luSolve(A, eyeDense(n))
	// cond bounds the relative error of a solution
	condOf := func(A, inv *mat.Dense) float64 { return float64(n) * mat.Norm(A, 1) * mat.Norm(inv, 1) }
	cond := condOf(A, inv)
	if ill && !(cond < 3e11) {
		c.Sig("skipped: condition")
		return
	}
	c.Sig("%s n=%d o=%d alpha=%d norm=%v", ref.shape(), n, o, len(alpha), m.NormalizeY)

	c.Stage("prior")
	prior, pstd, pcov := m.PredictEx(c.layout(Q), nil, true, false)
	for i := 0; i < nq; i++ {
		c.Near("prior.mean", prior.At(i, 0), 0, 0, "prior mean")
		w := math.Sqrt(ref.eval(row(Q, i), row(Q, i)))
		c.Near("prior.std", pstd.At(i, i), w, 1e-9*(1+w), "%s prior std", ref.shape())
	}
	_, _, pcov = m.PredictEx(c.layout(Q), nil, false, true)
	c.sameKernelMatrix("prior.cov", ref, pcov, Q, Q)

	c.Stage("fit")
	fits := 1 + c.Intn(2)
	if ill {
		fits = 1
	}
	for f := 0; f < fits; f++ {
		if f < fits-1 {
			X0 := c.kernelData(n, p)
			Y0 := mat.NewDense(n, 1+c.Intn(3), nil)
			Y0.Set(0, 0, 3)
			if mat.Max(refKernelMatrix(ref, X0, X0)) > 1e4 {
				continue
			}
			m.Fit(X0, Y0)
			continue
		}
		lX, lY := c.layout(X), c.layout(Y)
		m.Fit(lX, lY)
		c.True("input", SameValues(lX, X) && SameValues(lY, Y), "Fit changed its inputs")
	}
	m2 := m
	if c.Intn(2) == 0 {
		m2 = m.PredicterClone().(*gp.Regressor)
		// a change of the original must not reach its clone
		if c.Intn(2) == 0 && mat.Max(refKernelMatrix(ref, Q, Q)) < 1e4 {
			for i := range m.Alpha {
				m.Alpha[i] = 9
			}
			m.Alpha = m.Alpha[:1]
			m.Fit(Q, mat.NewDense(nq, 1, nil).Slice(0, nq, 0, 1))
		}
	}
	c.True("noutputs", m2.GetNOutputs() == o, "GetNOutputs %d, fitted on %d", m2.GetNOutputs(), o)
	c.Stage("posterior")
	mean := make([]float64, o)
	Yc := mat.DenseCopyOf(Y)
	if m.NormalizeY {
		for j := range mean {
			mean[j] = sum(col(Y, j)) / float64(n)
			for i := 0; i < n; i++ {
				Yc.Set(i, j, Y.At(i, j)-mean[j])
			}
		}
	}
	alphaVec, logdet := luSolve(A, Yc)
	Kq := refKernelMatrix(ref, Q, X)
	Kqq := refKernelMatrix(ref, Q, Q)
	V, _ := luSolve(A, mat.DenseCopyOf(Kq.T()))
	tol := 1e-7 * (1 + scale) * (1 + off)
	// rounding of the matrix that is factorized is amplified by the solutions
	maxAbs := func(m *mat.Dense) float64 { return math.Max(mat.Max(m), -mat.Min(m)) }
	rnd := 1e-14 * float64(n*n) * (1 + scale)
	mtol, vtol := rnd*maxAbs(alphaVec)*(1+maxAbs(V)), rnd*maxAbs(V)*maxAbs(V)
	post := &mat.Dense{}
	post.Mul(Kq, alphaVec)
	cov := &mat.Dense{}
	cov.Mul(Kq, V)
	cov.Sub(Kqq, cov)

	dst := mat.NewDense(nq, o, nil)
	for i := 0; i < nq; i++ {
		for j := 0; j < o; j++ {
			dst.Set(i, j, 77)
		}
	}
	var got, gotCov *mat.Dense
	var gotStd *mat.DiagDense
	switch c.Intn(3) {
	case 0:
		got = m2.Predict(c.layout(Q), nil)
	case 1:
		m2.Predict(c.layout(Q), dst)
		got = dst
	case 2:
		got, gotStd, _ = m2.PredictEx(c.layout(Q), dst, true, false)
		c.True("dst", SameValues(dst, got), "the destination differs from the returned mean")
	}
	_, _, gotCov = m2.PredictEx(c.layout(Q), nil, false, true)
	if gotStd == nil {
		_, gotStd, _ = m2.PredictEx(c.layout(Q), nil, true, false)
	}
	for i := 0; i < nq; i++ {
		for j := 0; j < o; j++ {
			c.Near("mean", got.At(i, j), post.At(i, j)+mean[j], mtol+tol*(1+math.Abs(post.At(i, j))), "%s posterior mean[%d,%d] alpha %v norm %v", ref.shape(), i, j, alpha, m.NormalizeY)
		}
		c.Near("var", gotStd.At(i, i)*gotStd.At(i, i), math.Max(0, cov.At(i, i)), vtol+tol*(1+math.Abs(Kqq.At(i, i))), "%s posterior variance[%d]", ref.shape(), i)
		for j := 0; j < nq; j++ {
			c.Near("cov", gotCov.At(i, j), cov.At(i, j), vtol+tol*(1+math.Abs(Kqq.At(i, j))), "%s posterior covariance[%d,%d]", ref.shape(), i, j)
		}
	}
	// score is R2 of the predictions for given data, and doesn't fit
	if nq > 1 {
		Yq := mat.NewDense(nq, o, nil)
		for i := 0; i < nq; i++ {
			for j := 0; j < o; j++ {
				Yq.Set(i, j, c.NormFloat64())
			}
		}
		s := m2.Score(c.layout(Q), Yq)
		w := metrics.R2Score(Yq, m2.Predict(Q, nil), nil, "").At(0, 0)
		c.Near("score", s, w, 1e-9*(1+math.Abs(w)), "score")
		again := m2.Predict(Q, nil)
		c.True("score.pure", mat.EqualApprox(again, got, tol+mtol), "Score changed the predictions")
	}

	c.Stage("likelihood")
	lml := 0.
	for j := 0; j < o; j++ {
		lml -= .5*mat.Dot(Yc.ColView(j), alphaVec.ColView(j)) + .5*logdet + .5*float64(n)*math.Log(2*math.Pi)
	}
	ltol := (tol + 1e-14*cond) * (1 + math.Abs(lml))
	g0, _ := m2.LogMarginalLikelihood(nil, false)
	c.Near("lml.fitted", g0, lml, ltol, "%s log marginal likelihood of the fit", ref.shape())
	g1, grad := m2.LogMarginalLikelihood(m2.KernelOpt.Theta(), true)
	c.Near("lml", g1, lml, ltol, "%s log marginal likelihood", ref.shape())
	vals, _ := ref.free()
	c.True("lml.ngrad", len(grad) == len(vals), "%d gradient components for %d free hyperparameters", len(grad), len(vals))
	for l := range vals {
		w, mag := 0., 0.
		for i := 0; i < n; i++ {
			for k := 0; k < n; k++ {
				g := ref.grad(row(X, i), row(X, k))[l]
				for j := 0; j < o; j++ {
					t := .5 * (alphaVec.At(i, j)*alphaVec.At(k, j) - inv.At(i, k)) * g
					w += t
					mag += math.Abs(t)
				}
			}
		}
		c.Near("lml.grad", grad[l], w, (tol+1e-14*cond)*(1+mag), "%s d likelihood / d theta[%d]", ref.shape(), l)
	}
	// at another theta, the likelihood is the one of the kernel with these hyperparameters
	if len(vals) > 0 {
		ref2 := ref.clone()
		v2, _ := ref2.free()
		th := mat.NewDense(len(vals), 1, nil)
		for i := range v2 {
			t := math.Log(*v2[i]) + .5*c.NormFloat64()
			th.Set(i, 0, t)
			*v2[i] = math.Exp(t)
		}
		A2 := refKernelMatrix(ref2, X, X)
		sc2 := 1 + mat.Max(A2)
		for i := 0; i < n; i++ {
			A2.Set(i, i, A2.At(i, i)+nAlpha(i))
		}
		inv2, _ := luSolve(A2, eyeDense(n))
		cond2 := condOf(A2, inv2)
		if sc2 < 1e5 && cond2 < 3e11 {
			a2, ld2 := luSolve(A2, Yc)
			w := 0.
			for j := 0; j < o; j++ {
				w -= .5*mat.Dot(Yc.ColView(j), a2.ColView(j)) + .5*ld2 + .5*float64(n)*math.Log(2*math.Pi)
			}
			g, _ := m2.LogMarginalLikelihood(th, false)
			c.Near("lml.theta", g, w, (1e-7*sc2*(1+off)+1e-14*cond2)*(1+math.Abs(w)), "%s likelihood at another theta", ref2.shape())
			back := m2.Predict(Q, nil)
			c.True("lml.pure", mat.EqualApprox(back, got, tol+mtol), "evaluating the likelihood changed the model")
		}
	}
}

func eyeDense(n int) *mat.Dense {
	d := mat.NewDense(n, n, nil)
	for i := 0; i < n; i++ {
		d.Set(i, i, 1)
	}
	return d
}

func init() {
	register(&Property{ID: "C21",
		Rule:     "kernel matrices, diagonals and gradients equal the formulas of a reference kernel tree; Theta and Bounds list its free hyperparameters; clones with other hyperparameters are independent",
		Families: []Family{{Name: "kernels", Quick: 1500, Thorough: 30000, Run: kernelCase}}})
	register(&Property{ID: "C22",
		Rule:     "posterior mean, deviation, covariance, likelihood and its gradient equal the ones computed by dense elimination from the kernel formulas",
		Families: []Family{{Name: "gpr", Quick: 800, Thorough: 16000, Run: gprCase}}})
}
