package main

import (
	"fmt"
	"math"

	"github.com/pa-m/sklearn/base"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/gonum/optimize"
)

// optRef replays a history of gradients with the update rules written on scalars.
type optRef struct {
	name                                string
	step, mom, clip, gamma, eps, b1, b2 float64
	t                                   float64
	g, u, prev, m, v, theta             [][]float64
}

func grid(r, c int, v float64) [][]float64 {
	a := make([][]float64, r)
	for i := range a {
		a[i] = make([]float64, c)
		for j := range a[i] {
			a[i][j] = v
		}
	}
	return a
}

func (o *optRef) update(G *mat.Dense) [][]float64 {
	r, c := G.Dims()
	if o.t == 0 {
		o.g, o.u, o.prev, o.m, o.v = grid(r, c, o.eps), grid(r, c, 1), grid(r, c, 0), grid(r, c, 0), grid(r, c, 0)
	}
	o.t++
	up := grid(r, c, 0)
	for j := 0; j < c; j++ {
		norm := 0.
		for i := 0; i < r; i++ {
			norm = math.Hypot(norm, G.At(i, j))
		}
		for i := 0; i < r; i++ {
			g := G.At(i, j)
			if o.clip > 0 && norm > o.clip {
				g *= o.clip / norm
			}
			var d float64
			switch o.name {
			case "sgd":
				d = o.step * 100 / (100 + o.t) / math.Sqrt(o.t) * g
			case "adagrad":
				d = o.step * g
				if o.t > 1 {
					d /= math.Sqrt(o.g[i][j]) + o.eps
				}
				o.g[i][j] += g * g
			case "rmsprop":
				d = o.step * g
				if o.t > 1 && o.g[i][j] > 1 {
					d /= math.Sqrt(o.g[i][j] + o.eps)
				}
				o.g[i][j] = o.gamma*o.g[i][j] + (1-o.gamma)*g*g
			case "adadelta":
				o.g[i][j] = o.gamma*o.g[i][j] + (1-o.gamma)*g*g
				if o.t > 1 {
					d = math.Sqrt(o.u[i][j]) / math.Sqrt(o.g[i][j]+o.eps) * g
				} else {
					d = o.step * 100 / (100 + o.t) * g
				}
				o.u[i][j] = o.gamma*o.u[i][j] + (1-o.gamma)*d*d
			case "adam":
				o.m[i][j] = o.b1*o.m[i][j] + (1-o.b1)*g
				o.v[i][j] = o.b2*o.v[i][j] + (1-o.b2)*g*g
				mh := o.m[i][j] / (1 - math.Pow(o.b1, o.t))
				vh := o.v[i][j] / (1 - math.Pow(o.b2, o.t))
				d = o.step * mh / (math.Sqrt(vh) + o.eps)
			}
			up[i][j] = o.mom*o.prev[i][j] - d
			o.prev[i][j] = up[i][j]
		}
	}
	return up
}

var optNames = []string{"sgd", "adagrad", "rmsprop", "adadelta", "adam"}

func optimizerCase(c *C) {
	name := optNames[c.Intn(len(optNames))]
	var opt base.Optimizer
	var s *base.SGDOptimizer
	switch c.Intn(3) {
	case 0:
		opt = base.NewOptimizer(name)
	case 1:
		opt = base.NewSolver(name)()
	default:
		opt = base.Solvers[name]()
	}
	s = opt.(*base.SGDOptimizer)
	if !c.True("name", len(opt.String()) >= len(name) && opt.String()[:len(name)] == name, "optimizer %s calls itself %s", name, opt.String()) {
		return
	}
	ref := &optRef{name: name}
	if c.Intn(2) == 0 { // own settings
		s.StepSize = math.Pow(10, -4*c.Float64())
		s.RMSPropGamma = .5 + .49*c.Float64()
		s.Epsilon = math.Pow(10, -10+4*c.Float64())
		s.GradientClipping = []float64{0, .5, 3, 100}[c.Intn(4)]
		s.Momentum = []float64{0, .5, .9}[c.Intn(3)]
		if name == "adam" {
			s.Beta1, s.Beta2 = .5+.45*c.Float64(), .9+.0999*c.Float64()
		}
	}
	ref.step, ref.mom, ref.clip, ref.gamma, ref.eps, ref.b1, ref.b2 = s.StepSize, s.Momentum, s.GradientClipping, s.RMSPropGamma, s.Epsilon, s.Beta1, s.Beta2
	r, k := 1+c.Intn(6), 1+c.Intn(4)
	steps := 1 + c.Intn(40)
	if c.Intn(20) == 0 {
		steps = 400
	}
	if c.Intn(150) == 0 {
		r, k, steps = 1, 1+c.Intn(2), 4000
	}
	theta := c.RandMat(r, k, KGauss)
	want := Clone(theta)
	th := DenseView(theta, c.Intn(2) == 0)
	useParams := c.Intn(2) == 0
	if useParams {
		opt.SetTheta(th)
		c.True("theta", opt.GetTheta() == th, "GetTheta is not what SetTheta got")
	}
	c.Sig("%s r=%d k=%d mom=%v clip=%v params=%v steps=%d", name, r, k, s.Momentum, s.GradientClipping, useParams, steps/10)
	upd := mat.NewDense(r, k, nil)
	scale := math.Pow(10, float64(c.Intn(7)-3))
	for t := 0; t < steps; t++ {
		g := mat.NewDense(r, k, nil)
		kind := c.Intn(6)
		for i := 0; i < r; i++ {
			for j := 0; j < k; j++ {
				v := scale * c.NormFloat64()
				switch {
				case kind == 0 && c.Intn(2) == 0:
					v = 0
				case kind == 1:
					v *= 1000
				case kind == 2:
					v = scale
				}
				g.Set(i, j, v)
			}
		}
		lg := c.layout(g)
		w := ref.update(g)
		if useParams {
			if t == 7 && r%2 == 0 { // telling it again where theta is changes nothing
				opt.SetTheta(th)
			}
			opt.UpdateParams(lg)
		} else {
			opt.GetUpdate(upd, lg)
		}
		c.True("grad", SameValues(lg, g), "%s changed the gradient", name)
		c.True("timestep", opt.GetTimeStep() == uint64(t+1), "%s time step %d after %d updates", name, opt.GetTimeStep(), t+1)
		for i := 0; i < r; i++ {
			for j := 0; j < k; j++ {
				if useParams {
					want.Set(i, j, want.At(i, j)+w[i][j])
					c.Near("params", th.At(i, j), want.At(i, j), 1e-8*(1+math.Abs(want.At(i, j))), "%s %+v: theta[%d,%d] after step %d", name, settings(s), i, j, t+1)
				} else {
					c.Near("update", upd.At(i, j), w[i][j], 1e-12+1e-8*math.Abs(w[i][j]), "%s %v: update[%d,%d] at step %d", name, settings(s), i, j, t+1)
				}
			}
		}
	}
}

func settings(s *base.SGDOptimizer) string {
	return fmt.Sprintf("step %g momentum %g clip %g gamma %g epsilon %g beta %g %g", s.StepSize, s.Momentum, s.GradientClipping, s.RMSPropGamma, s.Epsilon, s.Beta1, s.Beta2)
}

// methods of GOMethodCreators minimize a convex function
func methodCase(c *C) {
	names := []string{"sgd", "adagrad", "rmsprop", "adadelta", "adam", "bfgs", "cg", "gradientdescent", "lbfgs", "neldermead"}
	name := names[c.Intn(len(names))]
	mk, ok := base.GOMethodCreators[name]
	if !c.True("known", ok, "no method %s", name) {
		return
	}
	n := 1 + c.Intn(4)
	a, x0, b := make([]float64, n), make([]float64, n), make([]float64, n)
	for i := range a {
		a[i] = .5 + c.Float64()
		b[i] = c.NormFloat64()
		x0[i] = 3 * c.NormFloat64()
	}
	f := func(x []float64) float64 {
		s := 0.
		for i := range x {
			s += a[i] * (x[i] - b[i]) * (x[i] - b[i])
		}
		return s
	}
	grad := func(dst, x []float64) []float64 {
		if dst == nil {
			dst = make([]float64, len(x))
		}
		for i := range x {
			dst[i] = 2 * a[i] * (x[i] - b[i])
		}
		return dst
	}
	p := optimize.Problem{Func: f, Grad: func(g, x []float64) { grad(g, x) }}
	c.Sig("%s n=%d", name, n)
	res, _ := optimize.Minimize(p, x0, &optimize.Settings{MajorIterations: 3000}, mk())
	if !c.True("result", res != nil, "%s: no result", name) {
		return
	}
	c.Near("minimum", f(res.X), 0, 1e-4, "%s: minimum of a quadratic from %v", name, x0)
	c.True("fresh", mk() != mk(), "%s: the same method object twice", name)
}

func activationCase(c *C) {
	for _, name := range []string{"identity", "logistic", "relu", "tanh"} {
		a, ok := base.Activations[name]
		if !c.True("known", ok, "no activation %s", name) {
			continue
		}
		c.Sig("%s", name)
		for k := 0; k < 200; k++ {
			x := c.NormFloat64() * math.Pow(10, float64(c.Intn(9)-5))
			switch c.Intn(20) {
			case 0:
				x = 0
			case 1:
				x = 710 * float64(1-2*c.Intn(2))
			case 2:
				x = 1e300 * float64(1-2*c.Intn(2))
			}
			y := a.F(x)
			var w, d float64
			switch name {
			case "identity":
				w, d = x, 1
			case "logistic":
				// written without overflow on either side
				if x >= 0 {
					w = 1 / (1 + math.Exp(-x))
				} else {
					w = math.Exp(x) / (1 + math.Exp(x))
					if x < -700 {
						w = 0
					}
				}
				e := math.Exp(-math.Abs(x))
				d = e / ((1 + e) * (1 + e))
			case "relu":
				w, d = math.Max(0, x), 0
				if x > 0 {
					d = 1
				}
			case "tanh":
				w = math.Tanh(x)
				e := math.Exp(-2 * math.Abs(x))
				d = 4 * e / ((1 + e) * (1 + e))
			}
			c.Near("value", y, w, 1e-300+1e-10*math.Abs(w), "%s(%v)", name, x)
			if name == "relu" && x == 0 {
				continue // not differentiable
			}
			c.Near("derivative", a.Fprime(y), d, 1e-12, "%s'(%v), y=%v", name, x, y)
		}
	}
}

func init() {
	register(&Property{ID: "C24",
		Rule: "the updates for a recorded history of gradients equal the update rules evaluated coordinate by coordinate; activations equal formulas written independently; optimisation methods by name reach the minimum of convex quadratics",
		Families: []Family{
			{Name: "optimizers", Quick: 1500, Thorough: 40000, Run: optimizerCase},
			{Name: "methods", Quick: 150, Thorough: 3000, Run: methodCase},
			{Name: "activations", Quick: 20, Thorough: 1000, Run: activationCase},
		}})
}
