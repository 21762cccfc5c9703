id='b18-lml-odd'
prop='C22'
pkg='gaussian_process'
needs='an odd number of training samples'
breaks='the log marginal likelihood is too large by half of log 2 pi'
race=False
edits=[('gaussian_process/gpr.go', 'sub2 := float64(nx) / 2 * math.Log(2*math.Pi)', 'sub2 := float64(nx/2) * math.Log(2*math.Pi)')]
test=r'''package gaussianprocess
import ("testing";"math";"gonum.org/v1/gonum/mat";"github.com/pa-m/sklearn/gaussian_process/kernels")
func TestDemo(t *testing.T) {
	for n := 1; n < 9; n++ {
		X, Y := mat.NewDense(n, 1, nil), mat.NewDense(n, 1, nil)
		w := 0.
		for i := 0; i < n; i++ {
			X.Set(i, 0, 1000*float64(i)) // far apart: the covariance is the identity
			Y.Set(i, 0, float64(i%3))
			w -= .5*Y.At(i, 0)*Y.At(i, 0) + .5*math.Log(2*math.Pi)
		}
		m := NewRegressor(&kernels.RBF{LengthScale: []float64{1}, LengthScaleBounds: [][2]float64{{1e-5, 1e5}}})
		m.Fit(X, Y)
		if math.Abs(m.LogMarginalLikelihoodValue-w) > 1e-6 { t.Fatalf("%d samples: %v instead of %v", n, m.LogMarginalLikelihoodValue, w) }
	}
}
'''
