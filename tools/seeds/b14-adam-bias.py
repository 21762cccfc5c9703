id='b14-adam-bias'
prop='C24'
pkg='base'
needs='more than twelve Adam steps'
breaks='the bias correction of the first moment stops decaying: later steps are too long'
race=False
edits=[('base/optimizers.go', 'MtDen := 1. - math.Pow(s.Beta1, s.TimeStep)', 'MtDen := 1. - math.Pow(s.Beta1, math.Min(s.TimeStep, 12))')]
test=r'''package base
import ("testing";"math";"gonum.org/v1/gonum/mat")
func TestDemo(t *testing.T) {
	s := NewAdamOptimizer()
	u, g := mat.NewDense(1, 1, nil), mat.NewDense(1, 1, []float64{3})
	for i := 1; i < 100; i++ {
		s.GetUpdate(u, g)
		// for a constant gradient both corrected moments are exact
		if w := -s.StepSize * 3 / (3 + s.Epsilon); math.Abs(u.At(0, 0)-w) > 1e-9*math.Abs(w) { t.Fatalf("step %d: %v instead of %v", i, u.At(0, 0), w) }
	}
}
'''
