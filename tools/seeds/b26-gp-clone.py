id='b26-gp-clone'
prop='C05'
pkg='gaussian_process'
needs='hyperparameters of a clone are changed'
breaks='the clone shares the kernel of its original'
race=False
edits=[('gaussian_process/gpr.go', '\tclone.Kernel = m.Kernel.CloneWithTheta(m.Kernel.Theta())\n', '')]
test=r'''package gaussianprocess
import ("testing";"gonum.org/v1/gonum/mat";"github.com/pa-m/sklearn/gaussian_process/kernels")
func TestDemo(t *testing.T) {
	m := NewRegressor(&kernels.RBF{LengthScale: []float64{1}, LengthScaleBounds: [][2]float64{{1e-5, 1e5}}})
	c := m.PredicterClone().(*Regressor)
	c.Kernel.Theta().(mat.Mutable).Set(0, 0, 2)
	if v := m.Kernel.Theta().At(0, 0); v != 0 { t.Fatalf("theta of the original became %v", v) }
}
'''
