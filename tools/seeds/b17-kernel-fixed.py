id='b17-kernel-fixed'
prop='C21'
pkg='gaussian_process/kernels'
needs='hyperparameter bounds closer than 1e-3'
breaks='a free hyperparameter is missing from Theta, Bounds and the gradient'
race=False
edits=[('gaussian_process/kernels/kernels.go', '(*param.PBounds)[1] == (*param.PBounds)[0]', '(*param.PBounds)[1]-(*param.PBounds)[0] < 1e-3')]
test=r'''package kernels
import ("testing";"gonum.org/v1/gonum/mat")
func TestDemo(t *testing.T) {
	for _, w := range []float64{.1, 1e-2, 1e-4, 1e-6} {
		k := &ConstantKernel{ConstantValue: w / 2, ConstantValueBounds: [2]float64{w / 4, w}}
		if r, _ := k.Theta().Dims(); r != 1 { t.Fatalf("bounds up to %v: %d free hyperparameters", w, r) }
		c := k.CloneWithTheta(mat.NewDense(1, 1, []float64{0}))
		if K, _ := c.Eval(mat.NewDense(1, 1, nil), nil, false); K.At(0, 0) != 1 { t.Fatalf("value %v instead of 1", K.At(0, 0)) }
	}
}
'''
