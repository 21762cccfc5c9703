id='b19-mlp-logistic'
prop='C23'
pkg='neural_network'
needs='activations below -30'
breaks='the logistic activation is flat below -30, its derivative is not'
race=False
edits=[('neural_network/basemlp64.go', 'z.Data[zpos+col] = 1 / (1 + M64.Exp(-z.Data[zpos+col]))', 'if z.Data[zpos+col] < -30 {\n\t\t\t\t\tz.Data[zpos+col] = -30\n\t\t\t\t}\n\t\t\t\tz.Data[zpos+col] = 1 / (1 + M64.Exp(-z.Data[zpos+col]))')]
test=r'''package neuralnetwork
import ("testing";"math";"gonum.org/v1/gonum/blas/blas64")
func TestDemo(t *testing.T) {
	for _, v := range []float64{-3, -29, -33, -40, -100, 0, 35} {
		z := blas64General(blas64.General{Rows: 1, Cols: 1, Stride: 1, Data: []float64{v}})
		Activations64["logistic"](z)
		if w := 1 / (1 + math.Exp(-v)); math.Abs(z.Data[0]-w) > 1e-12*w { t.Fatalf("logistic(%v)=%v instead of %v", v, z.Data[0], w) }
	}
}
'''
