id='b07-enet-zerocol'
prop='C18'
pkg='linear_model'
needs='a constant feature (zero after centring) and no l2 penalty'
breaks='the coefficient of a constant feature becomes NaN and poisons the residual'
race=False
edits=[('linear_model/cdfast.go', 'ii = fIter\n\t\t\t}\n\t\t\tif normColsX[ii] == 0. {\n\t\t\t\tw.SetVec(ii, 0)', 'ii = fIter\n\t\t\t}\n\t\t\tif normColsX[ii] == 0. && beta > 0. {\n\t\t\t\tw.SetVec(ii, 0)')]
test=r'''package linearmodel
import ("testing";"math";"gonum.org/v1/gonum/mat")
func TestDemo(t *testing.T) {
	X := mat.NewDense(6, 2, []float64{1,3, 2,3, 3,3, 4,3, 5,3, 6,3})
	Y := mat.NewDense(6, 1, []float64{1,2,3,4,5,6.5})
	m := NewLasso()
	m.Alpha = .01
	m.Fit(X, Y)
	if math.IsNaN(m.Coef.At(0,0)) || math.IsNaN(m.Coef.At(1,0)) || math.Abs(m.Coef.At(0,0)-1) > .2 { t.Fatal(mat.Formatted(m.Coef)) }
}
'''
