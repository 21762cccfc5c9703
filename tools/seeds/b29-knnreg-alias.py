id='b29-knnreg-alias'
prop='C03'
pkg='neighbors'
needs='the caller changes the targets after Fit'
breaks='predictions follow later changes of the matrix given to Fit'
race=False
edits=[('neighbors/regression.go', 'm.Y = mat.DenseCopyOf(Y)', 'm.Y = Y')]
test=r'''package neighbors
import ("testing";"gonum.org/v1/gonum/mat")
func TestDemo(t *testing.T) {
	X, Y := mat.NewDense(3, 1, []float64{0, 1, 2}), mat.NewDense(3, 1, []float64{5, 6, 7})
	m := NewKNeighborsRegressor(1, "uniform")
	m.Fit(X, Y)
	Y.Set(0, 0, 100)
	if P := m.Predict(X, nil); P.At(0, 0) != 5 { t.Fatalf("%v", mat.Formatted(P)) }
}
'''
