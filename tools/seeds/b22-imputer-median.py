id='b22-imputer-median'
prop='C11'
pkg='preprocessing'
needs='median strategy and several columns handled by one worker'
breaks='the median of a column includes the values of the columns before it'
race=False
edits=[('preprocessing/imputation.go', '\t\t\ttmp = tmp[0:0]\n', '\t\t\tif i == start || m.Strategy != "median" {\n\t\t\t\ttmp = tmp[0:0]\n\t\t\t}\n')]
test=r'''package preprocessing
import ("testing";"math";"runtime";"gonum.org/v1/gonum/mat")
func TestDemo(t *testing.T) {
	c := 4*runtime.NumCPU() + 4
	X := mat.NewDense(4, c, nil)
	for j := 0; j < c; j++ {
		for i := 0; i < 3; i++ { X.Set(i, j, float64(100*j+i)) }
		X.Set(3, j, math.NaN())
	}
	m := NewImputer()
	m.Strategy = "median"
	Z, _ := m.FitTransform(X, nil)
	for j := 0; j < c; j++ {
		if Z.At(3, j) != float64(100*j+1) { t.Fatalf("column %d: %v", j, Z.At(3, j)) }
	}
}
'''
