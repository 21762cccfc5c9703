id='b15-rowslice-t'
prop='C29'
pkg='base'
needs='transposing a slice of rows'
breaks='the transpose of a row slice shows the whole matrix'
race=False
edits=[('base/matrix.go', 'func (m MatRowSlice) T() mat.Matrix { return MatTranspose{m} }', 'func (m MatRowSlice) T() mat.Matrix { return MatTranspose{m.Matrix} }')]
test=r'''package base
import ("testing";"gonum.org/v1/gonum/mat")
func TestDemo(t *testing.T) {
	m := mat.NewDense(4, 2, []float64{0, 1, 2, 3, 4, 5, 6, 7})
	s := MatRowSlice{Matrix: m, Start: 1, End: 3}
	if !mat.Equal(s.T(), mat.NewDense(2, 2, []float64{2, 4, 3, 5})) { t.Fatalf("%v", mat.Formatted(s.T())) }
}
'''
