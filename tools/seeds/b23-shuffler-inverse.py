id='b23-shuffler-inverse'
prop='C12'
pkg='preprocessing'
needs='more than 1024 rows'
breaks='the inverse of the shuffle leaves the tail shuffled'
race=False
edits=[('preprocessing/data.go', 'for i := len(m.Perm) - 1; i >= 0; i-- {\n\t\tif m.Perm[i] > i {', 'for i := len(m.Perm) - 1; i >= 0; i-- {\n\t\tif m.Perm[i] > i && i < 1<<10 {')]
test=r'''package preprocessing
import ("testing";"gonum.org/v1/gonum/mat";"github.com/pa-m/sklearn/base")
func TestDemo(t *testing.T) {
	for _, n := range []int{5, 100, 3000} {
		X, Y := mat.NewDense(n, 1, nil), mat.NewDense(n, 1, nil)
		for i := 0; i < n; i++ { X.Set(i, 0, float64(i)); Y.Set(i, 0, -float64(i)) }
		m := NewShuffler()
		m.RandomState = base.NewSource(5)
		A, B := m.FitTransform(X, Y)
		A, B = m.InverseTransform(A, B)
		if !mat.Equal(A, X) || !mat.Equal(B, Y) { t.Fatalf("%d rows are not restored", n) }
	}
}
'''
