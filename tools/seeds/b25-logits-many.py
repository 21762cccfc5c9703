id='b25-logits-many'
prop='C19'
pkg='linear_model'
needs='nine binarized output columns or more'
breaks='the last classes are never predicted'
race=False
edits=[('linear_model/logistic.go', 'floats.MaxIdx(ym.Data[ypos : ypos+ym.Cols])', 'floats.MaxIdx(ym.Data[ypos : ypos+ym.Cols-ym.Cols/9])')]
test=r'''package linearmodel
import ("testing";"gonum.org/v1/gonum/mat")
func TestDemo(t *testing.T) {
	for _, c := range []int{3, 8, 10} {
		X, Y := mat.NewDense(4*c, c, nil), mat.NewDense(4*c, c, nil)
		for i := 0; i < 4*c; i++ { X.Set(i, i%c, 5); Y.Set(i, i%c, 1) }
		m := NewLogisticRegression()
		m.Alpha = 1e-3
		m.Fit(X, Y)
		P := m.Predict(X, nil)
		if !mat.Equal(P, Y) { t.Fatalf("%d classes: separable samples are not recognised", c) }
	}
}
'''
