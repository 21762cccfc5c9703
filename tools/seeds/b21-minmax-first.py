id='b21-minmax-first'
prop='C10'
pkg='preprocessing'
needs='incremental fitting whose first batch has a single row'
breaks='the first row is forgotten by the second batch'
race=False
edits=[('preprocessing/data.go', 'if scaler.NSamplesSeen == 0 {\n\t\tscaler.DataMin', 'if scaler.NSamplesSeen <= 1 {\n\t\tscaler.DataMin')]
test=r'''package preprocessing
import ("testing";"gonum.org/v1/gonum/mat")
func TestDemo(t *testing.T) {
	X := mat.NewDense(5, 1, []float64{-9, 1, 2, 7, 3})
	for k := 1; k < 5; k++ {
		m := NewMinMaxScaler([]float64{0, 1})
		m.PartialFit(X.Slice(0, k, 0, 1), nil)
		m.PartialFit(X.Slice(k, 5, 0, 1), nil)
		if m.DataMin.At(0, 0) != -9 || m.DataMax.At(0, 0) != 7 { t.Fatalf("first batch %d: %v %v", k, m.DataMin.At(0, 0), m.DataMax.At(0, 0)) }
	}
}
'''
