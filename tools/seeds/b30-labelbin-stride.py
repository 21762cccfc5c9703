id='b30-labelbin-stride'
prop='C04'
pkg='preprocessing'
needs='labels that are a column of a wider matrix'
breaks='labels given as a view are encoded from the wrong rows'
race=False
edits=[('preprocessing/label.go', 'yi, yo0 = i+1, yi+y.Stride, yo0+yo.Stride {\n\t\t\tval := y.Data[yi+j]\n\t\t\tfor classNo', 'yi, yo0 = i+1, yi+y.Cols, yo0+yo.Stride {\n\t\t\tval := y.Data[yi+j]\n\t\t\tfor classNo')]
test=r'''package preprocessing
import ("testing";"gonum.org/v1/gonum/mat")
func TestDemo(t *testing.T) {
	y := mat.NewDense(5, 1, []float64{3, 1, 4, 1, 5})
	big := mat.NewDense(5, 3, []float64{3, 0, 0, 1, 0, 0, 4, 0, 0, 1, 0, 0, 5, 0, 0})
	v := big.Slice(0, 5, 0, 1).(*mat.Dense)
	le := NewLabelBinarizer(0, 1)
	le.Fit(nil, y)
	_, a := le.Transform(nil, y)
	_, b := le.Transform(nil, v)
	if !mat.Equal(a, b) { t.Fatal("depends on the storage") }
}
'''
