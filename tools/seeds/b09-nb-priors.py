id='b09-nb-priors'
prop='C26'
pkg='naive_bayes'
needs='several partial fits with changing class proportions'
breaks='priors stay those of the first batch'
race=False
edits=[('naive_bayes/naivebayes.go', '\tif m.Priors == nil {\n\t\t//# Empirical', '\tif m.Priors == nil && firstCall {\n\t\t//# Empirical')]
test=r'''package naivebayes
import ("testing";"math";"gonum.org/v1/gonum/mat")
func TestDemo(t *testing.T) {
	m := NewGaussianNB(nil, 1e-9)
	X, Y := mat.NewDense(4, 1, []float64{0,1,5,6}), mat.NewDense(4, 1, []float64{0,0,1,1})
	m.PartialFit(X, Y, []float64{0,1}, false, nil)
	X, Y = mat.NewDense(4, 1, []float64{0,1,.5,.2}), mat.NewDense(4, 1, []float64{0,0,0,0})
	m.PartialFit(X, Y, []float64{0,1}, false, nil)
	if math.Abs(m.ClassPrior[0]-.75) > 1e-12 { t.Fatal(m.ClassPrior) }
}
'''
