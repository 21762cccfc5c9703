id='b24-precision-weights'
prop='C15'
pkg='metrics'
needs='sample weights that sum to less than one for a predicted class'
breaks='the precision of a class whose total weight is small is 0'
race=False
edits=[('metrics/classification.go', 'if g.predsum > 0. {', 'if g.predsum >= 1. {')]
test=r'''package metrics
import ("testing";"math";"gonum.org/v1/gonum/mat")
func TestDemo(t *testing.T) {
	yt, yp := mat.NewDense(4, 1, []float64{0, 1, 1, 0}), mat.NewDense(4, 1, []float64{0, 1, 0, 0})
	w := PrecisionScore(yt, yp, "macro", nil)
	for _, s := range []float64{1, 10, .1, 1e-3} {
		if p := PrecisionScore(yt, yp, "macro", []float64{s, s, s, s}); math.Abs(p-w) > 1e-12 { t.Fatalf("equal weights %v: %v instead of %v", s, p, w) }
	}
}
'''
