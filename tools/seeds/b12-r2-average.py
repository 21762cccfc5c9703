id='b12-r2-average'
prop='C17'
pkg='metrics'
needs='weights that are not uniform'
breaks='the mean of the targets ignores the sample weights'
race=False
edits=[('metrics/regression.go', '\tyTrueAvg.Mul(sampleWeight.T(), yTrue)\n\tyTrueAvg.Scale(1./sampleWeightSum, yTrueAvg)\n', '\tyTrueAvg.Mul(base.MatConst{Rows: 1, Columns: nSamples, Value: sampleWeightSum / float64(nSamples)}, yTrue)\n\tyTrueAvg.Scale(1./sampleWeightSum, yTrueAvg)\n')]
test=r'''package metrics
import ("testing";"math";"gonum.org/v1/gonum/mat")
func TestDemo(t *testing.T) {
	y, p, w := mat.NewDense(3, 1, []float64{1,2,4}), mat.NewDense(3, 1, []float64{1,3,4}), mat.NewDense(3, 1, []float64{1,2,5})
	mu := (1.+4+20)/8
	want := 1 - 2/((1-mu)*(1-mu)+2*(2-mu)*(2-mu)+5*(4-mu)*(4-mu))
	if r := R2Score(y, p, w, "").At(0,0); math.Abs(r-want) > 1e-12 { t.Fatal(r, want) }
}
'''
