id='b06-roc-ties'
prop='C16'
pkg='metrics'
needs='scores closer than 1e-9 to each other'
breaks='distinct scores are treated as tied'
race=False
edits=[('metrics/ranking.go', 'Yscore.At(descScoreIndices[ii], 0) < Yscore.At(descScoreIndices[ii-1], 0) {', 'Yscore.At(descScoreIndices[ii-1], 0)-Yscore.At(descScoreIndices[ii], 0) > 1e-8 {')]
test=r'''package metrics
import ("testing";"gonum.org/v1/gonum/mat")
func TestDemo(t *testing.T) {
	y := mat.NewDense(4, 1, []float64{1,0,1,0})
	s := mat.NewDense(4, 1, []float64{4e-9,3e-9,2e-9,1e-9})
	if a := ROCAUCScore(y, s, "", nil); a != .75 { t.Fatal(a) }
}
'''
