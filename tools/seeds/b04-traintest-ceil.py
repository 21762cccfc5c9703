id='b04-traintest-ceil'
prop='C13'
pkg='model_selection'
needs='a test size given as a count that is at least the number of samples minus one'
breaks='the number of test rows is one short of what was asked for'
race=False
edits=[('model_selection/split.go', 'int(math.Ceil(math.Min(float64(NSamples), testsize)))', 'int(math.Ceil(math.Min(float64(NSamples-2), testsize)))')]
test=r'''package modelselection
import ("testing";"gonum.org/v1/gonum/mat")
func TestDemo(t *testing.T) {
	X := mat.NewDense(6, 1, []float64{0,1,2,3,4,5})
	for want := 2; want < 6; want++ {
		_, Xt, _, _ := TrainTestSplit(X, X, float64(want), 7)
		if r, _ := Xt.Dims(); r != want { t.Fatalf("%d test rows, want %d", r, want) }
	}
}
'''
