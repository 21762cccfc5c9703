id='b16-kfold-start'
prop='C06'
pkg='model_selection'
needs='KFold without Shuffle and a RandomState that has no Intn method'
breaks='folds of a seeded splitter without shuffling differ from run to run'
race=False
edits=[('model_selection/split.go', '\t\t\trndIntn = intner.Intn\n\t\t} else {\n\t\t\trndIntn = rand.New(splitter.RandomState).Intn\n\t\t}\n', '\t\t\trndIntn = intner.Intn\n\t\t}\n')]
test=r'''package modelselection
import ("testing";"reflect";"gonum.org/v1/gonum/mat";"github.com/pa-m/sklearn/base")
func TestDemo(t *testing.T) {
	X := mat.NewDense(1000, 1, nil)
	for _, shuffle := range []bool{true, false} {
		var runs [2][]Split
		for r := range runs {
			k := &KFold{NSplits: 5, Shuffle: shuffle, RandomState: base.NewLockedSource(3)}
			for s := range k.Split(X, X) { runs[r] = append(runs[r], s) }
		}
		if !reflect.DeepEqual(runs[0], runs[1]) { t.Fatalf("shuffle %v: other folds for the same seed", shuffle) }
	}
}
'''
