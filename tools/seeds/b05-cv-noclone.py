id='b05-cv-noclone'
prop='C14'
pkg='model_selection'
needs='one job'
breaks='sequential cross-validation fits the given estimator itself, so all splits return the same object'
race=False
edits=[('model_selection/validation.go', '\t\tres.Estimator[sin.iSplit] = estimator.PredicterClone()\n', '\t\tres.Estimator[sin.iSplit] = estimator\n\t\tif NJobs > 1 {\n\t\t\t// jobs run concurrently\n\t\t\tres.Estimator[sin.iSplit] = estimator.PredicterClone()\n\t\t}\n')]
test=r'''package modelselection
import ("testing";"github.com/pa-m/sklearn/neighbors";"github.com/pa-m/sklearn/metrics";"gonum.org/v1/gonum/mat";"github.com/pa-m/sklearn/base")
func TestDemo(t *testing.T) {
	X := mat.NewDense(6, 1, []float64{0,1,2,3,4,5})
	m := neighbors.NewKNeighborsRegressor(1, "uniform")
	r := CrossValidate(m, X, X, nil, func(a, b mat.Matrix) float64 { return metrics.R2Score(a, b, nil, "").At(0, 0) }, &KFold{NSplits: 3, Shuffle: true, RandomState: base.NewSource(1)}, 1)
	if r.Estimator[0] == r.Estimator[1] { t.Fatal("splits share their estimator") }
}
'''
