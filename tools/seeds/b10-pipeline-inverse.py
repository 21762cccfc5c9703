id='b10-pipeline-inverse'
prop='C27'
pkg='pipeline'
needs='two steps that transform the target'
breaks='predictions are mapped back through the target transformations in the wrong order'
race=False
edits=[('pipeline/pipeline.go', 'for iStep := len(p.NamedSteps) - 2; iStep >= 0; iStep-- {', 'for iStep := 0; iStep < len(p.NamedSteps)-1; iStep++ {')]
test=r'''package pipeline
import ("testing";"math";"gonum.org/v1/gonum/mat";"github.com/pa-m/sklearn/base";"github.com/pa-m/sklearn/linear_model")
type aff struct{ a, b float64 }
func (t *aff) Fit(X, Y mat.Matrix) base.Fiter { return t }
func (t *aff) Transform(X, Y mat.Matrix) (Xo, Yo *mat.Dense) { Xo = mat.DenseCopyOf(X); Yo = mat.DenseCopyOf(Y); Yo.Apply(func(_, _ int, v float64) float64 { return t.a*v+t.b }, Yo); return }
func (t *aff) FitTransform(X, Y mat.Matrix) (Xo, Yo *mat.Dense) { return t.Transform(X, Y) }
func (t *aff) InverseTransform(X, Y *mat.Dense) (Xo, Yo *mat.Dense) { Yo = mat.DenseCopyOf(Y); Yo.Apply(func(_, _ int, v float64) float64 { return (v-t.b)/t.a }, Yo); return nil, Yo }
func (t *aff) TransformerClone() base.Transformer { c := *t; return &c }
func TestDemo(t *testing.T) {
	X := mat.NewDense(4, 1, []float64{0,1,2,3})
	p := MakePipeline(&aff{2,3}, &aff{5,1}, linearmodel.NewLinearRegression())
	p.Fit(X, X)
	Y := p.Predict(X, mat.NewDense(4, 1, nil))
	for i := 0; i < 4; i++ { if math.Abs(Y.At(i,0)-float64(i)) > 1e-6 { t.Fatal(mat.Formatted(Y)) } }
}
'''
