id='b08-svc-box'
prop='C20'
pkg='svm'
needs='two samples of the same class updated together near the upper bound'
breaks='multipliers leave the feasible box'
race=False
edits=[('svm/svm.go', 'math.Max(0, alphas[j]+alphas[i]-C), math.Min(C, alphas[j]+alphas[i])', 'math.Max(0, alphas[j]+alphas[i]-C), C')]
test=r'''package svm
import ("testing";"math/rand";"gonum.org/v1/gonum/mat";"github.com/pa-m/sklearn/base")
func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for c := 0; c < 100; c++ {
	n := 20
	X, Y := mat.NewDense(n, 2, nil), mat.NewDense(n, 1, nil)
	for i := 0; i < n; i++ {
		X.Set(i,0,r.NormFloat64()); X.Set(i,1,r.NormFloat64())
		Y.Set(i,0,float64(i%2))
	}
	m := NewSVC()
	m.MaxIter, m.C = 20, .5
	m.RandomState = base.NewSource(uint64(c))
	m.Fit(X, Y)
	s := 0.
	for i, a := range m.Model[0].Alphas { if a < 0 || a > .5+1e-9 { t.Fatal(a) }; s += a*m.Model[0].Y[i] }
	if s < -.1 || s > .1 { t.Fatal("unbalanced", s) }
	}
}
'''
