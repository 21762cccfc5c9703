id='b02-kdtree-manhattan'
prop='C07'
pkg='neighbors'
needs='a query outside the bounding box of the data, Manhattan metric, several levels of tree'
breaks='cells are pruned although they contain nearer points: wrong neighbours'
race=False
edits=[('neighbors/kdtree.go', '\t\t\t\tsd[innernode.splitDim] = math.Abs(innernode.split - x)\n\t\t\t\tminDistance = minDistance - sideDistances[innernode.splitDim] + sd[innernode.splitDim]\n', '\t\t\t\tsd[innernode.splitDim] = math.Abs(innernode.split - x)\n\t\t\t\tminDistance += sd[innernode.splitDim]\n')]
test=r'''package neighbors
import ("testing";"math";"math/rand";"sort";"gonum.org/v1/gonum/mat")
func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	n := 200
	X := mat.NewDense(n, 2, nil)
	for i := 0; i < n; i++ { X.Set(i, 0, r.Float64()); X.Set(i, 1, r.Float64()) }
	tr := NewKDTree(X, 3)
	for q := 0; q < 50; q++ {
		x := []float64{4*r.Float64()-2, 4*r.Float64()-2}
		dd, _ := tr.Query(mat.NewDense(1, 2, x), 5, 0, 1, math.Inf(1))
		ds := []float64{}
		for i := 0; i < n; i++ { ds = append(ds, math.Abs(X.At(i,0)-x[0])+math.Abs(X.At(i,1)-x[1])) }
		sort.Float64s(ds)
		for k := 0; k < 5; k++ { if math.Abs(dd.At(0,k)-ds[k]) > 1e-9 { t.Fatalf("query %v: %v want %v", x, mat.Row(nil,0,dd), ds[:5]) } }
	}
}
'''
