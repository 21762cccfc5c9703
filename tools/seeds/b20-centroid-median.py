id='b20-centroid-median'
prop='C08'
pkg='neighbors'
needs='manhattan metric with 200 samples or more'
breaks='centroids of the manhattan metric are means instead of medians for larger data'
race=False
edits=[('neighbors/nearest_centroid.go', 'useMedian := m.Metric == "manhattan"', 'useMedian := m.Metric == "manhattan" && NSamples < 200')]
test=r'''package neighbors
import ("testing";"gonum.org/v1/gonum/mat")
func TestDemo(t *testing.T) {
	for _, n := range []int{4, 50, 300} {
		X, Y := mat.NewDense(2*n, 1, nil), mat.NewDense(2*n, 1, nil)
		for i := 0; i < 2*n; i++ {
			Y.Set(i, 0, float64(i%2))
			X.Set(i, 0, 10*float64(i%2))
		}
		X.Set(0, 0, 1e4) // an outlier
		m := NewNearestCentroid("manhattan", 0)
		m.Fit(X, Y)
		if m.Centroids.At(0, 0) != 0 || m.Centroids.At(1, 0) != 10 { t.Fatalf("%d: %v", n, mat.Formatted(m.Centroids)) }
	}
}
'''
