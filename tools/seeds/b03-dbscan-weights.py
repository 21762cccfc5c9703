id='b03-dbscan-weights'
prop='C09'
pkg='cluster'
needs='sample weights'
breaks='a sample does not count itself among its neighbours when weights are given'
race=False
edits=[('cluster/dbscan.go','NNeighbors[i] += m.SampleWeight[neighbor]','if neighbor != i {\n\t\t\t\t\tNNeighbors[i] += m.SampleWeight[neighbor]\n\t\t\t\t}')]
test=r'''package cluster
import ("testing";"fmt";"gonum.org/v1/gonum/mat")
func TestDemo(t *testing.T) {
	m := NewDBSCAN(&DBSCANConfig{Eps: 1.5, MinSamples: 5, NJobs: 1})
	m.SampleWeight = []float64{1, 5, 1, 1, 1}
	m.Fit(mat.NewDense(5, 1, []float64{0, 1, 2, 3, 4}), nil)
	if fmt.Sprint(m.CoreSampleIndices) != "[0 1 2]" { t.Fatal(m.CoreSampleIndices) }
}
'''
