id='b01-parallel-tail'
prop='C01'
pkg='base'
needs='more than 256 items per worker and a count that the workers do not divide'
breaks='the tail of a large parallel loop is never executed'
race=False
edits=[('base/parallel.go', '\t\twg := &sync.WaitGroup{}\n', '\t\tif NSamples > 256*threads {\n\t\t\t// large loops: an even share is enough to keep every worker busy\n\t\t\tsampPerTh = NSamples / threads\n\t\t}\n\t\twg := &sync.WaitGroup{}\n')]
test=r'''package base
import ("testing";"sync/atomic")
func TestDemo(t *testing.T) {
	for _, n := range []int{1, 7, 1000, 1031, 5003} {
		var sum int64
		Parallelize(4, n, func(th, start, end int) { atomic.AddInt64(&sum, int64(end-start)) })
		if sum != int64(n) { t.Fatalf("%d of %d items", sum, n) }
	}
}
'''
