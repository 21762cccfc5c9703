package main

import (
	"math"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/pa-m/sklearn/base"
)

func init() {
	register(&Property{
		ID: "C01",
		Rule: "a case draws a number of items and a thread count (1, below, equal to, above and far above the number of items, 0 and negative for the default) and a body that yields or spins; " +
			"it is non-trivial when it has at least one item; distinct by (threads, items, set of ranges)",
		Race: true,
		Families: []Family{
			{Name: "cover", Quick: 1200, Thorough: 20000, Run: parCover},
			{Name: "slow", Quick: 8, Thorough: 100, Run: parSlow},
			{Name: "nested", Quick: 60, Thorough: 600, Run: parNested},
			{Name: "concurrent", Quick: 60, Thorough: 600, Run: parConcurrent},
			{Name: "grid", Quick: 1, Thorough: 1, Run: parGrid},
		},
	})
}

type span struct{ th, start, end int }

// oncePar runs the parallel helper and checks the recorded spans.
func oncePar(c *C, threads, n int, body func(i int)) {
	hits := make([]int32, n)
	var mu sync.Mutex
	var spans []span
	var running, bad int32
	active, shared := map[int]bool{}, false
	// every item is written by exactly one call, without any lock: the race detector
	// sees two calls that touch one item, or a return before the work is done
	plain := make([]int, n)
	base.Parallelize(threads, n, func(th, start, end int) {
		atomic.AddInt32(&running, 1)
		mu.Lock()
		spans = append(spans, span{th, start, end})
		if active[th] {
			shared = true
		}
		active[th] = true
		mu.Unlock()
		for i := start; i < end; i++ {
			if i < 0 || i >= n {
				atomic.StoreInt32(&bad, 1)
				break
			}
			if body != nil {
				body(i)
			}
			plain[i]++
			atomic.AddInt32(&hits[i], 1)
		}
		mu.Lock()
		active[th] = false
		mu.Unlock()
		atomic.AddInt32(&running, -1)
	})
	c.True("running", atomic.LoadInt32(&running) == 0, "Parallelize(%d,%d) returned while %d calls were still running", threads, n, running)
	mu.Lock()
	defer mu.Unlock()
	c.True("range", bad == 0, "Parallelize(%d,%d): range outside [0,%d): %v", threads, n, n, spans)
	for i := range hits {
		if hits[i] != 1 || plain[i] != 1 {
			c.Failf("once", "Parallelize(%d,%d): item %d was processed %d times; ranges %v", threads, n, i, hits[i], spans)
			break
		}
	}
	c.Obs(n)
	c.Count("items", n)
	c.Count("calls", len(spans))
	// ids are usable as indexes of per-thread accumulators
	nth := threads
	if nth <= 0 {
		nth = runtime.NumCPU()
	}
	for _, s := range spans {
		if s.end > s.start || n > 0 {
			c.True("thread-id", s.th >= 0 && s.th < nth, "Parallelize(%d,%d): thread id %d", threads, n, s.th)
		}
	}
	c.True("thread-id-unique", !shared, "Parallelize(%d,%d): two calls running at the same time had the same thread id: %v", threads, n, spans)
	sort.Slice(spans, func(i, j int) bool { return spans[i].start < spans[j].start })
	if n > 0 {
		c.Sig("threads=%d items=%d spans=%v", threads, n, spans)
	}
}

func (c *C) threadsFor(n int) int {
	switch c.Intn(8) {
	case 0:
		return 1
	case 1:
		return -1 - c.Intn(3)
	case 2:
		return 0
	case 3:
		return n
	case 4:
		return n + 1 + c.Intn(5)
	case 5:
		if n > 1 {
			return n - 1
		}
		return 2
	case 6:
		return 64 + c.Intn(64)
	case 7:
		if c.Intn(8) == 0 {
			return int(math.Exp(c.Float64() * 9))
		}
	}
	return 2 + c.Intn(16)
}

func parCover(c *C) {
	n := c.Intn(30)
	switch c.Intn(4) {
	case 0:
		n = c.Intn(400)
	case 1:
		n = c.Intn(4)
	case 2:
		n = int(math.Exp(c.Float64() * 10.5))
		if c.Intn(50) == 0 {
			n = int(math.Exp(10.5 + c.Float64()*3))
		}
	}
	t := c.threadsFor(n)
	if t > 7000 { // the race detector has a limit of goroutines
		t = 2 + c.Intn(5000)
	}
	if c.Intn(4) == 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1 + c.Intn(16)))
	}
	mode := c.Intn(3)
	oncePar(c, t, n, func(i int) {
		switch mode {
		case 1:
			runtime.Gosched()
		case 2:
			x := 0
			for k := 0; k < (i%7)*200; k++ {
				x += k
			}
			_ = x
		}
	})
}

// one range takes much longer than the others: the loop has to wait for it
func parSlow(c *C) {
	t := 2 + c.Intn(12)
	n := t + c.Intn(60)
	slow := []int{0, n - 1, c.Intn(n)}[c.Intn(3)]
	d := time.Duration(50+c.Intn(1500)) * time.Millisecond
	done := false // written without a lock by the slow call
	oncePar(c, t, n, func(i int) {
		if i == slow {
			time.Sleep(d)
			done = true
		}
	})
	c.True("waits", done, "Parallelize(%d,%d) did not wait for item %d, which takes %v", t, n, slow, d)
	c.Sig("slow %d %d %d %v", t, n, slow, d)
}

// every small (threads, items) pair
func parGrid(c *C) {
	for t := -1; t <= 20; t++ {
		for n := 0; n <= 45; n++ {
			oncePar(c, t, n, nil)
		}
	}
}

func parNested(c *C) {
	n, m := 1+c.Intn(12), 1+c.Intn(12)
	t1, t2 := c.threadsFor(n), c.threadsFor(m)
	grid := make([]int, n*m)
	base.Parallelize(t1, n, func(_, s, e int) {
		for i := s; i < e; i++ {
			i := i
			base.Parallelize(t2, m, func(_, s2, e2 int) {
				for j := s2; j < e2; j++ {
					grid[i*m+j]++
				}
			})
		}
	})
	for k, v := range grid {
		c.True("nested", v == 1, "nested Parallelize(%d,%d)x(%d,%d): cell %d processed %d times", t1, n, t2, m, k, v)
	}
	c.Sig("nested %d/%d %d/%d", t1, n, t2, m)
}

func parConcurrent(c *C) {
	k := 2 + c.Intn(6)
	type rq struct{ t, n int }
	var rqs []rq
	for i := 0; i < k; i++ {
		n := c.Intn(60)
		rqs = append(rqs, rq{c.threadsFor(n), n})
	}
	res := make([][]int, k)
	var wg sync.WaitGroup
	for i := range rqs {
		res[i] = make([]int, rqs[i].n)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			base.Parallelize(rqs[i].t, rqs[i].n, func(_, s, e int) {
				for q := s; q < e; q++ {
					runtime.Gosched()
					res[i][q]++
				}
			})
		}(i)
	}
	wg.Wait()
	for i := range res {
		for q, v := range res[i] {
			c.True("concurrent", v == 1, "Parallelize(%d,%d) next to others: item %d processed %d times", rqs[i].t, rqs[i].n, q, v)
		}
	}
	c.Sig("%v", rqs)
}
