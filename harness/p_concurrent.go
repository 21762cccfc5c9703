package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/pa-m/sklearn/base"
	linearmodel "github.com/pa-m/sklearn/linear_model"
	modelselection "github.com/pa-m/sklearn/model_selection"
	nn "github.com/pa-m/sklearn/neural_network"
	"github.com/pa-m/sklearn/preprocessing"
	"github.com/pa-m/sklearn/svm"
	"golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register(&Property{
		ID: "C02",
		Rule: "a case starts 2 to 8 goroutines that use the library at the same time, released together, in a -race build: clones of one object fitted on shared data, queries of one fitted object, different objects on shared matrices, functions on shared matrices, " +
			"searches with several workers, draws of one locked source; their results are compared with those of sequential runs; non-trivial when at least two goroutines overlapped; distinct by (subject, data)",
		Race: true,
		Families: []Family{
			{Name: "clones", Quick: 220, Thorough: 4000, Run: ccClones},
			{Name: "queries", Quick: 260, Thorough: 5000, Run: ccQueries},
			{Name: "shared", Quick: 120, Thorough: 2500, Run: ccShared},
			{Name: "functions", Quick: 150, Thorough: 3000, Run: ccFunctions},
			{Name: "jobs", Quick: 120, Thorough: 2500, Run: ccJobs},
			{Name: "sharedsource", Quick: 60, Thorough: 1200, Run: ccSharedSource},
			{Name: "source", Quick: 60, Thorough: 1500, Run: ccSource},
			{Name: "sourceops", Quick: 40, Thorough: 1000, Run: ccSourceOps},
		},
	})
	register(&Property{
		ID: "C06",
		Rule: "a case takes the next estimator, transformer or function with random settings, a seeded random state and random data, and repeats the same computation with other numbers of workers, other GOMAXPROCS values and other goroutines that disturb the scheduling; " +
			"distinct by (subject, workers, data)",
		Families: []Family{
			{Name: "estimators", Quick: 900, Thorough: 20000, Run: rpEstimators},
			{Name: "functions", Quick: 600, Thorough: 15000, Run: rpFunctions},
			{Name: "search", Quick: 120, Thorough: 3000, Run: rpSearch},
		},
	})
}

// together runs f(0..g-1) in g goroutines released at the same time and returns the first panic.
func together(g int, f func(i int)) (msg string, overlap int32) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	start := make(chan struct{})
	var running, peak int32
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					if msg == "" {
						msg = fmt.Sprint(r)
					}
					mu.Unlock()
				}
			}()
			<-start
			n := atomic.AddInt32(&running, 1)
			for {
				p := atomic.LoadInt32(&peak)
				if n <= p || atomic.CompareAndSwapInt32(&peak, p, n) {
					break
				}
			}
			f(i)
			atomic.AddInt32(&running, -1)
		}(i)
	}
	close(start)
	wg.Wait()
	return msg, atomic.LoadInt32(&peak)
}

func (c *C) overlapped(peak int32) {
	c.Count("goroutines overlapping", int(peak))
	if peak > 1 {
		c.Count("cases with overlap", 1)
	}
}

// ccClones: clones of one object, fitted at the same time on the same data, give what a lone object gives.
func ccClones(c *C) {
	in := c.pickSubject()
	if in.Name == "NearestNeighbors" {
		in = allSubjects[0].make(c)
	}
	g := 2 + c.Intn(4)
	d := c.instData(in)
	orig := in.New()
	if c.Intn(3) == 0 && in.Reseed == nil {
		in.fit(orig, d, d.X, matOrNil(d.Y))
	}
	ref := in.New()
	in.fit(ref, d, d.X, matOrNil(d.Y))
	want, names := in.fingerprint(ref, d, d.Q, matOrNil(d.QY))
	res := make([][]*mat.Dense, g)
	c.Stage("%s: %d clones fitted at the same time", in.Name, g)
	msg, peak := together(g, func(i int) {
		e := cloneOf(orig)
		in.fit(e, d, d.X, matOrNil(d.Y))
		res[i], _ = in.fingerprint(e, d, d.Q, matOrNil(d.QY))
	})
	c.overlapped(peak)
	if msg != "" {
		c.Failf(in.Name+"/panic", "%s: %d clones fitted at the same time: panic %s", in.Name, g, msg)
		return
	}
	tol := in.Noise
	if in.CloneTol > tol {
		tol = in.CloneTol
	}
	for i := range res {
		c.Obs(len(res[i]))
		if df := sameOut(res[i], want, names, tol); df != "" {
			c.Failf(in.Name, "%s: %d clones fitted at the same time on the same data: clone %d: %s (alone)", in.Name, g, i, df)
			return
		}
	}
	c.Sig("clones %s %d %x", in.Name, g, Hash(d.X))
}

// ccQueries: one fitted object answers concurrent queries.
func ccQueries(c *C) {
	in := c.pickSubject()
	g := 2 + c.Intn(6)
	d := c.instData(in)
	e := in.New()
	in.fit(e, d, d.X, matOrNil(d.Y))
	want, names := in.fingerprint(e, d, d.Q, matOrNil(d.QY))
	if c.Intn(3) > 0 { // a query may set up something lazily: the first ones are concurrent
		e = in.New()
		in.fit(e, d, d.X, matOrNil(d.Y))
	}
	res := make([][]*mat.Dense, g)
	c.Stage("%s: %d concurrent queries", in.Name, g)
	msg, peak := together(g, func(i int) {
		res[i], _ = in.fingerprint(e, d, d.Q, matOrNil(d.QY))
		if i%2 == 0 && in.Name != "NearestNeighbors" {
			cloneOf(e)
		}
	})
	c.overlapped(peak)
	if msg != "" {
		c.Failf(in.Name+"/panic", "%s: %d concurrent queries: panic %s", in.Name, g, msg)
		return
	}
	for i := range res {
		c.Obs(len(res[i]))
		if df := sameOut(res[i], want, names, in.Noise); df != "" {
			c.Failf(in.Name, "%s: %d concurrent queries: %s (alone)", in.Name, g, df)
			return
		}
	}
	c.Sig("queries %s %d %x", in.Name, g, Hash(d.X))
}

// ccShared: different objects are trained at the same time with the same matrices.
func ccShared(c *C) {
	kinds := []int{DRegN, DReg1, DClf, DClfN, DUnsup}
	kind := kinds[c.Intn(len(kinds))]
	var ins []*Inst
	for k := 0; len(ins) < 4 && k < 200; k++ {
		in := allSubjects[c.Intn(len(allSubjects))].make(c)
		if in.Kind == kind && !in.SelfOnly {
			ins = append(ins, in)
		}
	}
	d := c.dataset(kind, false)
	want := make([][]*mat.Dense, len(ins))
	names := make([][]string, len(ins))
	for i, in := range ins {
		e := in.New()
		in.fit(e, d, d.X, matOrNil(d.Y))
		want[i], names[i] = in.fingerprint(e, d, d.Q, matOrNil(d.QY))
	}
	res := make([][]*mat.Dense, len(ins))
	what := ""
	for _, in := range ins {
		what += " " + in.Name
	}
	c.Stage("concurrently on the same data:%s", what)
	msg, peak := together(len(ins), func(i int) {
		e := ins[i].New()
		ins[i].fit(e, d, d.X, matOrNil(d.Y))
		res[i], _ = ins[i].fingerprint(e, d, d.Q, matOrNil(d.QY))
	})
	c.overlapped(peak)
	if msg != "" {
		c.Failf("panic", "concurrently on the same data:%s: panic %s", what, msg)
		return
	}
	for i, in := range ins {
		c.Obs(len(res[i]))
		if df := sameOut(res[i], want[i], names[i], in.Noise); df != "" {
			c.Failf(in.Name, "%s, with%s at the same time: %s (alone)", in.Name, what, df)
			return
		}
	}
	c.Sig("shared%s %x", what, Hash(d.X))
}

func ccFunctions(c *C) {
	f := allFunctions[c.Index%len(allFunctions)]
	c.Count("function "+f.name, 1)
	fc := f.make(c)
	w := &watch{}
	ms, sl := c.fnArgs(fc, w, false)
	g := 2 + c.Intn(5)
	want := fc.call(ms, sl)
	res := make([][]*mat.Dense, g)
	c.Stage("%s: %d concurrent calls", f.name, g)
	msg, peak := together(g, func(i int) { res[i] = fc.call(ms, sl) })
	c.overlapped(peak)
	if msg != "" {
		c.Failf(f.name+"/panic", "%s: %d concurrent calls: panic %s", f.name, g, msg)
		return
	}
	tol := 0.
	if f.name == "LinFitGOM" {
		tol = fc.tol
	}
	for i := range res {
		c.Obs(len(res[i]))
		if df := sameOut(res[i], want, nil, tol); df != "" {
			c.Failf(f.name, "%s: %d concurrent calls: %s (alone)", f.name, g, df)
			return
		}
	}
	c.Sig("fn %s %d%s", f.name, g, w.layouts())
}

// ccJobs: the library's own workers, on larger data.
func ccJobs(c *C) {
	var with []subject
	for _, s := range allSubjects {
		switch s.name {
		case "KMeans", "DBSCAN", "KNeighborsClassifier", "KNeighborsRegressor", "NearestNeighbors", "GridSearchCV", "SVC", "SVR", "SGDRegressor", "NearestCentroid", "GaussianNB", "PCA", "StandardScaler", "RobustScaler", "QuantileTransformer", "PowerTransformer", "GaussianProcess":
			with = append(with, s)
		}
	}
	in := with[c.Index%len(with)].make(c)
	c.Count("subject "+in.Name, 1)
	var d *dataset
	for {
		d = c.dataset(in.Kind, !in.heavy && !in.slow)
		if n, _ := d.X.Dims(); n >= 20 || in.heavy {
			break
		}
	}
	if in.SelfOnly {
		d.Q, d.QY = d.X, d.Y
	}
	e := in.New()
	jobs := 2 + c.Intn(8)
	if in.Jobs != nil {
		in.Jobs(e, jobs)
	}
	c.Stage("%s with %d workers", in.Name, jobs)
	in.fit(e, d, d.X, matOrNil(d.Y))
	got, names := in.fingerprint(e, d, d.Q, matOrNil(d.QY))
	one := in.New()
	if in.Jobs != nil {
		in.Jobs(one, 1)
	}
	old := runtime.GOMAXPROCS(1)
	in.fit(one, d, d.X, matOrNil(d.Y))
	want, _ := in.fingerprint(one, d, d.Q, matOrNil(d.QY))
	runtime.GOMAXPROCS(old)
	c.Obs(len(got))
	if df := sameOut(got, want, names, in.Noise); df != "" {
		c.Failf(in.Name, "%s with %d workers: %s (one worker)", in.Name, jobs, df)
		return
	}
	c.Sig("jobs %s %d %x", in.Name, jobs, Hash(d.X))
}

// ccSharedSource: estimators that share one locked source are trained at the same time.
func ccSharedSource(c *C) {
	var ins []*Inst
	want := []string{"LogisticRegression", "SVC", "SVR", "MLPRegressor", "MLPClassifier", "Shuffler", "GridSearchCV"}
	for k := 2 + c.Intn(3); k > 0; k-- {
		name := want[c.Intn(len(want))]
		for _, s := range allSubjects {
			if s.name == name {
				ins = append(ins, s.make(c))
			}
		}
	}
	src := base.NewLockedSource(uint64(c.Intn(1000)))
	ds := make([]*dataset, len(ins))
	what := ""
	for i, in := range ins {
		ds[i] = c.instData(in)
		what += " " + in.Name
	}
	res := make([][]*mat.Dense, len(ins))
	c.Stage("sharing a locked source:%s", what)
	msg, peak := together(len(ins), func(i int) {
		e := ins[i].New()
		switch m := e.(type) {
		case *linearmodel.LogisticRegression:
			m.RandomState = src
		case *svm.SVC:
			m.RandomState = src
		case *svm.SVR:
			m.RandomState = src
		case *nn.MLPRegressor:
			m.RandomState = src
		case *nn.MLPClassifier:
			m.RandomState = src
		case *preprocessing.Shuffler:
			m.RandomState = src
		case *modelselection.GridSearchCV:
			m.CV = &modelselection.KFold{NSplits: 3, Shuffle: true, RandomState: src}
			m.RandomState = src
		}
		ins[i].fit(e, ds[i], ds[i].X, matOrNil(ds[i].Y))
		res[i], _ = ins[i].fingerprint(e, ds[i], ds[i].Q, matOrNil(ds[i].QY))
	})
	c.overlapped(peak)
	if msg != "" {
		c.Failf("panic", "sharing a locked source:%s: panic %s", what, msg)
		return
	}
	for i := range res {
		c.Obs(len(res[i]))
	}
	c.Sig("sharedsource%s %x", what, Hash(ds[0].X))
}

// ccSource: the draws of a locked source by many goroutines are those of the sequential stream.
func ccSource(c *C) {
	seed := uint64(c.Int63n(1 << 31))
	g, per := 2+c.Intn(7), 20+c.Intn(300)
	src := base.NewLockedSource(seed)
	draws := make([][]uint64, g)
	mode := c.Intn(3)
	c.Stage("LockedSource %d goroutines x %d draws", g, per)
	msg, peak := together(g, func(i int) {
		draws[i] = make([]uint64, 0, per)
		for k := 0; k < per; k++ {
			switch {
			case mode == 1 && k%3 == 0:
				src.WithLock(func(s base.Source) { draws[i] = append(draws[i], s.Uint64()) })
			case mode == 2:
				draws[i] = append(draws[i], src.Uint64())
				runtime.Gosched()
			default:
				draws[i] = append(draws[i], src.Uint64())
			}
		}
	})
	c.overlapped(peak)
	if msg != "" {
		c.Failf("panic", "LockedSource: panic %s", msg)
		return
	}
	ref := base.NewSource(seed)
	pos := map[uint64][]int{}
	for k := 0; k < g*per; k++ {
		v := ref.Uint64()
		pos[v] = append(pos[v], k)
	}
	owner := make([]int, g*per)
	for i := range draws {
		last := -1
		for k, v := range draws[i] {
			ps := pos[v]
			if len(ps) == 0 {
				c.Failf("stream", "LockedSource(%d), %d goroutines: draw %d of goroutine %d (%d) is not among the first %d values of the stream, or was handed out twice", seed, g, k, i, v, g*per)
				return
			}
			pos[v] = ps[1:]
			if ps[0] < last && len(ps) == 1 {
				c.Failf("order", "LockedSource(%d): goroutine %d got value %d of the stream after value %d", seed, i, ps[0], last)
				return
			}
			last = ps[0]
			owner[last] = i
			c.Obs(1)
		}
	}
	// how the goroutines interleaved
	sw := 0
	for k := 1; k < len(owner); k++ {
		if owner[k] != owner[k-1] {
			sw++
		}
	}
	c.Count("switches between goroutines in the stream", sw)
	c.Sig("source %d %d %v", g, mode, owner)
}

// ccSourceOps: clones and seeds of a source in use are consistent with a sequential history.
func ccSourceOps(c *C) {
	seed := uint64(c.Int63n(1 << 31))
	src := base.NewLockedSource(seed)
	g, per := 2+c.Intn(4), 10+c.Intn(80)
	type cl struct {
		lo, hi int64 // draws finished before the clone, draws started when it was done
		next   []uint64
	}
	clones := make([][]cl, g)
	var started, finished int64
	c.Stage("LockedSource clones while %d goroutines draw", g)
	msg, peak := together(g, func(i int) {
		for k := 0; k < per; k++ {
			if k%9 == 4 {
				lo := atomic.LoadInt64(&finished)
				s := src.SourceClone()
				hi := atomic.LoadInt64(&started)
				clones[i] = append(clones[i], cl{lo, hi, []uint64{s.Uint64(), s.Uint64(), s.Uint64()}})
				continue
			}
			atomic.AddInt64(&started, 1)
			src.Uint64()
			atomic.AddInt64(&finished, 1)
		}
	})
	c.overlapped(peak)
	if msg != "" {
		c.Failf("panic", "LockedSource: panic %s", msg)
		return
	}
	ref := base.NewSource(seed)
	stream := make([]uint64, g*per+8)
	for k := range stream {
		stream[k] = ref.Uint64()
	}
	n := 0
	for i := range clones {
		for _, x := range clones[i] {
			n++
			ok := false
			for k := x.lo; k <= x.hi && int(k)+2 < len(stream); k++ {
				if stream[k] == x.next[0] && stream[k+1] == x.next[1] && stream[k+2] == x.next[2] {
					ok = true
				}
			}
			c.True("clone", ok, "LockedSource(%d): a clone made between draws %d and %d continues with %v, which no position of the stream in between does", seed, x.lo, x.hi, x.next)
		}
	}
	c.Count("clones of a source in use", n)
	// draws while others seed: every value is one of the stream of the seed
	first := map[uint64]bool{}
	for _, v := range stream {
		first[v] = true
	}
	outside := make([]int, g)
	c.Stage("LockedSource seeded while %d goroutines draw", g)
	msg, _ = together(g, func(i int) {
		for k := 0; k < per; k++ {
			if k%5 == i%5 {
				src.Seed(seed)
			} else if !first[src.Uint64()] && k > 5 {
				outside[i]++
			}
		}
	})
	if msg != "" {
		c.Failf("panic", "LockedSource: panic %s", msg)
		return
	}
	for i := range outside {
		c.True("seeding", outside[i] == 0, "LockedSource(%d): %d draws next to goroutines that seed it are not values of its stream", seed, outside[i])
	}
	// seed starts the stream again, for everybody
	src.Seed(seed)
	c.True("seed", src.Uint64() == stream[0], "LockedSource: Seed(%d) doesn't start the stream again", seed)
	// the wrappers of golang.org/x/exp/rand over it are serialised too
	r1, r2 := rand.New(base.NewLockedSource(seed)), rand.New(base.NewSource(seed))
	for k := 0; k < 5; k++ {
		c.True("rand", r1.Uint64() == r2.Uint64(), "rand.New of a locked source doesn't give the stream of its seed")
	}
	// two streams of different seeds differ, two of the same seed don't
	a, b := base.NewLockedSource(seed), base.NewLockedSource(seed+1)
	same := true
	for k := 0; k < 4; k++ {
		same = a.Uint64() == b.Uint64() && same
	}
	c.True("seeds", !same, "LockedSource: seeds %d and %d give the same stream", seed, seed+1)
	c.Sig("sourceops %d %d", g, n)
}

// disturb starts goroutines that use the processors until the returned function is called.
func disturb(c *C) func() {
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for k := c.Intn(3); k > 0; k-- {
		wg.Add(1)
		seed := c.Int63()
		go func() {
			defer wg.Done()
			r := newRand(seed)
			for {
				select {
				case <-stop:
					return
				default:
				}
				switch r.Intn(3) {
				case 0:
					time.Sleep(time.Duration(r.Intn(50)) * time.Microsecond)
				case 1:
					x := 0
					for q := 0; q < r.Intn(3000); q++ {
						x += q
					}
					_ = x
				default:
					runtime.Gosched()
				}
			}
		}()
	}
	return func() { close(stop); wg.Wait() }
}

var jobCounts = []int{1, 2, 3, 4, 7, 16, -1}

// rpEstimators: results don't depend on workers, processors and scheduling.
func rpEstimators(c *C) {
	in := c.pickSubject()
	d := c.instData(in)
	run := func(jobs, procs int) ([]*mat.Dense, []string) {
		old := runtime.GOMAXPROCS(procs)
		defer runtime.GOMAXPROCS(old)
		defer disturb(c)()
		e := in.New()
		if in.Jobs != nil {
			in.Jobs(e, jobs)
		}
		c.Stage("%s jobs=%d GOMAXPROCS=%d", in.Name, jobs, procs)
		in.fit(e, d, d.X, matOrNil(d.Y))
		return in.fingerprint(e, d, d.Q, matOrNil(d.QY))
	}
	want, names := run(1, 1)
	runs := 3
	if in.slow {
		runs = 2
	}
	for t := 0; t < runs; t++ {
		jobs, procs := jobCounts[c.Intn(len(jobCounts))], 1+c.Intn(8)
		got, _ := run(jobs, procs)
		c.Obs(len(got))
		if df := sameOut(got, want, names, in.Noise); df != "" {
			c.Failf(in.Name, "%s with %d workers and GOMAXPROCS=%d: %s (one of each)", in.Name, jobs, procs, df)
			return
		}
		c.Sig("%s %d %d %x", in.Name, jobs, procs, Hash(d.X))
	}
}

func rpFunctions(c *C) {
	f := allFunctions[c.Index%len(allFunctions)]
	c.Count("function "+f.name, 1)
	fc := f.make(c)
	w := &watch{}
	ms, sl := c.fnArgs(fc, w, false)
	tol := 0.
	if f.name == "LinFitGOM" {
		tol = fc.tol
	}
	old := runtime.GOMAXPROCS(1)
	defer runtime.GOMAXPROCS(old)
	want := fc.call(ms, sl)
	for t := 0; t < 3; t++ {
		procs := 1 + c.Intn(8)
		runtime.GOMAXPROCS(procs)
		end := disturb(c)
		c.Stage("%s GOMAXPROCS=%d", f.name, procs)
		got := fc.call(ms, sl)
		end()
		c.Obs(len(got))
		if df := sameOut(got, want, nil, tol); df != "" {
			c.Failf(f.name, "%s with GOMAXPROCS=%d: %s (with 1)", f.name, procs, df)
			return
		}
		c.Sig("%s %d%s", f.name, procs, w.layouts())
	}
}

// rpSearch: cross validation and grid search of seeded estimators.
func rpSearch(c *C) {
	names := []string{"LogisticRegression", "MLPRegressor", "MLPClassifier", "SVC", "SVR", "LinearRegression", "KNeighborsClassifier", "ElasticNet", "GaussianNB", "Pipeline"}
	name := names[c.Index%len(names)]
	var in *Inst
	for _, s := range allSubjects {
		if s.name == name {
			in = s.make(c)
		}
	}
	d := c.dataset(in.Kind, false)
	for {
		if n, _ := d.X.Dims(); n >= 20 {
			break
		}
		d = c.dataset(in.Kind, false)
	}
	sk, seed, splits := c.Intn(2), uint64(c.Intn(1000)), 2+c.Intn(4)
	run := func(jobs, procs int) []*mat.Dense {
		old := runtime.GOMAXPROCS(procs)
		defer runtime.GOMAXPROCS(old)
		defer disturb(c)()
		cv := &modelselection.KFold{NSplits: splits, Shuffle: true, RandomState: newSrc(sk, seed)}
		c.Stage("CrossValidate(%s) jobs=%d GOMAXPROCS=%d", name, jobs, procs)
		r := modelselection.CrossValidate(in.New().(base.Predicter), d.X, d.Y, nil, negMSE, cv, jobs)
		out := []*mat.Dense{vec(r.TestScore)}
		for _, e := range r.Estimator {
			out = append(out, copyOfDense(e.Predict(d.Q, nil)))
		}
		return out
	}
	want := run(1, 1)
	for t := 0; t < 2; t++ {
		jobs, procs := jobCounts[c.Intn(len(jobCounts))], 1+c.Intn(8)
		got := run(jobs, procs)
		c.Obs(len(got))
		if df := sameOut(got, want, nil, in.Noise); df != "" {
			c.Failf(name, "CrossValidate of %s with %d jobs and GOMAXPROCS=%d: %s (one of each)", name, jobs, procs, df)
			return
		}
		c.Sig("search %s %d %d %x", name, jobs, procs, Hash(d.X))
	}
}
