package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/preprocessing"
	"gonum.org/v1/gonum/mat"
)

var allSubjects = subjects()
var allFunctions = functions()
var allPredicters = func() (list []subject) {
	for _, s := range allSubjects {
		c := &C{Rand: newRand(1)}
		if _, ok := s.make(c).New().(base.Predicter); ok {
			list = append(list, s)
		}
	}
	return
}()

func init() {
	rule := "a case takes the next of the " + fmt.Sprint(len(allSubjects)) + " estimators and transformers (or of the " + fmt.Sprint(len(allFunctions)) + " functions) with random settings and random training and query data; "
	register(&Property{
		ID:   "C03",
		Rule: rule + "non-trivial when the object was fitted and queried; distinct by (subject, layouts, data)",
		Families: []Family{
			{Name: "inputs", Quick: 1600, Thorough: 40000, Run: sjInputs},
			{Name: "overwrite", Quick: 1200, Thorough: 30000, Run: sjOverwrite},
			{Name: "functions", Quick: 1500, Thorough: 40000, Run: fnInputs},
		},
	})
	register(&Property{
		ID:   "C04",
		Rule: rule + "it is run for several combinations of representations of its matrices; distinct by (subject, layouts, data)",
		Families: []Family{
			{Name: "estimators", Quick: 1600, Thorough: 40000, Run: sjLayouts},
			{Name: "destination", Quick: 1200, Thorough: 30000, Run: sjDestination},
			{Name: "functions", Quick: 1500, Thorough: 40000, Run: fnLayouts},
		},
	})
	register(&Property{
		ID:   "C05",
		Rule: rule + "and a history of fits, clones and uses of several objects; distinct by (subject, history, data)",
		Families: []Family{
			{Name: "refit", Quick: 1600, Thorough: 40000, Run: sjRefit},
			{Name: "clone", Quick: 1600, Thorough: 40000, Run: sjClone},
		},
	})
}

func (c *C) pickSubject() *Inst {
	s := allSubjects[c.Index%len(allSubjects)]
	in := s.make(c)
	in.Attrs = c.Prop == "C03" || c.Prop == "C05"
	c.Count("subject "+in.Name, 1)
	return in
}

// instData makes a data set for an instance.
func (c *C) instData(in *Inst) *dataset {
	d := c.dataset(in.Kind, !in.heavy && !in.slow)
	if in.SelfOnly {
		d.Q, d.QY = d.X, d.Y
	}
	return d
}

// xlayout gives one of the representations, including a strided vector for single columns.
func (c *C) xlayout(d *mat.Dense, kind int) (mat.Matrix, func() bool, string) {
	if d == nil {
		return nil, nil, "nil"
	}
	if _, k := d.Dims(); k == 1 && kind == nLayouts {
		r, _ := d.Dims()
		big := mat.NewDense(r, 3, nil)
		big.Apply(func(i, j int, _ float64) float64 { return 7.77e33 }, big)
		for i := 0; i < r; i++ {
			big.Set(i, 1, d.At(i, 0))
		}
		return big.ColView(1), func() bool {
			for i := 0; i < r; i++ {
				if big.At(i, 0) != 7.77e33 || big.At(i, 2) != 7.77e33 {
					return false
				}
			}
			return true
		}, "vector"
	}
	kind %= nLayouts
	m, g := Layout(d, kind)
	return m, g, layoutNames[kind]
}

type watched struct {
	name  string
	m     mat.Matrix
	orig  *mat.Dense
	guard func() bool
}

type watch struct{ list []*watched }

func (w *watch) add(c *C, name string, d *mat.Dense, kind int) mat.Matrix {
	if d == nil {
		return nil
	}
	m, g, ln := c.xlayout(d, kind)
	w.list = append(w.list, &watched{name + " (" + ln + ")", m, copyOfDense(d), g})
	return m
}

func (w *watch) changed() string {
	for _, x := range w.list {
		if !SameValues(x.m, x.orig) {
			return x.name + " was modified"
		}
		if x.guard != nil && !x.guard() {
			return "memory around " + x.name + " was modified"
		}
	}
	return ""
}

func (w *watch) layouts() string {
	s := ""
	for _, x := range w.list {
		s += " " + x.name
	}
	return s
}

// sjInputs: no call modifies its arguments nor the memory around them.
func sjInputs(c *C) {
	in := c.pickSubject()
	d := c.instData(in)
	w := &watch{}
	X := w.add(c, "X", d.X, c.Intn(nLayouts))
	Y := w.add(c, "Y", d.Y, c.Intn(nLayouts+1))
	Q := w.add(c, "query X", d.Q, c.Intn(nLayouts))
	QY := w.add(c, "query Y", d.QY, c.Intn(nLayouts+1))
	est := in.New()
	check := func(op string) bool {
		c.Obs(len(w.list))
		c.Count("calls", 1)
		if ch := w.changed(); ch != "" {
			c.Failf(in.Name+"/"+op, "%s.%s: %s", in.Name, op, ch)
			return false
		}
		return true
	}
	c.Stage("%s%s", in.Name, w.layouts())
	in.fit(est, d, X, Y)
	if !check("Fit") {
		return
	}
	switch e := est.(type) {
	case base.Predicter:
		P := e.Predict(Q, nil)
		if !check("Predict") {
			return
		}
		if d.QY != nil && d.kind != DUnsup {
			e.Score(Q, QY)
			if !check("Score") {
				return
			}
		}
		if P != nil && !P.IsEmpty() {
			r, k := P.Dims()
			dst := mat.NewDense(r, k, nil)
			e.Predict(Q, dst)
			if !check("Predict") {
				return
			}
		}
	case base.Transformer:
		for t := 0; t < 2; t++ {
			var Xo, Yo *mat.Dense
			op := "Transform"
			if t == 0 {
				Xo, Yo = e.Transform(Q, QY)
			} else {
				op = "FitTransform"
				Xo, Yo = in.New().(base.Transformer).FitTransform(X, Y)
			}
			if !check(op) {
				return
			}
			if inv, ok := est.(preprocessing.InverseTransformer); ok && !in.skipInverse() {
				w2 := &watch{}
				var a, b *mat.Dense
				if Xo != nil && !Xo.IsEmpty() {
					a = w2.add(c, "X", copyOfDense(Xo), c.Intn(2)).(*mat.Dense)
				}
				if Yo != nil && !Yo.IsEmpty() {
					b = w2.add(c, "Y", copyOfDense(Yo), c.Intn(2)).(*mat.Dense)
				}
				inv.InverseTransform(a, b)
				if ch := w2.changed(); ch != "" {
					c.Failf(in.Name+"/InverseTransform", "%s.InverseTransform: %s", in.Name, ch)
					return
				}
				if !check("InverseTransform") {
					return
				}
			}
		}
	}
	in.fingerprint(est, d, Q, QY)
	if !check("queries") {
		return
	}
	cloneOf(est)
	c.Sig("inputs %s%s %x", in.Name, w.layouts(), Hash(d.X))
}

// scramble overwrites all the values of a matrix the caller owns.
func scramble(c *C, m mat.Matrix) {
	var d *mat.Dense
	switch v := m.(type) {
	case *mat.Dense:
		d = v
	case mat.Transpose:
		d = v.Matrix.(*mat.Dense)
	case Opaque:
		d = v.D
	case *mat.VecDense:
		for i := 0; i < v.Len(); i++ {
			v.SetVec(i, 1e3*c.NormFloat64())
		}
		return
	default:
		return
	}
	d.Apply(func(_, _ int, _ float64) float64 { return 1e3 * c.NormFloat64() }, d)
}

// sjOverwrite: a fitted object doesn't depend on the matrices it was given anymore.
func sjOverwrite(c *C) {
	in := c.pickSubject()
	d := c.instData(in)
	w := &watch{}
	X := w.add(c, "X", d.X, c.Intn(nLayouts))
	Y := w.add(c, "Y", d.Y, c.Intn(nLayouts+1))
	est := in.New()
	c.Stage("%s%s", in.Name, w.layouts())
	if tr, ok := est.(base.Transformer); ok && c.Intn(2) == 0 {
		tr.FitTransform(X, Y)
	} else {
		in.fit(est, d, X, Y)
	}
	Q, QY := copyOfDense(d.Q), matOrNil(nil)
	if d.QY != nil {
		QY = copyOfDense(d.QY)
	}
	before, names := in.fingerprint(est, d, Q, QY)
	if X != nil {
		scramble(c, X)
	}
	if Y != nil {
		scramble(c, Y)
	}
	after, _ := in.fingerprint(est, d, Q, QY)
	c.Obs(len(before))
	if df := sameOut(after, before, names, 0); df != "" {
		c.Failf(in.Name, "%s fitted with%s: after the caller overwrote the training data, %s", in.Name, w.layouts(), df)
	}
	// results handed out are not changed by later calls
	if pr, ok := est.(base.Predicter); ok {
		P1 := pr.Predict(Q, nil)
		keep := copyOfDense(P1)
		Q2 := copyOfDense(d.Q)
		Q2.Apply(func(_, _ int, v float64) float64 { return v + c.NormFloat64() }, Q2)
		if !in.SelfOnly {
			pr.Predict(Q2, nil)
		}
		d2 := c.instData(in)
		if in.Reseed != nil {
			in.Reseed(est)
		}
		in.fit(est, d2, d2.X, matOrNil(d2.Y))
		if P1 != nil {
			c.True(in.Name+"/result", SameValues(copyOfDense(P1), keep), "%s: predictions handed out earlier were changed by later calls", in.Name)
		}
	}
	c.Sig("overwrite %s%s %x", in.Name, w.layouts(), Hash(d.X))
}

func (c *C) fnArgs(fc *fnCall, w *watch, plain bool) (ms []mat.Matrix, sl [][]float64) {
	for i, m := range fc.ms {
		if m == nil {
			ms = append(ms, nil)
			continue
		}
		k := c.Intn(2)
		if fc.any[i] {
			k = c.Intn(nLayouts)
		}
		if plain {
			k = LDense
		}
		ms = append(ms, w.add(c, fmt.Sprintf("argument %d", i), m, k))
	}
	for _, s := range fc.sl {
		sl = append(sl, append([]float64(nil), s...))
		if s == nil {
			sl[len(sl)-1] = nil
		}
	}
	return
}

func fnInputs(c *C) {
	f := allFunctions[c.Index%len(allFunctions)]
	c.Count("function "+f.name, 1)
	fc := f.make(c)
	w := &watch{}
	ms, sl := c.fnArgs(fc, w, false)
	c.Stage("%s%s", f.name, w.layouts())
	out := fc.call(ms, sl)
	c.Obs(len(ms))
	if ch := w.changed(); ch != "" {
		c.Failf(f.name, "%s: %s", f.name, ch)
	}
	for i := range sl {
		for j := range sl[i] {
			if sl[i][j] != fc.sl[i][j] {
				c.Failf(f.name, "%s: slice argument %d was modified: %v, was %v", f.name, i, sl[i], fc.sl[i])
				return
			}
		}
	}
	h := uint64(0)
	if len(out) > 0 && out[0] != nil && !out[0].IsEmpty() {
		h = Hash(out[0])
	}
	c.Sig("fn %s%s %x", f.name, w.layouts(), h)
}

// fnLayouts: the results of functions depend on the values only.
func fnLayouts(c *C) {
	f := allFunctions[c.Index%len(allFunctions)]
	c.Count("function "+f.name, 1)
	fc := f.make(c)
	w0 := &watch{}
	ms, sl := c.fnArgs(fc, w0, true)
	c.Stage("%s contiguous", f.name)
	ref := fc.call(ms, sl)
	for t := 0; t < 4; t++ {
		w := &watch{}
		ms, sl = c.fnArgs(fc, w, false)
		c.Stage("%s%s", f.name, w.layouts())
		out := fc.call(ms, sl)
		c.Obs(len(out))
		if df := sameOut(out, ref, nil, fc.tol); df != "" {
			c.Failf(f.name, "%s with%s: %s (contiguous)", f.name, w.layouts(), df)
			return
		}
		c.Sig("fn %s%s", f.name, w.layouts())
	}
}

// sjLayouts: results depend on the values of the matrices only.
func sjLayouts(c *C) {
	in := c.pickSubject()
	d := c.instData(in)
	est := in.New()
	c.Stage("%s contiguous", in.Name)
	var refT []*mat.Dense
	Yc, QYc := matOrNil(d.Y), matOrNil(d.QY)
	in.fit(est, d, copyOfDense(d.X), Yc)
	ref, names := in.fingerprint(est, d, copyOfDense(d.Q), QYc)
	tr, isT := est.(base.Transformer)
	if isT {
		if in.Reseed != nil {
			in.Reseed(est)
		}
		a, b := tr.FitTransform(copyOfDense(d.X), Yc)
		refT = []*mat.Dense{copyOfDense(a), copyOfDense(b)}
	}
	runs := 3
	if in.slow {
		runs = 1
	}
	for t := 0; t < runs; t++ {
		w := &watch{}
		X := w.add(c, "X", d.X, c.Intn(nLayouts))
		Y := w.add(c, "Y", d.Y, c.Intn(nLayouts+1))
		Q := w.add(c, "query X", d.Q, c.Intn(nLayouts))
		QY := w.add(c, "query Y", d.QY, c.Intn(nLayouts+1))
		e := in.New()
		c.Stage("%s%s", in.Name, w.layouts())
		in.fit(e, d, X, Y)
		got, _ := in.fingerprint(e, d, Q, QY)
		c.Obs(len(got))
		if df := sameOut(got, ref, names, in.Tol); df != "" {
			c.Failf(in.Name, "%s with%s: %s (contiguous)", in.Name, w.layouts(), df)
			return
		}
		if isT {
			e = in.New()
			a, b := e.(base.Transformer).FitTransform(X, Y)
			if df := sameOut([]*mat.Dense{copyOfDense(a), copyOfDense(b)}, refT, []string{"FitTransform X", "FitTransform Y"}, in.Tol); df != "" {
				c.Failf(in.Name, "%s with%s: %s (contiguous)", in.Name, w.layouts(), df)
				return
			}
		}
		c.Sig("layout %s%s", in.Name, w.layouts())
	}
}

// OpaqueMut is a mat.Mutable that gives access to nothing but At, Set and Dims.
type OpaqueMut struct{ D *mat.Dense }

func (o OpaqueMut) Dims() (int, int)        { return o.D.Dims() }
func (o OpaqueMut) At(i, j int) float64     { return o.D.At(i, j) }
func (o OpaqueMut) Set(i, j int, v float64) { o.D.Set(i, j, v) }
func (o OpaqueMut) T() mat.Matrix           { return mat.Transpose{Matrix: o} }

// sjDestination: predictions are written to the destination, and nowhere else.
func sjDestination(c *C) {
	in := allPredicters[c.Index%len(allPredicters)].make(c)
	c.Count("subject "+in.Name, 1)
	d := c.instData(in)
	e := in.New().(base.Predicter)
	c.Stage("%s", in.Name)
	in.fit(e, d, d.X, matOrNil(d.Y))
	ref := e.Predict(d.Q, nil)
	if ref == nil || ref.IsEmpty() {
		c.Sig("destination none %s", in.Name)
		return
	}
	ref = copyOfDense(ref)
	r, o := ref.Dims()
	if no := e.GetNOutputs(); no != o {
		c.Failf(in.Name+"/GetNOutputs", "%s: GetNOutputs is %d, predictions have %d columns", in.Name, no, o)
		return
	}
	junk := mat.NewDense(r, o, nil)
	junk.Apply(func(_, _ int, _ float64) float64 { return 1e3 * c.NormFloat64() }, junk)
	for kind := 0; kind < 3; kind++ {
		var dst mat.Mutable
		var guard func() bool
		what := ""
		switch kind {
		case 0:
			dst, what = mat.DenseCopyOf(junk), "dense"
		case 1:
			m, g := Layout(junk, LView)
			dst, guard, what = m.(*mat.Dense), g, "view"
		default:
			dst, what = OpaqueMut{mat.DenseCopyOf(junk)}, "opaque"
		}
		Q, _, ln := c.xlayout(d.Q, c.Intn(nLayouts))
		c.Stage("%s to %s", in.Name, what)
		ret := e.Predict(Q, dst)
		c.Obs(r*o + 1)
		if df := DiffMat(dst, ref, in.Tol*(1+absMax(ref))); df != "" {
			c.Failf(in.Name+"/"+what, "%s.Predict of a %s to a %s destination: %s", in.Name, ln, what, df)
			return
		}
		if ret != nil {
			if df := DiffMat(ret, ref, in.Tol*(1+absMax(ref))); df != "" {
				c.Failf(in.Name+"/"+what, "%s.Predict of a %s to a %s destination returned: %s", in.Name, ln, what, df)
				return
			}
		}
		if guard != nil && !guard() {
			c.Failf(in.Name+"/"+what, "%s.Predict wrote outside its destination", in.Name)
			return
		}
	}
	c.Sig("destination %s %d %x", in.Name, o, Hash(d.X))
}

// sjRefit: an object that was fitted and used before behaves like a new one.
func sjRefit(c *C) {
	in := c.pickSubject()
	e := in.New()
	hist := ""
	for t := 1 + c.Intn(3); t > 0; t-- {
		d := c.instData(in)
		r, k := d.X.Dims()
		c.Stage("%s history%s fit %dx%d", in.Name, hist, r, k)
		if tr, ok := e.(base.Transformer); ok && c.Intn(3) == 0 {
			tr.FitTransform(d.X, matOrNil(d.Y))
		} else {
			in.fit(e, d, d.X, matOrNil(d.Y))
		}
		hist += fmt.Sprintf(" fit(%dx%d)", r, k)
		if c.Intn(2) == 0 {
			in.fingerprint(e, d, d.Q, matOrNil(d.QY))
			hist += " use"
		}
		if in.slow && t > 1 {
			break
		}
	}
	// other settings for the last fit; PCA cannot tell a number of components from the one it set itself
	if c.Intn(3) == 0 && in.Name != "PCA" {
		in2 := c.pickSubject()
		in2.Attrs = false // those of settings no longer in use may stay
		if n := retune(reflect.ValueOf(e).Elem(), reflect.ValueOf(in.New()).Elem(), reflect.ValueOf(in2.New()).Elem()); n > 0 {
			hist += fmt.Sprintf(" %d settings changed", n)
			c.Count("settings changed between fits", 1)
		}
		in = in2
	}
	d := c.instData(in)
	if in.Reseed != nil {
		in.Reseed(e)
	}
	r, k := d.X.Dims()
	c.Stage("%s history%s fit %dx%d", in.Name, hist, r, k)
	in.fit(e, d, d.X, matOrNil(d.Y))
	got, names := in.fingerprint(e, d, d.Q, matOrNil(d.QY))
	f := in.New()
	in.fit(f, d, d.X, matOrNil(d.Y))
	want, _ := in.fingerprint(f, d, d.Q, matOrNil(d.QY))
	c.Obs(len(got))
	if df := sameOut(got, want, names, in.Noise); df != "" {
		c.Failf(in.Name, "%s after%s, fit(%dx%d): %s with a new object", in.Name, hist, r, k, df)
		return
	}
	c.Sig("refit %s%s %x", in.Name, hist, Hash(d.X))
}

// retune gives to v the settings of b, where two new objects a and b differ.
func retune(v, a, b reflect.Value) (n int) {
	if v.Kind() != reflect.Struct {
		return 0
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.PkgPath != "" || f.Name == "KernelOpt" { // the latter is set by Fit
			continue
		}
		if f.Anonymous && f.Type.Kind() == reflect.Struct {
			n += retune(v.Field(i), a.Field(i), b.Field(i))
		} else if !b.Field(i).IsZero() || !reflect.DeepEqual(a.Field(i).Interface(), b.Field(i).Interface()) {
			v.Field(i).Set(b.Field(i))
			n++
		}
	}
	return
}

// perturb changes, in place, the numbers of the exported fields of a structure and of what they refer to.
func perturb(v reflect.Value, depth int) (n int) {
	if depth > 6 || !v.IsValid() {
		return 0
	}
	if d, ok := v.Interface().(*mat.Dense); ok {
		if d == nil {
			return 0
		}
		r, c := d.Dims()
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				d.Set(i, j, 3*d.At(i, j)+7)
			}
		}
		return 1
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			return perturb(v.Elem(), depth+1)
		}
	case reflect.Struct:
		if !strings.Contains(v.Type().PkgPath(), "pa-m/sklearn") {
			return 0
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				n += perturb(v.Field(i), depth+1)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			n += perturb(v.Index(i), depth+1)
		}
	case reflect.Float64, reflect.Float32:
		if v.CanSet() {
			v.SetFloat(3*v.Float() + 7)
			n++
		}
	case reflect.Int:
		if v.CanSet() {
			v.SetInt(v.Int() + 3)
			n++
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
			n++
		}
	}
	return
}

// sjClone: clones have the settings of the original and are independent of it.
func sjClone(c *C) {
	in := c.pickSubject()
	if in.Name == "NearestNeighbors" { // has no clone
		c.Sig("no clone")
		return
	}
	d1, d2 := c.instData(in), c.instData(in)
	a := in.New()
	fitted := c.Intn(2) == 0
	if fitted {
		in.fit(a, d1, d1.X, matOrNil(d1.Y))
	}
	c.Stage("%s clone, fitted=%v", in.Name, fitted)
	b := cloneOf(a)
	var names []string
	if fitted && in.Reseed != nil && c.Intn(3) == 0 {
		// the random states of both go on independently
		d3 := c.instData(in)
		in.fit(b, d3, d3.X, matOrNil(d3.Y))
		in.fit(a, d2, d2.X, matOrNil(d2.Y))
		got, names := in.fingerprint(a, d2, d2.Q, matOrNil(d2.QY))
		f := in.New()
		in.fit(f, d1, d1.X, matOrNil(d1.Y))
		in.fit(f, d2, d2.X, matOrNil(d2.Y))
		want, _ := in.fingerprint(f, d2, d2.Q, matOrNil(d2.QY))
		c.Obs(len(got))
		if df := sameOut(got, want, names, math.Max(in.Noise, in.CloneTol)); df != "" {
			c.Failf(in.Name+"/state", "%s: after the clone of the fitted object was fitted, fitting the original again gives %s (object without clone)", in.Name, df)
			return
		}
		c.Sig("clone state %s %x", in.Name, Hash(d1.X, d2.X))
		return
	}
	if fitted {
		// a clone of a fitted object may be used at once or must be fitted: when it answers, it answers like the original
		var before, cl []*mat.Dense
		before, names = in.fingerprint(a, d1, d1.Q, matOrNil(d1.QY))
		if panicked, _ := Panics(func() { cl, _ = in.fingerprint(b, d1, d1.Q, matOrNil(d1.QY)) }); !panicked {
			if df := sameOut(cl, before, names, in.CloneTol); df != "" {
				c.Failf(in.Name+"/copy", "%s: clone of a fitted object: %s (original)", in.Name, df)
				return
			}
			c.Count("clones used at once", 1)
		}
		// fit one of them with more data: the other stays
		one, other, who := b, a, "original"
		ref := before
		if cl != nil && c.Intn(2) == 0 {
			one, other, who, ref = a, b, "clone", cl
		}
		if cl != nil && c.Intn(3) == 0 && in.partial(one, d1) {
			more, _ := in.fingerprint(one, d1, d1.Q, matOrNil(d1.QY))
			after, _ := in.fingerprint(other, d1, d1.Q, matOrNil(d1.QY))
			c.Obs(len(after))
			if df := sameOut(after, ref, names, 0); df != "" {
				c.Failf(in.Name+"/partial", "%s: after one was fitted with more data, the %s gives %s (before)", in.Name, who, df)
				return
			}
			f := in.New()
			in.fit(f, d1, d1.X, matOrNil(d1.Y))
			in.partial(f, d1)
			want, n2 := in.fingerprint(f, d1, d1.Q, matOrNil(d1.QY))
			if df := sameOut(more, want, n2, in.CloneTol); df != "" {
				c.Failf(in.Name+"/partial", "%s: fitted with more data next to its %s gives %s (new object)", in.Name, who, df)
				return
			}
			c.Count("partial fits", 1)
			c.Sig("clone partial %s %x", in.Name, Hash(d1.X))
			return
		}
		// fit the clone on other data: the original stays
		if c.Intn(2) == 0 {
			if in.Reseed != nil {
				in.Reseed(b)
			}
			in.fit(b, d2, d2.X, matOrNil(d2.Y))
			in.fingerprint(b, d2, d2.Q, matOrNil(d2.QY))
			after, _ := in.fingerprint(a, d1, d1.Q, matOrNil(d1.QY))
			c.Obs(len(after))
			if df := sameOut(after, before, names, 0); df != "" {
				c.Failf(in.Name+"/original", "%s: after its clone was fitted on other data, the original gives %s (before)", in.Name, df)
				return
			}
			// and the clone is what a new object is
			f := in.New()
			in.fit(f, d2, d2.X, matOrNil(d2.Y))
			want, n2 := in.fingerprint(f, d2, d2.Q, matOrNil(d2.QY))
			got, _ := in.fingerprint(b, d2, d2.Q, matOrNil(d2.QY))
			if df := sameOut(got, want, n2, math.Max(in.Noise, in.CloneTol)); df != "" {
				c.Failf(in.Name+"/settings", "%s: clone fitted on other data gives %s (new object)", in.Name, df)
				return
			}
		} else {
			// refit the original: a clone that answered keeps its answers
			if cl == nil {
				c.Sig("clone unusable %s", in.Name)
				return
			}
			if in.Reseed != nil {
				in.Reseed(a)
			}
			in.fit(a, d2, d2.X, matOrNil(d2.Y))
			in.fingerprint(a, d2, d2.Q, matOrNil(d2.QY))
			after, _ := in.fingerprint(b, d1, d1.Q, matOrNil(d1.QY))
			if df := sameOut(after, cl, names, 0); df != "" {
				c.Failf(in.Name+"/clone", "%s: after the original was fitted on other data, its clone gives %s (before)", in.Name, df)
				return
			}
		}
		c.Sig("clone fitted %s %x", in.Name, Hash(d1.X, d2.X))
		return
	}
	if c.Intn(4) == 0 && !strings.Contains(in.Name, "Grid") { // (a search refers to the estimator it was given)
		// whoever changes what one of them refers to leaves the other alone
		one, other, who := a, b, "original"
		if c.Intn(2) == 0 {
			one, other, who = b, a, "clone"
		}
		c.Stage("%s scramble %s", in.Name, who)
		n := perturb(reflect.ValueOf(one), 0)
		in.fit(other, d1, d1.X, matOrNil(d1.Y))
		got, names := in.fingerprint(other, d1, d1.Q, matOrNil(d1.QY))
		f := in.New()
		in.fit(f, d1, d1.X, matOrNil(d1.Y))
		want, _ := in.fingerprint(f, d1, d1.Q, matOrNil(d1.QY))
		c.Obs(len(got))
		c.Count("settings changed by reference", n)
		if df := sameOut(got, want, names, math.Max(in.Noise, in.CloneTol)); df != "" {
			c.Failf(in.Name+"/shared", "%s: after the settings of the %s were changed in place, the other one gives %s (new object)", in.Name, who, df)
			return
		}
		c.Sig("clone scramble %s %s %x", in.Name, who, Hash(d1.X))
		return
	}
	// clone before fit: same settings, same random state, independent draws
	in.fit(b, d1, d1.X, matOrNil(d1.Y))
	got, names := in.fingerprint(b, d1, d1.Q, matOrNil(d1.QY))
	f := in.New()
	in.fit(f, d1, d1.X, matOrNil(d1.Y))
	want, _ := in.fingerprint(f, d1, d1.Q, matOrNil(d1.QY))
	if df := sameOut(got, want, names, math.Max(in.Noise, in.CloneTol)); df != "" {
		c.Failf(in.Name+"/settings", "%s: a clone gives %s (new object)", in.Name, df)
		return
	}
	// the original was not touched by the fit of its clone
	in.fit(a, d2, d2.X, matOrNil(d2.Y))
	got, names = in.fingerprint(a, d2, d2.Q, matOrNil(d2.QY))
	f = in.New()
	in.fit(f, d2, d2.X, matOrNil(d2.Y))
	want, _ = in.fingerprint(f, d2, d2.Q, matOrNil(d2.QY))
	c.Obs(len(got) * 2)
	if df := sameOut(got, want, names, math.Max(in.Noise, in.CloneTol)); df != "" {
		c.Failf(in.Name+"/original", "%s: after its clone was fitted, the original gives %s (new object)", in.Name, df)
		return
	}
	c.Sig("clone new %s %x", in.Name, Hash(d1.X, d2.X))
}
