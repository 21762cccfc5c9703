package main

import (
	"fmt"
	"math"

	"github.com/pa-m/sklearn/base"
	nn "github.com/pa-m/sklearn/neural_network"
	"gonum.org/v1/gonum/blas/blas64"
	"gonum.org/v1/gonum/mat"
)

// gen is what General32 and General64 have in common.
type gen interface {
	Dims() (int, int)
	At(i, j int) float64
	Set(i, j int, v float64)
	T() mat.Matrix
	Len() int
	Swap(i, j int)
	Slice(i, j, k, l int) mat.Matrix
}

// rawer is a matrix that gives access to its data and is not a *mat.Dense.
type rawer struct{ d *mat.Dense }

func (r rawer) Dims() (int, int)          { return r.d.Dims() }
func (r rawer) At(i, j int) float64       { return r.d.At(i, j) }
func (r rawer) T() mat.Matrix             { return mat.Transpose{Matrix: r} }
func (r rawer) Set(i, j int, v float64)   { r.d.Set(i, j, v) }
func (r rawer) RawMatrix() blas64.General { return r.d.RawMatrix() }

// bsGeneral: the matrices of the neural networks, in both precisions, as windows of larger arrays.
func bsGeneral(c *C) {
	r, k := c.Size(1, 7, 100), c.Size(1, 7, 60)
	stride := k + c.Intn(4)
	single := c.Intn(2) == 0
	vals := c.RandMat(r, k, c.Intn(2))
	f32 := func(v float64) float64 {
		if single {
			return float64(float32(v))
		}
		return v
	}
	want := mat.NewDense(r, k, nil)
	want.Apply(func(i, j int, _ float64) float64 { return f32(vals.At(i, j)) }, want)
	// the window starts at off and its last row ends where the array ends, or not
	off, tail := c.Intn(3), c.Intn(3)
	size := off + (r-1)*stride + k + tail
	const junk = 1e30
	var g gen
	var outside func() bool
	inside := func(p int) bool {
		p -= off
		return p >= 0 && p/stride < r && p%stride < k
	}
	if single {
		data := make([]float32, size)
		for p := range data {
			data[p] = junk
		}
		w := nn.General32{Rows: r, Cols: k, Stride: stride, Data: data[off : off+(r-1)*stride+k]}
		g = w
		outside = func() bool {
			for p, v := range data {
				if !inside(p) && v != junk {
					return false
				}
			}
			return true
		}
	} else {
		data := make([]float64, size)
		for p := range data {
			data[p] = junk
		}
		w := nn.General64{Rows: r, Cols: k, Stride: stride, Data: data[off : off+(r-1)*stride+k]}
		g = w
		outside = func() bool {
			for p, v := range data {
				if !inside(p) && v != junk {
					return false
				}
			}
			return true
		}
	}
	what := fmt.Sprintf("General %dx%d stride %d single=%v", r, k, stride, single)
	for i := 0; i < r; i++ {
		for j := 0; j < k; j++ {
			g.Set(i, j, vals.At(i, j))
		}
	}
	same := func(key string) bool {
		c.Obs(r * k)
		ok := outside()
		if !ok {
			c.Failf(key, "%s: memory outside the matrix was written", what)
		}
		for i := 0; i < r && ok; i++ {
			for j := 0; j < k; j++ {
				if g.At(i, j) != want.At(i, j) {
					c.Failf(key, "%s: element %d,%d is %v, want %v", what, i, j, g.At(i, j), want.At(i, j))
					return false
				}
			}
		}
		return ok
	}
	if !same("set") {
		return
	}
	gr, gc := g.Dims()
	tr, tc := g.T().Dims()
	c.True("dims", gr == r && gc == k && tr == k && tc == r && g.Len() == r, "%s: dims %d %d, transposed %d %d, length %d", what, gr, gc, tr, tc, g.Len())
	i, j := c.Intn(r), c.Intn(k)
	c.True("transpose", g.T().At(j, i) == want.At(i, j) && g.T().T().At(i, j) == want.At(i, j), "%s: transposed element %d,%d", what, j, i)
	// rows
	a, b := c.Intn(r), c.Intn(r)
	g.Swap(a, b)
	ra, rb := row(want, a), row(want, b)
	want.SetRow(a, rb)
	want.SetRow(b, ra)
	if !same("swap") {
		return
	}
	if single {
		c.True("row view", fmt.Sprint(g.(nn.General32).RawRowView(a)) == fmt.Sprint(floats32(row(want, a))), "%s: RawRowView(%d)", what, a)
	} else {
		c.True("row view", fmt.Sprint(g.(nn.General64).RawRowView(a)) == fmt.Sprint(row(want, a)), "%s: RawRowView(%d)", what, a)
	}
	if k == 1 {
		var less bool
		if single {
			less = g.(nn.General32).Less(a, b)
		} else {
			less = g.(nn.General64).Less(a, b)
		}
		c.True("less", less == (want.At(a, 0) < want.At(b, 0)), "%s: Less(%d,%d)", what, a, b)
	}
	// windows
	i2, j2 := i+1+c.Intn(r-i), j+1+c.Intn(k-j)
	s := g.Slice(i, i2, j, j2)
	sr, sc := s.Dims()
	if c.True("slice dims", sr == i2-i && sc == j2-j, "%s: Slice(%d,%d,%d,%d) is %dx%d", what, i, i2, j, j2, sr, sc) {
		for p := i; p < i2; p++ {
			for q := j; q < j2; q++ {
				c.True("slice", s.At(p-i, q-j) == want.At(p, q), "%s: Slice(%d,%d,%d,%d) element %d,%d", what, i, i2, j, j2, p-i, q-j)
			}
		}
		s.(nn.Mutable).Set(i2-i-1, j2-j-1, 5)
		want.Set(i2-1, j2-1, 5)
		same("slice set")
	}
	rows := func(lo, hi int) gen {
		if single {
			return g.(nn.General32).RowSlice(lo, hi)
		}
		return g.(nn.General64).RowSlice(lo, hi)
	}
	rs := rows(i, i2)
	sr, sc = rs.Dims()
	if c.True("rowslice dims", sr == i2-i && sc == k, "%s: RowSlice(%d,%d) is %dx%d", what, i, i2, sr, sc) {
		for p := i; p < i2; p++ {
			c.True("rowslice", rs.At(p-i, j) == want.At(p, j), "%s: RowSlice(%d,%d) element %d,%d", what, i, i2, p-i, j)
		}
		rs.Set(0, j, 6)
		want.Set(i, j, 6)
		same("rowslice set")
	}
	sr, sc = rows(i, i).Dims()
	c.True("rowslice dims", sr == 0 && sc == k, "%s: RowSlice(%d,%d) is %dx%d", what, i, i, sr, sc)
	// sums and copies
	eq := func(m mat.Matrix) bool {
		for p := 0; p < r; p++ {
			for q := 0; q < k; q++ {
				if m.At(p, q) != want.At(p, q) {
					return false
				}
			}
		}
		return true
	}
	sums := make([]float64, k)
	big := 0.
	for q := 0; q < k; q++ {
		for p := 0; p < r; p++ {
			sums[q] += want.At(p, q)
			big = math.Max(big, math.Abs(want.At(p, q)))
		}
	}
	var src mat.Matrix = g
	if c.Intn(2) == 0 {
		src = c.layout(want)
	}
	if single {
		dst := nn.General32{Rows: 1, Cols: k, Stride: k, Data: make([]float32, k)}
		for q := range dst.Data {
			dst.Data[q] = float32(c.Intn(3))
		}
		dst.SumRows(g.(nn.General32))
		for q, v := range dst.Data {
			c.True("sumrows", math.Abs(float64(v)-sums[q]) <= 1e-6*float64(r)*(1+big), "%s: SumRows column %d is %v, want %v", what, q, v, sums[q])
		}
		cp := nn.General32{Data: make([]float32, 0, c.Intn(2*r*k))}
		cp.Copy(src)
		c.True("copy dims", cp.Rows == r && cp.Cols == k, "%s: Copy gives %dx%d", what, cp.Rows, cp.Cols)
		c.True("copy", eq(cp), "%s: Copy of %T", what, src)
		cp.Set(0, 0, -77)
		same("copy is shared")
		td := nn.ToDense32(src)
		c.True("todense", td.Rows == r && td.Cols == k && eq(td), "%s: ToDense32 of %T", what, src)
		out := mat.NewDense(r+2, k+3, nil)
		win := out.Slice(1, 1+r, 2, 2+k).(*mat.Dense)
		var dst2 nn.Mutable = setter{win}
		if c.Intn(2) == 0 {
			dst2 = win
		}
		nn.FromDense32(dst2, g.(nn.General32))
		c.True("fromdense", SameValues(win, want) && zeroAround(out, r, k), "%s: FromDense32 to %T", what, dst2)
	} else {
		dst := nn.General64{Rows: 1, Cols: k, Stride: k, Data: make([]float64, k)}
		for q := range dst.Data {
			dst.Data[q] = float64(c.Intn(3))
		}
		dst.SumRows(g.(nn.General64))
		for q, v := range dst.Data {
			c.True("sumrows", math.Abs(v-sums[q]) <= 1e-13*float64(r)*(1+big), "%s: SumRows column %d is %v, want %v", what, q, v, sums[q])
		}
		cp := nn.General64{Data: make([]float64, 0, c.Intn(2*r*k))}
		cp.Copy(src)
		c.True("copy dims", cp.Rows == r && cp.Cols == k, "%s: Copy gives %dx%d", what, cp.Rows, cp.Cols)
		c.True("copy", eq(cp), "%s: Copy of %T", what, src)
		cp.Set(0, 0, -77)
		same("copy is shared")
		td := nn.ToDense64(src)
		c.True("todense", td.Rows == r && td.Cols == k && eq(td), "%s: ToDense64 of %T", what, src)
		out := mat.NewDense(r+2, k+3, nil)
		win := out.Slice(1, 1+r, 2, 2+k).(*mat.Dense)
		var dst2 nn.Mutable = setter{win}
		if c.Intn(2) == 0 {
			dst2 = win
		}
		nn.FromDense64(dst2, g.(nn.General64))
		c.True("fromdense", SameValues(win, want) && zeroAround(out, r, k), "%s: FromDense64 to %T", what, dst2)
	}
	// a matrix which gives access to its data
	hd, guard := c.holder()
	hr, hk := hd.Dims()
	dd := base.ToDense(rawer{hd})
	if c.True("rawmatrixer", dd != nil && dimsAre(dd, hr, hk) && SameValues(dd, hd), "ToDense of a RawMatrixer %dx%d", hr, hk) {
		before := Clone(hd)
		dd.Set(hr-1, hk-1, 9)
		before.Set(hr-1, hk-1, 9)
		c.True("rawmatrixer", SameValues(hd, before) && guard(), "ToDense of a RawMatrixer is not a view of it")
		nd := c.RandMat(hr, hk, KGauss)
		base.FromDense(rawer{hd}, nd)
		c.True("rawmatrixer", SameValues(hd, nd) && guard(), "FromDense to a RawMatrixer")
	}
	c.Sig("%s %d %d %d %d %x", what, i, i2, j, j2, Hash(vals))
}

// zeroAround tells that a matrix is zero outside the window of r rows and k columns at 1,2.
func zeroAround(m *mat.Dense, r, k int) bool {
	R, K := m.Dims()
	for i := 0; i < R; i++ {
		for j := 0; j < K; j++ {
			if !(i >= 1 && i < 1+r && j >= 2 && j < 2+k) && m.At(i, j) != 0 {
				return false
			}
		}
	}
	return true
}

func floats32(v []float64) (out []float32) {
	for _, x := range v {
		out = append(out, float32(x))
	}
	return
}
