package main

import (
	"fmt"
	"math"
	"math/rand"

	"gonum.org/v1/gonum/mat"
)

func newRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }

// ---- matrices ----

// Opaque is a mat.Matrix that gives access to nothing but At and Dims.
type Opaque struct{ D *mat.Dense }

func (o Opaque) Dims() (int, int)    { return o.D.Dims() }
func (o Opaque) At(i, j int) float64 { return o.D.At(i, j) }
func (o Opaque) T() mat.Matrix       { return mat.Transpose{Matrix: o} }

// Layouts of a matrix that have the same values.
const (
	LDense     = iota
	LView      // window of a larger matrix: stride > columns, garbage around
	LTranspose // transpose of a dense matrix
	LOpaque    // only At/Dims
	nLayouts
)

var layoutNames = []string{"dense", "view", "transpose", "opaque"}

// Layout returns a matrix with the values of d in the given representation.
// guard, when not nil, checks that the memory around a view was left alone.
func Layout(d *mat.Dense, kind int) (m mat.Matrix, guard func() bool) {
	r, c := d.Dims()
	switch kind {
	case LView:
		big := mat.NewDense(r+3, c+5, nil)
		const junk = 7.77e33
		for i := 0; i < r+3; i++ {
			for j := 0; j < c+5; j++ {
				big.Set(i, j, junk)
			}
		}
		v := big.Slice(1, 1+r, 2, 2+c).(*mat.Dense)
		v.Copy(d)
		guard = func() bool {
			for i := 0; i < r+3; i++ {
				for j := 0; j < c+5; j++ {
					if i >= 1 && i < 1+r && j >= 2 && j < 2+c {
						continue
					}
					if big.At(i, j) != junk {
						return false
					}
				}
			}
			return true
		}
		return v, guard
	case LTranspose:
		t := mat.DenseCopyOf(d.T())
		return t.T(), nil
	case LOpaque:
		return Opaque{mat.DenseCopyOf(d)}, nil
	}
	return mat.DenseCopyOf(d), nil
}

// DenseView returns d as a *mat.Dense, possibly as a window of a larger matrix.
func DenseView(d *mat.Dense, view bool) *mat.Dense {
	if !view {
		return mat.DenseCopyOf(d)
	}
	m, _ := Layout(d, LView)
	return m.(*mat.Dense)
}

func Clone(d mat.Matrix) *mat.Dense { return mat.DenseCopyOf(d) }

// SameValues compares two matrices entry by entry, bit for bit (NaN equal NaN).
func SameValues(a, b mat.Matrix) bool {
	ar, ac := a.Dims()
	br, bc := b.Dims()
	if ar != br || ac != bc {
		return false
	}
	for i := 0; i < ar; i++ {
		for j := 0; j < ac; j++ {
			x, y := a.At(i, j), b.At(i, j)
			if x != y && !(math.IsNaN(x) && math.IsNaN(y)) {
				return false
			}
		}
	}
	return true
}

// DiffMat describes the first difference between two matrices beyond tol, or "".
func DiffMat(got, want mat.Matrix, tol float64) string {
	gr, gc := got.Dims()
	wr, wc := want.Dims()
	if gr != wr || gc != wc {
		return fmt.Sprintf("dims %dx%d, want %dx%d", gr, gc, wr, wc)
	}
	for i := 0; i < gr; i++ {
		for j := 0; j < gc; j++ {
			if !Close(got.At(i, j), want.At(i, j), tol) {
				return fmt.Sprintf("[%d,%d]=%v want %v", i, j, got.At(i, j), want.At(i, j))
			}
		}
	}
	return ""
}

// NearMat checks two matrices for equality within tol.
func (c *C) NearMat(key string, got, want mat.Matrix, tol float64, format string, args ...interface{}) bool {
	gr, gc := got.Dims()
	c.Obs(gr*gc + 1)
	if d := DiffMat(got, want, tol); d != "" {
		c.Failf(key, "%s: %s", fmt.Sprintf(format, args...), d)
		return false
	}
	return true
}

// Kinds of random data.
const (
	KGauss  = iota
	KInt    // small integers: ties, duplicates
	KScaled // columns of very different scales and offsets
	KConst  // some columns constant
	KDup    // duplicated rows
	KSparse // many zeros
	nKinds
)

var kindNames = []string{"gauss", "int", "scaled", "const", "dup", "sparse"}

// RandMat makes an r x c matrix of the given kind.
func (c *C) RandMat(r, k, kind int) *mat.Dense {
	m := mat.NewDense(r, k, nil)
	for j := 0; j < k; j++ {
		scale, off := 1., 0.
		if kind == KScaled {
			scale = math.Pow(10, float64(c.Intn(5)-2))
			off = scale * c.NormFloat64() * 3
		}
		cst := c.NormFloat64()
		isConst := kind == KConst && c.Intn(2) == 0
		for i := 0; i < r; i++ {
			v := c.NormFloat64()*scale + off
			switch {
			case kind == KInt:
				v = float64(c.Intn(7) - 3)
			case isConst:
				v = cst
			case kind == KSparse && c.Intn(3) > 0:
				v = 0
			}
			m.Set(i, j, v)
		}
	}
	if kind == KDup {
		for i := 1; i < r; i++ {
			if c.Intn(3) == 0 {
				m.SetRow(i, mat.Row(nil, c.Intn(i), m))
			}
		}
	}
	return m
}

// Mat draws a matrix with a random kind.
func (c *C) Mat(r, k int) (*mat.Dense, string) {
	kind := c.Intn(nKinds)
	return c.RandMat(r, k, kind), kindNames[kind]
}

func MatString(m mat.Matrix) string {
	if m == nil {
		return "nil"
	}
	r, k := m.Dims()
	s := fmt.Sprintf("%dx%d[", r, k)
	for i := 0; i < r && i < 8; i++ {
		if i > 0 {
			s += "; "
		}
		for j := 0; j < k && j < 8; j++ {
			if j > 0 {
				s += " "
			}
			s += fmt.Sprintf("%.6g", m.At(i, j))
		}
	}
	if r > 8 {
		s += " ..."
	}
	return s + "]"
}

func Hash(ms ...mat.Matrix) uint64 {
	h := uint64(1469598103934665603)
	for _, m := range ms {
		r, k := m.Dims()
		for i := 0; i < r; i++ {
			for j := 0; j < k; j++ {
				b := math.Float64bits(m.At(i, j))
				for s := 0; s < 64; s += 8 {
					h ^= (b >> uint(s)) & 255
					h *= 1099511628211
				}
			}
		}
	}
	return h
}

func col(m mat.Matrix, j int) []float64 { return mat.Col(nil, j, m) }
func row(m mat.Matrix, i int) []float64 { return mat.Row(nil, i, m) }

func sum(v []float64) (s float64) {
	for _, x := range v {
		s += x
	}
	return
}
func mean(v []float64) float64 { return sum(v) / float64(len(v)) }
func variance(v []float64) (s float64) { // population variance
	m := mean(v)
	for _, x := range v {
		s += (x - m) * (x - m)
	}
	return s / float64(len(v))
}

// Size draws a size: lo..lo+span-1, and now and then a much larger one, up to max.
// Rarely draws, once in a while, a size far beyond the usual ones.
func (c *C) Rarely(n, huge int) int {
	if n < huge && c.Intn(1200) == 0 {
		a, b := math.Log(float64(n)+1), math.Log(float64(huge))
		c.Count("huge sizes", 1)
		return int(math.Exp(a + (b-a)*(.3+.7*c.Float64())))
	}
	return n
}

func (c *C) Size(lo, span, max int) int {
	n := lo + c.Intn(span)
	if c.Intn(50) == 0 && max > lo+span {
		a, b := math.Log(float64(lo+span)), math.Log(float64(max))
		n = int(math.Exp(a + (b-a)*c.Float64()))
	}
	return n
}
