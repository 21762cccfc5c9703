id='b13-spline-slope'
prop='C25'
pkg='interpolate'
needs='unevenly spaced knots'
breaks='the spline is not smooth at knots with different spacing on both sides'
race=False
edits=[('interpolate/cubic.go', '+(ys[i+1]-ys[i])/((xs[i+1]-xs[i])*(xs[i+1]-xs[i]))))', '+(ys[i+1]-ys[i])/((xs[i+1]-xs[i])*(xs[i]-xs[i-1]))))')]
test=r'''package interpolate
import ("testing";"math")
func TestDemo(t *testing.T) {
	f := CubicSpline([]float64{0,1,3,4}, []float64{0,1,0,2})
	d := 1e-4
	for _, x := range []float64{1, 3} {
		l, r := (f(x)-2*f(x-d)+f(x-2*d))/d/d, (f(x)-2*f(x+d)+f(x+2*d))/d/d
		if math.Abs(l-r) > 1e-2 { t.Fatalf("second derivative at %v: %v %v", x, l, r) }
	}
}
'''
