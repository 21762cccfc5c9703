//go:build vdatasets
// +build vdatasets

package main

// The package datasets resolves its directory with the go command when it is
// initialised, so that this property has a binary of its own (see check.sh).

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/datasets"
	xrand "golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
)

// ---- octave files ----

type namedMat struct {
	name string
	m    *mat.Dense
}

func octaveBytes(ms []namedMat) ([]byte, []int) {
	var b bytes.Buffer
	var ends []int
	u32 := func(v uint32) { binary.Write(&b, binary.LittleEndian, v) }
	b.WriteString("Octave-1-L")
	b.WriteByte(0)
	for _, nm := range ms {
		u32(uint32(len(nm.name)))
		b.WriteString(nm.name)
		u32(0)
		b.WriteByte(0)
		b.WriteByte(0xff)
		u32(6)
		b.WriteString("matrix")
		u32(0xfffffffe)
		r, c := nm.m.Dims()
		u32(uint32(r))
		u32(uint32(c))
		b.WriteByte(7)
		for j := 0; j < c; j++ {
			for i := 0; i < r; i++ {
				binary.Write(&b, binary.LittleEndian, math.Float64bits(nm.m.At(i, j)))
			}
		}
		ends = append(ends, b.Len())
	}
	return b.Bytes(), ends
}

func writeOctave(path string, ms []namedMat, level int) []byte {
	data, _ := octaveBytes(ms)
	writeMaybeGz(path, data, level)
	return data
}

func writeMaybeGz(path string, data []byte, level int) {
	if strings.HasSuffix(path, ".gz") {
		var z bytes.Buffer
		w, err := gzip.NewWriterLevel(&z, level)
		must(err)
		_, err = w.Write(data)
		must(err)
		must(w.Close())
		data = z.Bytes()
	}
	must(ioutil.WriteFile(path, data, 0600))
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprint("harness: ", err))
	}
}

func (c *C) scratch() string {
	d, err := ioutil.TempDir("", "vds")
	must(err)
	return d
}

func octaveCase(c *C) {
	dir := c.scratch()
	defer os.RemoveAll(dir)
	n := 1 + c.Intn(3)
	var ms []namedMat
	big := c.Intn(6) == 0
	if !big && c.Intn(5) == 0 {
		n = 5 + c.Intn(30)
	}
	for i := 0; i < n; i++ {
		r, k := 1+c.Intn(30), 1+c.Intn(30)
		if big {
			r, k = 1+c.Intn(3000), 1+c.Intn(60)
		}
		m := mat.NewDense(r, k, nil)
		for a := 0; a < r; a++ {
			for b := 0; b < k; b++ {
				v := c.NormFloat64()
				switch c.Intn(12) {
				case 0:
					v = math.Float64frombits(c.Uint64() &^ (0x7ff << 52)) // subnormals, zeros
				case 1:
					v = float64(c.Intn(10))
				case 2:
					v *= 1e300
				}
				m.Set(a, b, v)
			}
		}
		ms = append(ms, namedMat{strings.Repeat("v", 1+c.Intn(20)) + strconv.Itoa(i), m})
	}
	name := filepath.Join(dir, []string{"a.dat", "a.dat.gz", "a.b.mat"}[c.Intn(3)])
	level := []int{gzip.NoCompression, gzip.BestSpeed, gzip.BestCompression}[c.Intn(3)]
	data := writeOctave(name, ms, level)
	c.Sig("n=%d gz=%v big=%v", n, strings.HasSuffix(name, ".gz"), big)
	got := datasets.LoadOctaveBin(name)
	c.True("count", len(got) == n, "%d matrices loaded, %d written", len(got), n)
	for _, nm := range ms {
		g := got[nm.name]
		if !c.True("name", g != nil, "matrix %q is missing", nm.name) {
			continue
		}
		c.NearMat("values", g, nm.m, 0, "matrix %q", nm.name)
	}
	// whatever comes back from a damaged file is never a wrong matrix
	cut := c.Intn(len(data))
	writeMaybeGz(name, data[:cut], level)
	var part map[string]*mat.Dense
	p, _ := Panics(func() { part = datasets.LoadOctaveBin(name) })
	if p {
		c.Count("truncated.rejected", 1)
	}
	for k, m := range part {
		ok := false
		for _, nm := range ms {
			if nm.name == k && SameValues(nm.m, m) {
				ok = true
			}
		}
		c.True("truncated", ok, "matrix %q of a file cut at %d of %d bytes has other values", k, cut, len(data))
	}
}

// ---- loaders, run in a process whose module directory is a scratch one ----

type loaded struct {
	Err   string
	Names []string
	Feat  []string
	Descr string
	Data  [][]float64
	Targ  []float64
	M     map[string]*rawMat
}
type rawMat struct {
	R, C int
	D    []float64
}

func raw(m *mat.Dense) *rawMat {
	if m == nil {
		return nil
	}
	r, c := m.Dims()
	x := &rawMat{R: r, C: c}
	for i := 0; i < r; i++ {
		x.D = append(x.D, row(m, i)...)
	}
	return x
}
func (x *rawMat) mat() *mat.Dense { return mat.NewDense(x.R, x.C, x.D) }

var mlLoaders = map[string]func() *datasets.MLDataset{
	"iris": datasets.LoadIris, "cancer": datasets.LoadBreastCancer, "diabetes": datasets.LoadDiabetes,
	"boston": datasets.LoadBoston, "wine": datasets.LoadWine,
}
var csvLoaders = map[string]func() (X, Y *mat.Dense){"ex2data1": datasets.LoadExamScore, "ex2data2": datasets.LoadMicroChipTest}

func loadAll(mnist bool) map[string]*loaded {
	out := map[string]*loaded{}
	try := func(name string, f func(l *loaded)) {
		l := &loaded{M: map[string]*rawMat{}}
		func() {
			defer func() {
				if e := recover(); e != nil {
					l.Err = fmt.Sprint(e)
				}
			}()
			f(l)
		}()
		out[name] = l
	}
	for name, f := range mlLoaders {
		f := f
		try(name, func(l *loaded) {
			d := f()
			l.Names, l.Feat, l.Descr, l.Data, l.Targ = d.TargetNames, d.FeatureNames, d.DESCR, d.Data, d.Target
			l.M["X"], l.M["Y"] = raw(d.X), raw(d.Y)
			x, y := d.GetXY()
			l.M["X2"], l.M["Y2"] = raw(x), raw(y)
		})
	}
	for name, f := range csvLoaders {
		f := f
		try(name, func(l *loaded) {
			X, Y := f()
			l.M["X"], l.M["Y"] = raw(X), raw(Y)
		})
	}
	try("weights", func(l *loaded) {
		a, b := datasets.LoadMnistWeights()
		l.M["Theta1"], l.M["Theta2"] = raw(a), raw(b)
	})
	if mnist {
		try("mnist", func(l *loaded) {
			a, b := datasets.LoadMnist()
			l.M["X"], l.M["y"] = raw(a), raw(b)
		})
	}
	try("airline", func(l *loaded) { l.M["Y"] = raw(datasets.LoadInternationalAirlinesPassengers()) })
	return out
}

func init() {
	if os.Getenv("VERIF_LOADALL") != "" {
		must(gob.NewEncoder(os.Stdout).Encode(loadAll(true)))
		os.Exit(0)
	}
}

// jsonSet parses a data set file independently of struct tags
type jsonSet struct {
	data        [][]float64
	target      []float64
	names, feat []string
	descr       string
}

func parseSet(b []byte) jsonSet {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var m map[string]interface{}
	must(dec.Decode(&m))
	num := func(v interface{}) float64 {
		f, err := strconv.ParseFloat(string(v.(json.Number)), 64)
		must(err)
		return f
	}
	strs := func(v interface{}) (r []string) {
		if v == nil {
			return nil
		}
		for _, x := range v.([]interface{}) {
			r = append(r, x.(string))
		}
		return
	}
	var s jsonSet
	for _, r := range m["data"].([]interface{}) {
		var f []float64
		for _, x := range r.([]interface{}) {
			f = append(f, num(x))
		}
		s.data = append(s.data, f)
	}
	for _, x := range m["target"].([]interface{}) {
		s.target = append(s.target, num(x))
	}
	s.names, s.feat = strs(m["target_names"]), strs(m["feature_names"])
	s.descr, _ = m["DESCR"].(string)
	return s
}

func (c *C) checkSet(name string, l *loaded, s jsonSet) {
	c.True("set.err", l.Err == "", "%s: %s", name, l.Err)
	if l.Err != "" {
		return
	}
	c.True("set.names", fmt.Sprint(l.Names) == fmt.Sprint(s.names) && fmt.Sprint(l.Feat) == fmt.Sprint(s.feat) && l.Descr == s.descr, "%s: names or description differ from the file", name)
	X := mat.NewDense(len(s.data), len(s.feat), nil)
	Y := mat.NewDense(len(s.data), 1, nil)
	for i := range s.data {
		X.SetRow(i, s.data[i])
		Y.Set(i, 0, s.target[i])
	}
	c.True("set.data", fmt.Sprint(l.Data) == fmt.Sprint(s.data) && fmt.Sprint(l.Targ) == fmt.Sprint(s.target), "%s: Data or Target differ from the file", name)
	for _, k := range []string{"X", "X2"} {
		c.NearMat("set.X", l.M[k].mat(), X, 0, "%s %s", name, k)
	}
	for _, k := range []string{"Y", "Y2"} {
		c.NearMat("set.Y", l.M[k].mat(), Y, 0, "%s %s", name, k)
	}
}

func parseCsv(b []byte, skip int) [][]string {
	var out [][]string
	for i, l := range strings.Split(strings.Replace(string(b), "\r\n", "\n", -1), "\n") {
		if i < skip || l == "" {
			continue
		}
		out = append(out, strings.Split(l, ","))
	}
	return out
}

func pf(s string) float64 {
	v, err := strconv.ParseFloat(strings.Trim(s, "\" "), 64)
	must(err)
	return v
}

func (c *C) checkFiles(dir string, out map[string]*loaded) {
	rd := func(n string) []byte { b, err := ioutil.ReadFile(filepath.Join(dir, n)); must(err); return b }
	for name := range mlLoaders {
		c.checkSet(name, out[name], parseSet(rd(name+".json")))
		c.Sig("%s", name)
	}
	for name := range csvLoaders {
		cells := parseCsv(rd(name+".txt"), 0)
		l := out[name]
		if !c.True("csv.err", l.Err == "", "%s: %s", name, l.Err) {
			continue
		}
		k := len(cells[0]) - 1
		X, Y := mat.NewDense(len(cells), k, nil), mat.NewDense(len(cells), 1, nil)
		for i := range cells {
			for j := 0; j < k; j++ {
				X.Set(i, j, pf(cells[i][j]))
			}
			Y.Set(i, 0, pf(cells[i][k]))
		}
		c.NearMat("csv.X", l.M["X"].mat(), X, 0, "%s X", name)
		c.NearMat("csv.Y", l.M["Y"].mat(), Y, 0, "%s Y", name)
	}
	cells := parseCsv(rd("international-airline-passengers.csv"), 1)
	l := out["airline"]
	if c.True("airline.err", l.Err == "", "%s", l.Err) {
		Y := mat.NewDense(len(cells), 1, nil)
		for i := range cells {
			Y.Set(i, 0, pf(cells[i][1]))
		}
		c.NearMat("airline", l.M["Y"].mat(), Y, 0, "airline passengers")
	}
}

// parseOctave reads a file written by octave -binary
func parseOctave(b []byte) map[string]*mat.Dense {
	out := map[string]*mat.Dense{}
	le := binary.LittleEndian
	p := 11
	for p < len(b) {
		n := int(le.Uint32(b[p:]))
		name := string(b[p+4 : p+4+n])
		p += 4 + n
		p += 4 + int(le.Uint32(b[p:])) + 1 // doc and global flag
		p++                                // 0xff
		n = int(le.Uint32(b[p:]))
		p += 4 + n + 4
		r, k := int(le.Uint32(b[p:])), int(le.Uint32(b[p+4:]))
		p += 9
		m := mat.NewDense(r, k, nil)
		for j := 0; j < k; j++ {
			for i := 0; i < r; i++ {
				m.Set(i, j, math.Float64frombits(le.Uint64(b[p:])))
				p += 8
			}
		}
		out[name] = m
	}
	return out
}

func gunzip(b []byte) []byte {
	r, err := gzip.NewReader(bytes.NewReader(b))
	must(err)
	d, err := ioutil.ReadAll(r)
	must(err)
	return d
}

const repoData = "/repo/datasets/data"

func bundledCase(c *C) {
	out := loadAll(false)
	c.checkFiles(repoData, out)
	z, err := ioutil.ReadFile(repoData + "/ex4weights.dat.gz")
	must(err)
	ref := parseOctave(gunzip(z))
	l := out["weights"]
	if c.True("weights.err", l.Err == "", "%s", l.Err) {
		for k, m := range ref {
			c.NearMat("weights", l.M[k].mat(), m, 0, "%s", k)
		}
	}
	// loading twice gives independent copies
	a, b := datasets.LoadIris(), datasets.LoadIris()
	w := b.X.At(0, 0)
	a.X.Set(0, 0, 1e9)
	a.Data[0][0] = 1e9
	c.True("independent", b.X.At(0, 0) == w && b.Data[0][0] == w && datasets.LoadIris().X.At(0, 0) == w, "two loads share their data")
}

// filesCase writes data files of its own in a scratch module which takes the
// place of the repository for the loaders
func filesCase(c *C) {
	root := c.scratch()
	defer os.RemoveAll(root)
	data := filepath.Join(root, "sk", "datasets", "data")
	must(os.MkdirAll(data, 0700))
	must(ioutil.WriteFile(filepath.Join(root, "go.mod"), []byte("module x\n\ngo 1.13\n\nrequire github.com/pa-m/sklearn v0.0.0\n\nreplace github.com/pa-m/sklearn => ./sk\n"), 0600))
	must(ioutil.WriteFile(filepath.Join(root, "sk", "go.mod"), []byte("module github.com/pa-m/sklearn\n\ngo 1.13\n"), 0600))
	must(ioutil.WriteFile(filepath.Join(root, "sk", "a.go"), []byte("package sklearn\n"), 0600))
	must(ioutil.WriteFile(filepath.Join(root, "x.go"), []byte("package x\n\nimport _ \"github.com/pa-m/sklearn\"\n"), 0600))
	val := func() float64 {
		switch c.Intn(5) {
		case 0:
			return float64(c.Intn(20) - 10)
		case 1:
			return c.NormFloat64() * math.Pow(10, float64(c.Intn(40)-20))
		case 2:
			return math.Float64frombits(uint64(c.Intn(1 << 30)))
		}
		return c.NormFloat64()
	}
	for name := range mlLoaders {
		n, k := 1+c.Intn(60), 1+c.Intn(12)
		m := map[string]interface{}{"DESCR": "descr " + strconv.Itoa(c.Int()) + " é\n\"", "extra": 1}
		var d [][]float64
		var t []float64
		var fn []string
		for i := 0; i < n; i++ {
			r := make([]float64, k)
			for j := range r {
				r[j] = val()
			}
			d = append(d, r)
			t = append(t, val())
		}
		for j := 0; j < k; j++ {
			fn = append(fn, fmt.Sprintf("feat %d", c.Intn(100)))
		}
		m["data"], m["target"], m["feature_names"] = d, t, fn
		if c.Intn(3) > 0 {
			m["target_names"] = []string{"a", "b c"}
		}
		b, err := json.Marshal(m)
		must(err)
		must(ioutil.WriteFile(filepath.Join(data, name+".json"), b, 0600))
	}
	for name := range csvLoaders {
		n, k := 1+c.Intn(100), 2+c.Intn(6)
		var b bytes.Buffer
		for i := 0; i < n; i++ {
			for j := 0; j < k; j++ {
				if j > 0 {
					b.WriteByte(',')
				}
				b.WriteString(strconv.FormatFloat(val(), "efg"[c.Intn(3)], -1, 64))
			}
			b.WriteByte('\n')
		}
		must(ioutil.WriteFile(filepath.Join(data, name+".txt"), b.Bytes(), 0600))
	}
	var b bytes.Buffer
	b.WriteString("\"Month\",\"passengers\"\n")
	for i, n := 0, 1+c.Intn(200); i < n; i++ {
		fmt.Fprintf(&b, "\"1949-%02d\",%s\n", i%12+1, strconv.FormatFloat(math.Abs(val()), 'g', -1, 64))
	}
	must(ioutil.WriteFile(filepath.Join(data, "international-airline-passengers.csv"), b.Bytes(), 0600))
	rm := func(r, k int) *mat.Dense {
		m := mat.NewDense(r, k, nil)
		for i := 0; i < r; i++ {
			for j := 0; j < k; j++ {
				m.Set(i, j, val())
			}
		}
		return m
	}
	wt := []namedMat{{"Theta1", rm(1+c.Intn(30), 1+c.Intn(400))}, {"Theta2", rm(1+c.Intn(30), 1+c.Intn(30))}}
	writeOctave(filepath.Join(data, "ex4weights.dat.gz"), wt, gzip.DefaultCompression)
	n := 1 + c.Intn(500)
	mn := []namedMat{{"X", rm(n, 1+c.Intn(200))}, {"y", rm(n, 1)}}
	writeOctave(filepath.Join(data, "ex4data1.dat.gz"), mn, gzip.BestSpeed)

	exe, err := os.Executable()
	must(err)
	cmd := exec.Command(exe)
	cmd.Dir = root
	cmd.Env = append(os.Environ(), "VERIF_LOADALL=1", "PWD="+root)
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	if err := cmd.Run(); err != nil {
		c.Failf("loader", "the loaders ended with %v: %s", err, stderr.String())
		return
	}
	out := map[string]*loaded{}
	must(gob.NewDecoder(&stdout).Decode(&out))
	c.checkFiles(data, out)
	for _, x := range []struct {
		l  string
		ms []namedMat
	}{{"weights", wt}, {"mnist", mn}} {
		l := out[x.l]
		if c.True("octave.err", l != nil && l.Err == "", "%s: %v", x.l, l) {
			for _, nm := range x.ms {
				c.NearMat("octave", l.M[nm.name].mat(), nm.m, 0, "%s of %s", nm.name, x.l)
			}
		}
	}
}

// ---- generators ----

func regressionCase(c *C) {
	kw := map[string]interface{}{}
	n, p, inf, nt := 100, 100, 10, 1
	if c.Intn(4) > 0 {
		n = 1 + c.Intn(300)
		kw["n_samples"] = n
	}
	if c.Intn(4) > 0 {
		p = 1 + c.Intn(30)
		kw["n_features"] = p
	}
	if c.Intn(4) > 0 {
		inf = 1 + c.Intn(35)
		kw["n_informative"] = inf
	}
	if c.Intn(2) > 0 {
		nt = 1 + c.Intn([]int{4, 20}[c.Intn(2)])
		kw["n_targets"] = nt
	}
	if inf > p {
		inf = p
	}
	bias := make([]float64, nt)
	mode := c.Intn(4)
	switch mode {
	case 1:
		v := c.NormFloat64() * 100
		kw["bias"] = v
		for i := range bias {
			bias[i] = v
		}
	case 2:
		for i := range bias {
			bias[i] = c.NormFloat64() * 100
		}
		kw["bias"] = append([]float64(nil), bias...)
	case 3:
		for i := range bias {
			bias[i] = c.NormFloat64() * 100
		}
		m, _ := Layout(mat.NewDense(1, nt, append([]float64(nil), bias...)), c.Intn(nLayouts))
		kw["bias"] = m
	}
	seed := c.Uint64()
	seeded := c.Intn(4) > 0
	if seeded {
		kw["random_state"] = xrand.New(xrand.NewSource(seed))
	}
	c.Sig("n=%d p=%d inf=%d nt=%d bias=%d seeded=%v", n/50, p/10, inf/10, nt, mode, seeded)
	X, Y, Coef := datasets.MakeRegression(kw)
	r, k := X.Dims()
	yr, yc := Y.Dims()
	cr, cc := Coef.Dims()
	if !c.True("dims", r == n && k == p && yr == n && yc == nt && cr == inf && cc == nt, "X %dx%d Y %dx%d Coef %dx%d for n %d p %d informative %d targets %d", r, k, yr, yc, cr, cc, n, p, inf, nt) {
		return
	}
	for i := 0; i < n; i++ {
		for t := 0; t < nt; t++ {
			w, mag := bias[t], math.Abs(bias[t])
			for j := 0; j < inf; j++ {
				w += X.At(i, j) * Coef.At(j, t)
				mag += math.Abs(X.At(i, j) * Coef.At(j, t))
			}
			c.Near("target", Y.At(i, t), w, 1e-11*(1+mag), "target[%d,%d]", i, t)
		}
	}
	c.standardNormal("X", X.RawMatrix().Data)
	c.standardNormal("Coef", Coef.RawMatrix().Data)
	if seeded {
		kw["random_state"] = xrand.New(xrand.NewSource(seed))
		X2, Y2, C2 := datasets.MakeRegression(kw)
		c.True("same seed", SameValues(X, X2) && SameValues(Y, Y2) && SameValues(Coef, C2), "the same seed gives other data")
		kw["random_state"] = xrand.New(xrand.NewSource(seed + 1))
		X3, _, _ := datasets.MakeRegression(kw)
		c.True("other seed", !SameValues(X, X3), "another seed gives the same data")
	}
}

// standardNormal checks moments with bounds that a sound generator exceeds with probability < 1e-9
func (c *C) standardNormal(what string, v []float64) {
	n := float64(len(v))
	if n < 30 {
		return
	}
	m, s2 := 0., 0.
	for _, x := range v {
		m += x
		s2 += x * x
	}
	m /= n
	s2 /= n
	if n > 1000 {
		// fewer than 1e-9 of the samples of this size stay within these bounds
		hi, lo := 0., 0.
		for _, x := range v {
			if x > 1.9 {
				hi++
			}
			if x < -1.9 {
				lo++
			}
		}
		c.True("normal.tails", hi > 0 && lo > 0, "%s: no draw beyond 1.9 on both sides among %d standard normal draws", what, len(v))
		c.True("normal.far", n < 20000 || outlying(v) > 0, "%s: no draw beyond 3 among %d standard normal draws", what, len(v))
	}
	c.True("normal.mean", math.Abs(m) < 7/math.Sqrt(n), "%s: mean %v of %d standard normal draws", what, m, len(v))
	c.True("normal.var", s2 > 1-10*math.Sqrt(2/n) && s2 < 1+10*math.Sqrt(2/n)+60/n, "%s: variance %v of %d standard normal draws", what, s2, len(v))
}

func outlying(v []float64) (n int) {
	for _, x := range v {
		if math.Abs(x) > 3 {
			n++
		}
	}
	return
}

func blobsCase(c *C) {
	if c.Intn(50) == 0 { // no configuration: 100 samples of 2 features about 3 centres
		X, Y := datasets.MakeBlobs(nil)
		c.True("nil", dimsAre(X, 100, 2) && dimsAre(Y, 100, 1) && fmt.Sprint(setOf(col(Y, 0))) == "[0 1 2]", "MakeBlobs(nil): %s %s", MatString(X), MatString(Y))
		c.Sig("nil %x", Hash(X, Y))
		return
	}
	n, p, k := 100, 2, 3
	cfg := func() *datasets.MakeBlobsConfig { return &datasets.MakeBlobsConfig{} }()
	if c.Intn(4) > 0 {
		n = 1 + c.Intn([]int{800, 3000}[c.Intn(2)])
		cfg.NSamples = n
	}
	if c.Intn(4) > 0 {
		p = 1 + c.Intn(6)
		cfg.NFeatures = p
	}
	std := 1.
	if c.Intn(3) > 0 {
		std = math.Pow(10, 2*c.Float64()-1.5)
		if c.Intn(4) == 0 {
			std = math.Pow(10, 12*c.Float64()-8)
		}
		cfg.ClusterStd = std
	}
	box := []float64{-10, 10}
	var centers *mat.Dense
	mode := c.Intn(3)
	switch mode {
	case 1:
		k = 1 + c.Intn(6)
		if c.Intn(3) == 0 {
			k = 10 + c.Intn(50)
		}
		cfg.Centers = k
	case 2:
		k = 1 + c.Intn(6)
		p = 1 + c.Intn(6)
		if c.Intn(2) == 0 {
			cfg.NFeatures = p
		}
		centers = mat.NewDense(k, p, nil)
		for i := 0; i < k; i++ {
			for j := 0; j < p; j++ {
				centers.Set(i, j, 50*c.NormFloat64())
			}
		}
		cfg.Centers = c.layout(centers)
	}
	if mode < 2 && c.Intn(2) == 0 {
		a := c.NormFloat64() * 20
		box = []float64{a, a + 1 + 30*c.Float64()}
		cfg.CenterBox = append([]float64(nil), box...)
	}
	cfg.Shuffle = c.Intn(2) == 0
	seed := c.Uint64() >> 1
	rs := c.Intn(4)
	setState := func() {
		switch rs {
		case 0:
			cfg.RandomState = nil
		case 1:
			cfg.RandomState = base.NewSource(seed)
		case 2:
			cfg.RandomState = base.NewLockedSource(seed)
		case 3:
			cfg.RandomState = xrand.NewSource(seed)
		}
	}
	setState()
	c.Sig("n=%d p=%d k=%d mode=%d shuffle=%v rs=%d box=%v", n/100, p, k, mode, cfg.Shuffle, rs, cfg.CenterBox != nil)
	X, Y := datasets.MakeBlobs(cfg)
	xr, xc := X.Dims()
	yr, yc := Y.Dims()
	if !c.True("dims", xr == n && xc == p && yr == n && yc == 1, "X %dx%d Y %dx%d for %d samples of %d features", xr, xc, yr, yc, n, p) {
		return
	}
	groups := make([][]int, k)
	for i := 0; i < n; i++ {
		l := Y.At(i, 0)
		if !c.True("label", l == math.Floor(l) && l >= 0 && l < float64(k), "label %v with %d centers", l, k) {
			return
		}
		groups[int(l)] = append(groups[int(l)], i)
	}
	var resid, means []float64
	for g, idx := range groups {
		// each label has the probability 1/k
		q := 1 / float64(k)
		dev := math.Abs(float64(len(idx)) - float64(n)*q)
		c.True("share", dev <= 8*math.Sqrt(float64(n)*q*(1-q))+10, "%d of %d samples have label %d of %d", len(idx), n, g, k)
		for j := 0; j < p; j++ {
			m := 0.
			for _, i := range idx {
				m += X.At(i, j)
			}
			m /= float64(len(idx))
			if centers != nil {
				m = centers.At(g, j)
			} else if len(idx) > 0 {
				e := 7 * std / math.Sqrt(float64(len(idx)))
				if e < (box[1]-box[0])/50 {
					means = append(means, m)
				}
				c.True("box", m > box[0]-e && m < box[1]+e, "label %d: mean %v of feature %d outside of the box %v", g, m, j, box)
			}
			for _, i := range idx {
				d := (X.At(i, j) - m) / std
				c.True("spread", math.Abs(d) < 8, "sample %d of label %d is %v standard deviations from its center", i, g, d)
				if centers != nil || len(idx) > 30 {
					resid = append(resid, d)
				}
			}
		}
	}
	if len(means) >= 30 {
		lo, hi := minmax(means)
		c.True("box spread", hi-lo > (box[1]-box[0])/4, "%d coordinates of random centers within [%v, %v] of the box %v", len(means), lo, hi, box)
	}
	if len(resid) > 4000 {
		far := 0
		for _, d := range resid {
			if math.Abs(d) > 2.7 {
				far++
			}
		}
		c.True("tails", far > 0, "none of %d residuals is beyond 2.7 standard deviations", len(resid))
	}
	if len(resid) > 100 {
		v := 0.
		for _, d := range resid {
			v += d * d
		}
		v /= float64(len(resid))
		c.True("std", v > .95-10*math.Sqrt(2/float64(len(resid))) && v < 1+10*math.Sqrt(2/float64(len(resid)))+60/float64(len(resid)), "variance of the residuals is %v times the one asked for (%d of them)", v, len(resid))
	}
	if rs > 0 {
		setState()
		X2, Y2 := datasets.MakeBlobs(cfg)
		c.True("same seed", SameValues(X, X2) && SameValues(Y, Y2), "the same seed gives other blobs (state %d shuffle %v)", rs, cfg.Shuffle)
	}
}

func init() {
	register(&Property{ID: "C28",
		Rule: "loaded matrices equal an independent parse of the files, bundled and written by the check; generated targets equal the affine function of the returned coefficients; blobs have shapes, labels and spread asked for; the same seed gives the same data",
		Families: []Family{
			{Name: "bundled", Quick: 1, Thorough: 1, Run: bundledCase},
			{Name: "files", Quick: 24, Thorough: 400, Run: filesCase},
			{Name: "octave", Quick: 150, Thorough: 4000, Run: octaveCase},
			{Name: "regression", Quick: 300, Thorough: 10000, Run: regressionCase},
			{Name: "blobs", Quick: 300, Thorough: 10000, Run: blobsCase},
		}})
}

func init() {
	allFunctions = append(allFunctions, function{"MakeBlobs", func(c *C) *fnCall {
		k, p := 1+c.Intn(4), 1+c.Intn(4)
		n := 1 + c.Intn(40)
		if c.Intn(5) == 0 {
			n = 200 + c.Intn(2000)
		}
		fc := &fnCall{any: []bool{true}, ms: []*mat.Dense{nil}}
		if c.Intn(2) == 0 {
			fc.ms[0] = c.RandMat(k, p, KGauss)
		}
		sk, seed, sh, std := c.Intn(2), uint64(c.Intn(1000)), c.Intn(2) == 0, []float64{0, .5, 3}[c.Intn(3)]
		fc.call = func(ms []mat.Matrix, sl [][]float64) []*mat.Dense {
			cfg := &datasets.MakeBlobsConfig{NSamples: n, NFeatures: p, Centers: k, ClusterStd: std, Shuffle: sh, RandomState: newSrc(sk, seed)}
			if ms[0] != nil {
				cfg.Centers = ms[0]
			}
			X, Y := datasets.MakeBlobs(cfg)
			return []*mat.Dense{X, Y}
		}
		return fc
	}}, function{"MakeRegression", func(c *C) *fnCall {
		n, p, inf, o := 1+c.Intn(60), 1+c.Intn(6), 1+c.Intn(6), 1+c.Intn(3)
		if c.Intn(5) == 0 {
			n = 200 + c.Intn(2000)
		}
		fc := &fnCall{any: []bool{true}, ms: []*mat.Dense{c.RandMat(1, o, KGauss)}, sl: [][]float64{nil}, tol: 1e-12}
		if c.Intn(2) == 0 {
			fc.sl[0] = c.posWeights(o)
		}
		sk, seed := c.Intn(2), uint64(c.Intn(1000))
		fc.call = func(ms []mat.Matrix, sl [][]float64) []*mat.Dense {
			kw := map[string]interface{}{"n_samples": n, "n_features": p, "n_informative": inf, "n_targets": o, "bias": ms[0], "random_state": xrand.New(newSrc(sk, seed))}
			if sl[0] != nil {
				kw["bias"] = sl[0]
			}
			X, Y, W := datasets.MakeRegression(kw)
			return []*mat.Dense{X, Y, W}
		}
		return fc
	}})
}
