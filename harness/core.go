// Command vharness runs the runtime monitors for one property of pa-m/sklearn.
//
// The parent process plans the cases of the property (a fixed list derived from
// VERIF_SEED and the tier), spreads them over worker processes, watches the
// workers, and turns what they report into a verdict, an evidence file and
// replay files.  A worker executes cases one after another; every case drives the
// real code and compares what it observes with an independent oracle.
package main

import (
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"runtime/debug"
	"sort"
	"strings"
)

// Family is a named generator of cases of a property.
type Family struct {
	Name     string
	Quick    int  // number of cases in the quick tier
	Thorough int  // number of cases in the thorough tier
	Serial   bool // run in one worker only (for cases that want the machine)
	Run      func(c *C)
}

// Property groups the families that decide one property.
type Property struct {
	ID       string
	Rule     string // how cases are made, what is non-trivial
	Race     bool   // run the workers with the race detector
	Families []Family
	Assume   []string
}

var registry = map[string]*Property{}

func register(p *Property) { registry[p.ID] = p }

// Failure is one observed violation.
type Failure struct {
	Key string // stable identification: family/subject/what
	Msg string
}

// C is the context of one case.
type C struct {
	*rand.Rand
	Prop, Family string
	Index        int
	Seed         int64
	Tier         string

	fails  []Failure
	failed map[string]bool
	events int64
	sigs   map[uint64]bool
	sample string
	counts map[string]int64
	stage  string
}

// Thorough tells whether the thorough tier is running.
func (c *C) Thorough() bool { return c.Tier == "thorough" }

// Failf records a violation; one per key and case is kept.
func (c *C) Failf(key, format string, args ...interface{}) {
	if c.failed == nil {
		c.failed = map[string]bool{}
	}
	if c.failed[key] {
		return
	}
	c.failed[key] = true
	msg := fmt.Sprintf(format, args...)
	if len(msg) > 3000 {
		msg = msg[:3000] + "..."
	}
	c.fails = append(c.fails, Failure{Key: c.Family + "/" + key, Msg: msg})
}

// Obs counts n oracle evaluations.
func (c *C) Obs(n int) { c.events += int64(n) }

// Count counts a named kind of observation.
func (c *C) Count(name string, n int) {
	if c.counts == nil {
		c.counts = map[string]int64{}
	}
	c.counts[name] += int64(n)
}

// Sig registers a signature of a non-trivial execution.
func (c *C) Sig(format string, args ...interface{}) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s|", c.Family)
	fmt.Fprintf(h, format, args...)
	if c.sigs == nil {
		c.sigs = map[uint64]bool{}
	}
	c.sigs[h.Sum64()] = true
	if c.sample == "" {
		s := fmt.Sprintf(format, args...)
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		c.sample = s
	}
}

// Stage names what is being executed, for panic messages and keys.
func (c *C) Stage(format string, args ...interface{}) { c.stage = fmt.Sprintf(format, args...) }

// Try runs f and reports a panic as a violation with the given key.
func (c *C) Try(key string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			c.Failf(key+"/panic", "panic: %v\n%s", r, trimStack(debug.Stack()))
			ok = false
		}
	}()
	f()
	return true
}

// Panics runs f and returns whether it panicked.
func Panics(f func()) (p bool, v interface{}) {
	defer func() {
		if r := recover(); r != nil {
			p, v = true, r
		}
	}()
	f()
	return
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	out := []string{}
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "/harness/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Close compares with mixed absolute/relative tolerance. NaN equals NaN, equal infinities are equal.
func Close(a, b, tol float64) bool {
	if a == b {
		return true
	}
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	return math.Abs(a-b) <= tol*(1+math.Max(math.Abs(a), math.Abs(b)))
}

// Near is Close plus bookkeeping.
func (c *C) Near(key string, got, want, tol float64, format string, args ...interface{}) bool {
	c.events++
	if !Close(got, want, tol) {
		c.Failf(key, "%s: got %v want %v (tol %g)", fmt.Sprintf(format, args...), got, want, tol)
		return false
	}
	return true
}

// NearRel checks |got-want| <= tol*ref.
func (c *C) NearRel(key string, got, want, ref, tol float64, format string, args ...interface{}) bool {
	c.events++
	if d := math.Abs(got - want); !(d <= tol*math.Abs(ref)) && got != want {
		c.Failf(key, "%s: got %v want %v (tol %g of %g)", fmt.Sprintf(format, args...), got, want, tol, ref)
		return false
	}
	return true
}

// True checks a condition.
func (c *C) True(key string, cond bool, format string, args ...interface{}) bool {
	c.events++
	if !cond {
		c.Failf(key, format, args...)
	}
	return cond
}

func caseSeed(seed int64, prop, family string, index int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%d", seed, prop, family, index)
	return int64(h.Sum64() & math.MaxInt64)
}

func runCase(p *Property, f *Family, index int, seed int64, tier string) *C {
	c := &C{Rand: rand.New(rand.NewSource(caseSeed(seed, p.ID, f.Name, index))),
		Prop: p.ID, Family: f.Name, Index: index, Seed: seed, Tier: tier}
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.Failf("panic/"+c.stage, "panic during %s: %v\n%s", c.stage, r, trimStack(debug.Stack()))
			}
		}()
		f.Run(c)
	}()
	return c
}

func sortedKeys(m map[string]int64) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
