package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// job is a planned case.
type job struct {
	Family string
	Index  int
}

// report is what a worker says about one case.
type report struct {
	Family string
	Index  int
	Start  bool `json:",omitempty"`
	Fails  []Failure
	Events int64
	Sigs   []string
	Sample string
	Counts map[string]int64
}

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "open" or "fixed"
	Key      string `json:"key"`    // exact key, family/subject/what
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

// how many times the numbers of cases of the families are run, for quick and thorough runs
// of about twenty seconds and several minutes on 8 cores
var scale = map[string][2]int{
	"C01": {8, 5}, "C02": {3, 5}, "C03": {20, 10}, "C04": {8, 5}, "C05": {10, 6}, "C06": {16, 8}, "C08": {120, 25}, "C10": {300, 80}, "C11": {200, 50}, "C14": {100, 25},
	"C15": {200, 50}, "C16": {150, 50}, "C17": {250, 60}, "C21": {200, 40}, "C22": {300, 50}, "C25": {250, 60}, "C26": {100, 30}, "C29": {100, 30}, "C18": {60, 20}, "C19": {120, 10}, "C20": {3, 1}, "C28": {40, 8},
	"C07": {50, 25}, "C12": {300, 80}, "C13": {100, 30}, "C24": {100, 30}, "C27": {100, 30},
}

func plan(p *Property, tier string, scaleBy int) (serial, par []job) {
	for i := range p.Families {
		f := &p.Families[i]
		n := f.Quick
		if tier == "thorough" {
			n = f.Thorough
			if n == 0 {
				n = f.Quick * 10
			}
		}
		if n > 4 { // not the exhaustive ones
			sc, ok := scale[p.ID]
			if !ok {
				sc = [2]int{25, 25}
			}
			if scaleBy > 0 {
				sc = [2]int{scaleBy, scaleBy}
			}
			if tier == "thorough" {
				n *= sc[1]
			} else {
				n *= sc[0]
			}
		}
		for k := 0; k < n; k++ {
			if f.Serial {
				serial = append(serial, job{f.Name, k})
			} else {
				par = append(par, job{f.Name, k})
			}
		}
	}
	return
}

func family(p *Property, name string) *Family {
	for i := range p.Families {
		if p.Families[i].Name == name {
			return &p.Families[i]
		}
	}
	return nil
}

func main() {
	log.SetOutput(ioutil.Discard)
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	worker := flag.Bool("worker", false, "worker mode: jobs on stdin")
	replay := flag.String("replay", "", "replay file")
	root := flag.String("root", "/verif", "verif root")
	only := flag.String("family", "", "only this family (development)")
	index := flag.Int("index", -1, "only this index (development)")
	scaleBy := flag.Int("scale", 0, "multiplier of the numbers of cases (development)")
	failFast := flag.Bool("failfast", false, "stop at the first violation (development)")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()
	if *list {
		ids := []string{}
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			race := ""
			if registry[id].Race {
				race = " race"
			}
			fmt.Println(id + race)
		}
		return
	}
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	p := registry[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *worker {
		runWorker(p, *tier, *seed)
		return
	}
	os.Exit(supervise(p, *tier, *seed, *root, *only, *index, *scaleBy, *failFast))
}

func runWorker(p *Property, tier string, seed int64) {
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<20)
	jobs := []job{}
	for in.Scan() {
		fs := strings.SplitN(in.Text(), " ", 2)
		k, _ := strconv.Atoi(fs[1])
		jobs = append(jobs, job{fs[0], k})
	}
	// the library prints to stdout and stderr here and there: reports go to fd 3
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	out := os.NewFile(3, "reports")
	enc := json.NewEncoder(out)
	for _, j := range jobs {
		enc.Encode(report{Family: j.Family, Index: j.Index, Start: true})
		c := runCase(p, family(p, j.Family), j.Index, seed, tier)
		r := report{Family: j.Family, Index: j.Index, Fails: c.fails, Events: c.events, Sample: c.sample, Counts: c.counts}
		for s := range c.sigs {
			r.Sigs = append(r.Sigs, strconv.FormatUint(s, 36))
		}
		enc.Encode(r)
	}
}

type result struct {
	job
	Failure
}

type supervisor struct {
	p      *Property
	tier   string
	seed   int64
	mu     sync.Mutex
	fails  []result
	cases  int
	events int64
	sigs   map[string]bool
	byFam  map[string]int64
	counts map[string]int64
	sample map[string][]string
	aborts []string

	open      map[string]finding
	firstFail time.Time
	failFast  bool
}

// cpuSeconds returns the CPU time used by a process so far.
func cpuSeconds(pid int) float64 {
	b, err := ioutil.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return -1
	}
	s := string(b)
	i := strings.LastIndex(s, ")")
	if i < 0 {
		return -1
	}
	fs := strings.Fields(s[i+1:])
	if len(fs) < 13 {
		return -1
	}
	u, _ := strconv.ParseFloat(fs[11], 64)
	k, _ := strconv.ParseFloat(fs[12], 64)
	return (u + k) / 100
}

const caseCPULimit = 240.0 // CPU seconds for one case; the largest take some tens

const blockedLimit = 60.0 // seconds in which every thread of the worker sleeps and no CPU time is used

// sleeping tells if every thread of a process is asleep.
func sleeping(pid int) bool {
	tasks, err := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/stat", pid))
	if err != nil || len(tasks) == 0 {
		return false
	}
	for _, t := range tasks {
		b, err := ioutil.ReadFile(t)
		if err != nil {
			return false
		}
		s := string(b)
		i := strings.LastIndex(s, ")")
		if i < 0 || i+2 >= len(s) || s[i+2] != 'S' {
			return false
		}
	}
	return true
}

// once a case has failed, the rest of the cases is run for this long at most
const afterFailure = 60 * time.Second

// runBatch runs jobs in one worker process, restarting it after a crash.
func (s *supervisor) runBatch(jobs []job) {
	for len(jobs) > 0 {
		if s.enough() {
			return
		}
		done := s.runOnce(jobs)
		jobs = jobs[done:]
	}
}

// enough tells that a violation was seen a while ago: the verdict is known.
func (s *supervisor) enough() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, f := range s.fails {
		if _, ok := s.open[f.Key]; !ok {
			if s.firstFail.IsZero() {
				s.firstFail = time.Now()
			}
			return s.failFast || time.Since(s.firstFail) > afterFailure
		}
	}
	return false
}

func (s *supervisor) runOnce(jobs []job) (done int) {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "-worker", "-prop", s.p.ID, "-tier", s.tier, "-seed", fmt.Sprint(s.seed))
	var sb strings.Builder
	for _, j := range jobs {
		fmt.Fprintf(&sb, "%s %d\n", j.Family, j.Index)
	}
	cmd.Stdin = strings.NewReader(sb.String())
	errf, _ := ioutil.TempFile("", "vh-err")
	defer os.Remove(errf.Name())
	cmd.Stderr = errf
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all")
	if s.p.Race {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=4")
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	cmd.ExtraFiles = []*os.File{pw}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	pw.Close()
	var mu sync.Mutex
	cur := -1
	curCPU := 0.0
	begun := time.Now()
	killed, blocked, stopped := false, false, false
	lastCPU, lastChange := 0.0, time.Now()
	stop := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(500 * time.Millisecond):
			}
			cpu := cpuSeconds(cmd.Process.Pid)
			if cpu != lastCPU || !sleeping(cmd.Process.Pid) {
				lastCPU, lastChange = cpu, time.Now()
			}
			over := s.enough()
			mu.Lock()
			if cur < 0 {
				lastChange = time.Now()
			}
			if cur >= 0 && cpu >= 0 && !killed && !blocked && !stopped {
				switch {
				case cpu-curCPU > caseCPULimit:
					killed = true
				case time.Since(lastChange).Seconds() > blockedLimit:
					blocked = true
				case over:
					stopped = true
				}
				if killed || blocked || stopped {
					cmd.Process.Kill()
				}
			}
			mu.Unlock()
		}
	}()
	dec := json.NewDecoder(bufio.NewReader(pr))
	for {
		var r report
		if err := dec.Decode(&r); err != nil {
			break
		}
		if r.Start {
			mu.Lock()
			cur = done
			curCPU = cpuSeconds(cmd.Process.Pid)
			begun = time.Now()
			mu.Unlock()
			continue
		}
		mu.Lock()
		cur = -1
		if os.Getenv("VERIF_SLOW") != "" && time.Since(begun) > 3*time.Second {
			fmt.Fprintf(os.Stderr, "slow case %s[%d]: %.1f CPU s\n", jobs[done].Family, jobs[done].Index, cpuSeconds(cmd.Process.Pid)-curCPU)
		}
		mu.Unlock()
		done++
		s.absorb(r)
	}
	werr := cmd.Wait()
	close(stop)
	pr.Close()
	errf.Close()
	if done < len(jobs) {
		// the worker died in the middle of a case
		j := jobs[done]
		tail := tailOf(errf.Name())
		mu.Lock()
		wasKilled, wasBlocked, wasStopped := killed, blocked, stopped
		mu.Unlock()
		switch {
		case wasStopped:
			return len(jobs)
		case wasBlocked:
			s.addFail(j, Failure{Key: j.Family + "/blocked", Msg: fmt.Sprintf("the case did not finish: for %g seconds all threads slept and no CPU time was used", blockedLimit)})
		case wasKilled:
			s.addFail(j, Failure{Key: j.Family + "/no-termination", Msg: fmt.Sprintf("the case used more than %g CPU seconds without finishing", caseCPULimit)})
		case strings.Contains(tail, "WARNING: DATA RACE"):
			s.addFail(j, Failure{Key: j.Family + "/data-race", Msg: "race detector report:\n" + raceSummary(errf.Name())})
		case strings.Contains(tail, "fatal error: ") || strings.Contains(tail, "panic: ") || strings.Contains(tail, "goroutine stack exceeds"):
			s.addFail(j, Failure{Key: j.Family + "/crash", Msg: "the process crashed:\n" + tail})
		default:
			// ended from outside (memory, signal): not a verdict
			s.mu.Lock()
			s.aborts = append(s.aborts, fmt.Sprintf("%s %d: worker ended: %v\n%s", j.Family, j.Index, werr, tail))
			s.mu.Unlock()
		}
		done++
	}
	return done
}

func raceSummary(name string) string {
	b, _ := ioutil.ReadFile(name)
	out := []string{}
	for _, l := range strings.Split(string(b), "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "WARNING") || strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Previous") || strings.Contains(t, "/repo/") {
			out = append(out, t)
		}
		if len(out) > 25 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func tailOf(name string) string {
	b, _ := ioutil.ReadFile(name)
	if len(b) > 3000 {
		b = b[:3000]
	}
	return string(b)
}

func (s *supervisor) addFail(j job, f Failure) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.fails = append(s.fails, result{j, f})
	s.cases++
}

func (s *supervisor) absorb(r report) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.cases++
	s.events += r.Events
	s.byFam[r.Family] += r.Events
	for _, x := range r.Sigs {
		s.sigs[r.Family+":"+x] = true
	}
	for k, v := range r.Counts {
		s.counts[k] += v
	}
	if r.Sample != "" && len(s.sample[r.Family]) < 2 {
		s.sample[r.Family] = append(s.sample[r.Family], fmt.Sprintf("%s[%d]: %s (%d oracle evaluations)", r.Family, r.Index, r.Sample, r.Events))
	}
	for _, f := range r.Fails {
		s.fails = append(s.fails, result{job{r.Family, r.Index}, f})
	}
}

func loadFindings(root string) (fs []finding) {
	b, err := ioutil.ReadFile(filepath.Join(root, "known_findings.json"))
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &fs); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}
	return
}

func supervise(p *Property, tier string, seed int64, root, only string, index int, scaleBy int, failFast bool) int {
	t0 := time.Now()
	s := &supervisor{p: p, tier: tier, seed: seed, sigs: map[string]bool{}, byFam: map[string]int64{}, counts: map[string]int64{}, sample: map[string][]string{}, open: map[string]finding{}, failFast: failFast}
	for _, f := range loadFindings(root) {
		if f.Property == p.ID && f.Status == "open" {
			s.open[f.Key] = f
		}
	}
	serial, par := plan(p, tier, scaleBy)
	if only != "" {
		filter := func(js []job) (out []job) {
			for _, j := range js {
				if j.Family == only && (index < 0 || index == j.Index) {
					out = append(out, j)
				}
			}
			return
		}
		serial, par = filter(serial), filter(par)
	}
	// shuffle deterministically, then deal the cases to the workers
	nw := runtime.NumCPU()
	if p.Race {
		nw = (nw + 1) / 2
	}
	if nw > 8 {
		nw = 8
	}
	if nw < 1 {
		nw = 1
	}
	r := newRand(seed)
	r.Shuffle(len(par), func(i, j int) { par[i], par[j] = par[j], par[i] })
	batches := make([][]job, nw)
	for i, j := range par {
		batches[i%nw] = append(batches[i%nw], j)
	}
	var wg sync.WaitGroup
	for _, b := range batches {
		if len(b) == 0 {
			continue
		}
		wg.Add(1)
		go func(b []job) { defer wg.Done(); s.runBatch(b) }(b)
	}
	wg.Wait()
	if len(serial) > 0 {
		s.runBatch(serial)
	}
	return s.verdict(root, time.Since(t0), only != "" || scaleBy > 0)
}

func (s *supervisor) verdict(root string, wall time.Duration, dev bool) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	sort.Slice(s.fails, func(i, j int) bool {
		a, b := s.fails[i], s.fails[j]
		if a.Key != b.Key {
			return a.Key < b.Key
		}
		return a.Index < b.Index
	})
	open := s.open
	known := map[string]bool{}
	reported := map[string]bool{}
	violations := 0
	for _, f := range s.fails {
		if k, ok := open[f.Key]; ok {
			if !known[f.Key] {
				known[f.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", s.p.ID, k.What)
			}
			continue
		}
		violations++
		if reported[f.Key] {
			continue
		}
		reported[f.Key] = true
		if len(reported) > 15 {
			continue
		}
		path := filepath.Join(root, "replays", fmt.Sprintf("%s-%s-%d.json", s.p.ID, strings.Replace(f.Family, "/", "_", -1), f.Index))
		os.MkdirAll(filepath.Dir(path), 0777)
		b, _ := json.MarshalIndent(map[string]interface{}{"property": s.p.ID, "family": f.Family, "index": f.Index, "seed": s.seed, "tier": s.tier, "key": f.Key, "message": f.Msg}, "", " ")
		ioutil.WriteFile(path, b, 0666)
		fmt.Printf("VIOLATION property=%s replay=%s\n", s.p.ID, path)
		fmt.Printf("  key: %s (case %s[%d])\n  %s\n", f.Key, f.Family, f.Index, strings.Replace(f.Msg, "\n", "\n  ", -1))
	}
	samples := []string{}
	fams := []string{}
	for f := range s.sample {
		fams = append(fams, f)
	}
	sort.Strings(fams)
	for _, f := range fams {
		samples = append(samples, s.sample[f]...)
	}
	if len(samples) > 24 {
		samples = samples[:24]
	}
	silent := []string{}
	for _, f := range s.p.Families {
		if s.byFam[f.Name] == 0 {
			silent = append(silent, f.Name)
		}
	}
	ev := map[string]interface{}{
		"property": s.p.ID, "tier": s.tier, "seed": s.seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations":             s.cases,
			"distinct_nontrivial":     len(s.sigs),
			"rule":                    s.p.Rule,
			"samples":                 samples,
			"oracle_evaluations":      s.events,
			"oracle_evals_by_family":  s.byFam,
			"observations":            s.counts,
			"race_detector":           s.p.Race,
			"families_without_events": silent,
			"known_findings_seen":     len(known),
			"inconclusive":            s.aborts,
		},
		"assumptions": append([]string{"holds for the executions made; nothing is claimed about inputs the generators do not produce"}, s.p.Assume...),
		"wall_s":      wall.Seconds(),
		"violations":  violations,
	}
	if !dev {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(root, "evidence"), 0777)
		if err := ioutil.WriteFile(filepath.Join(root, "evidence", s.p.ID+".json"), b, 0666); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct, %d oracle evaluations, %d violations, %d known findings, %.1fs\n", s.p.ID, s.tier, s.seed, s.cases, len(s.sigs), s.events, violations, len(known), wall.Seconds())
	for _, k := range sortedKeys(s.counts) {
		fmt.Printf("  observed %s: %d\n", k, s.counts[k])
	}
	if violations > 0 {
		return 1
	}
	if len(s.aborts) > 0 {
		fmt.Println("INCONCLUSIVE: a worker was ended from outside:", s.aborts[0])
		return 2
	}
	if len(silent) > 0 && !dev {
		fmt.Println("INCONCLUSIVE: families observed nothing:", silent)
		return 2
	}
	return 0
}

func doReplay(file string) int {
	b, err := ioutil.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var m struct {
		Property, Family, Tier string
		Index                  int
		Seed                   int64
	}
	if err := json.Unmarshal(b, &m); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := registry[m.Property]
	c := runCase(p, family(p, m.Family), m.Index, m.Seed, m.Tier)
	for _, f := range c.fails {
		fmt.Printf("VIOLATION property=%s replay=%s\n  key: %s\n  %s\n", m.Property, file, f.Key, f.Msg)
	}
	if len(c.fails) > 0 {
		return 1
	}
	fmt.Println("replay: no violation")
	return 0
}
