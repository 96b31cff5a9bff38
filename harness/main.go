// Bounded exhaustive model checker for btrfscue: entry point.
//
// This package is compiled inside the btrfscue module through "go build
// -overlay" (see /verif/run.sh), so it always links the current tree.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is one checked property.
type Prop struct {
	ID    string
	Level string
	Run   func(r *Runner)
	// Rule describes the enumerated space for the evidence file.
	Rule        string
	Assumptions []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Violation describes one failing case.
type Violation struct {
	Case   string `json:"case"`
	Key    string `json:"key,omitempty"` // identifies a known finding
	Msg    string `json:"msg"`
	Detail string `json:"detail,omitempty"`
	Hung   bool   `json:"hung,omitempty"`
}

func viol(format string, a ...interface{}) *Violation {
	return &Violation{Msg: fmt.Sprintf(format, a...)}
}

// Case is one execution (or one bounded sub-exploration) of the system.
type Case struct {
	ID  string
	Run func(e *Env) *Violation
}

// Runner drives the exploration of one property.
type Runner struct {
	Prop     *Prop
	Tier     string
	Seed     int
	Scratch  string
	Only     string
	Self     string
	Bin      string
	Repo     string
	Verif    string
	Deadline time.Time
	Workers  int

	active sync.Map // *running -> true

	cases     int64
	states    int64
	trans     int64
	traces    int64
	truncated int32
	outcomes  sync.Map
	nOutcomes int64

	start time.Time
	what  map[string]string

	mu      sync.Mutex
	viols   []*Violation
	known   map[string]bool
	flaky   []string
	samples []string
	notes   map[string]interface{}
}

func (r *Runner) Quick() bool    { return r.Tier != "thorough" }
func (r *Runner) Thorough() bool { return r.Tier == "thorough" }

// State counts explored states, Trans explored transitions (oracle-checked
// steps), Trace counts executions of the real implementation that were
// compared against the reference model.
func (r *Runner) State(n int) { atomic.AddInt64(&r.states, int64(n)) }
func (r *Runner) Trans(n int) { atomic.AddInt64(&r.trans, int64(n)) }
func (r *Runner) Trace(n int) { atomic.AddInt64(&r.traces, int64(n)) }

// Outcome records a distinct observed outcome.
func (r *Runner) Outcome(s string) {
	if _, dup := r.outcomes.LoadOrStore(hash64(s), true); !dup {
		atomic.AddInt64(&r.nOutcomes, 1)
	}
}

func (r *Runner) Note(k string, v interface{}) {
	r.mu.Lock()
	r.notes[k] = v
	r.mu.Unlock()
}

func (r *Runner) expired() bool {
	if time.Now().After(r.Deadline) {
		atomic.StoreInt32(&r.truncated, 1)
		return true
	}
	return false
}

const maxViolations = 5

func (r *Runner) enough() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viols) >= maxViolations
}

// running is a case being executed; the monitor reports one that does not
// end as a violation of its property.
type running struct {
	id    string
	start time.Time
}

// caseLimit bounds one case. Commands run under their own, tighter, limits;
// this one catches library calls that do not return.
const caseLimit = 400 * time.Second

func (r *Runner) monitor() {
	for range time.Tick(5 * time.Second) {
		r.active.Range(func(k, _ interface{}) bool {
			if x := k.(*running); time.Since(x.start) > caseLimit {
				v := viol("a call into the code under test did not return")
				v.Case = x.id
				r.mu.Lock()
				r.viols = append(r.viols, v)
				r.finish()
			}
			return true
		})
	}
}

func runCase(c Case, e *Env) (v *Violation) {
	if e.r != nil {
		x := &running{c.ID, time.Now()}
		e.r.active.Store(x, true)
		defer e.r.active.Delete(x)
	}
	defer func() {
		if p := recover(); p != nil {
			v = viol("panic in the code under test: %v", p)
			v.Detail = stackString()
			e.reset()
		}
	}()
	if os.Getenv("VH_SLOW") != "" {
		start := time.Now()
		defer func() {
			if d := time.Since(start); d > 2*time.Second {
				fmt.Fprintf(os.Stderr, "slow: %5.1f s %s\n", d.Seconds(), c.ID)
			}
		}()
	}
	v = c.Run(e)
	return
}

// ForEach runs every case yielded by gen on a pool of workers.
func (r *Runner) ForEach(gen func(yield func(Case) bool)) {
	ch := make(chan Case, 64)
	var wg sync.WaitGroup
	for i := 0; i < r.Workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			e := newEnv(r, fmt.Sprintf("%s-%d", r.Prop.ID, i))
			defer e.close()
			for c := range ch {
				r.runOne(c, e)
			}
		}(i)
	}
	gen(func(c Case) bool {
		if r.Only != "" && c.ID != r.Only {
			return true
		}
		if r.expired() || r.enough() {
			return false
		}
		ch <- c
		return true
	})
	close(ch)
	wg.Wait()
}

func (r *Runner) runOne(c Case, e *Env) {
	if r.enough() || r.expired() {
		return
	}
	n := atomic.AddInt64(&r.cases, 1)
	if n&(n-1) == 0 {
		r.mu.Lock()
		if len(r.samples) < 12 {
			r.samples = append(r.samples, c.ID)
		}
		r.mu.Unlock()
	}
	v := runCase(c, e)
	if v == nil {
		return
	}
	v.Case = c.ID
	if v.Key != "" && r.known[v.Key] {
		r.mu.Lock()
		r.notes["known:"+v.Key] = v.Msg
		r.mu.Unlock()
		return
	}
	// Re-run before believing it.
	confirmed, tries := 0, 5
	for i := 0; i < tries; i++ {
		e.reset()
		if w := runCase(c, e); w != nil {
			confirmed++
			if w.Hung {
				tries = 2 // hangs are expensive to reproduce
			}
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if confirmed == 0 {
		r.flaky = append(r.flaky, c.ID+": "+v.Msg)
		return
	}
	if confirmed < tries {
		v.Msg += fmt.Sprintf(" (reproduced in %d of %d re-runs)", confirmed, tries)
	}
	r.viols = append(r.viols, v)
}

// Check evaluates one in-process case without a worker pool.
func (r *Runner) Check(id string, f func() *Violation) {
	if r.Only != "" && id != r.Only {
		return
	}
	if r.enough() {
		return
	}
	e := &Env{r: r}
	r.runOne(Case{id, func(*Env) *Violation { return f() }}, e)
}

type knownEntry struct {
	Status   string `json:"status"` // "known" or "fixed"
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func loadKnown(path, prop string) (map[string]bool, map[string]string) {
	m, what := map[string]bool{}, map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m, what
	}
	for _, l := range strings.Split(string(b), "\n") {
		var k knownEntry
		if json.Unmarshal([]byte(l), &k) == nil && k.Status == "known" &&
			k.Property == prop {
			m[k.Key] = true
			what[k.Key] = k.What
		}
	}
	return m, what
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "worker" {
		workerMain()
		return
	}
	if len(os.Args) > 4 && os.Args[1] == "seccomp" {
		seccompMain(os.Args[2:])
	}
	if len(os.Args) == 5 && os.Args[1] == "instrument" {
		instrumentMain(os.Args[2:])
		return
	}
	var (
		prop    = flag.String("prop", "", "property id")
		tier    = flag.String("tier", "quick", "quick or thorough")
		seed    = flag.Int("seed", 1, "seed (recorded; nothing is sampled)")
		scratch = flag.String("scratch", "", "scratch directory")
		verif   = flag.String("verif", "/verif", "verification directory")
		bin     = flag.String("bin", "", "btrfscue binary")
		only    = flag.String("only", "", "run only this case id")
		repo    = flag.String("repo", "/repo", "repository")
		aux     = flag.String("aux", "", "auxiliary binary")
		limit   = flag.Int("limit", 0, "deadline in seconds")
	)
	flag.Parse()
	p := props[*prop]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	auxBin = *aux
	self, _ := os.Executable()
	r := &Runner{Prop: p, Tier: *tier, Seed: *seed, Scratch: *scratch,
		Only: *only, Self: self, Bin: *bin, Workers: 8, Repo: *repo, Verif: *verif,
		notes: map[string]interface{}{}}
	lim := *limit
	if lim == 0 {
		lim = 420
		if r.Thorough() {
			lim = 3600
		}
	}
	r.start = time.Now()
	r.Deadline = r.start.Add(time.Duration(lim) * time.Second)
	r.known, r.what = loadKnown(filepath.Join(*verif, "known_findings.jsonl"), p.ID)
	var ru syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &ru) == nil {
		ru.Cur = ru.Max
		syscall.Setrlimit(syscall.RLIMIT_NOFILE, &ru)
	}
	go r.monitor()
	p.Run(r)
	r.mu.Lock()
	r.finish()
}

// finish writes the evidence file and ends the process. r.mu must be held.
func (r *Runner) finish() {
	p := r.Prop
	known := []string{}
	for k := range r.notes {
		if strings.HasPrefix(k, "known:") {
			known = append(known, strings.TrimPrefix(k, "known:"))
		}
	}
	sort.Strings(known)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, r.what[k])
	}
	cov := map[string]interface{}{
		"states":                        atomic.LoadInt64(&r.states),
		"transitions":                   atomic.LoadInt64(&r.trans),
		"traces_validated_against_impl": atomic.LoadInt64(&r.traces),
		"evaluations":                   atomic.LoadInt64(&r.cases),
		"distinct_nontrivial":           atomic.LoadInt64(&r.nOutcomes),
		"rule":                          p.Rule,
		"samples":                       r.samples,
		"exhaustive":                    atomic.LoadInt32(&r.truncated) == 0 && len(r.viols) == 0,
		"unconfirmed":                   r.flaky,
		"details":                       r.notes,
	}
	wall := time.Since(r.start).Seconds()
	ev := map[string]interface{}{
		"property":    p.ID,
		"tier":        r.Tier,
		"seed":        r.Seed,
		"level":       p.Level,
		"coverage":    cov,
		"assumptions": p.Assumptions,
		"wall_s":      wall,
		"violations":  len(r.viols),
	}
	if r.Only == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(r.Verif, "evidence"), 0755)
		if err := os.WriteFile(filepath.Join(r.Verif, "evidence", p.ID+".json"),
			append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	fmt.Printf("%s: cases=%d states=%d transitions=%d traces=%d outcomes=%d exhaustive=%v violations=%d wall=%.1fs\n",
		p.ID, cov["evaluations"], cov["states"], cov["transitions"],
		cov["traces_validated_against_impl"], cov["distinct_nontrivial"],
		cov["exhaustive"], len(r.viols), wall)
	for _, f := range r.flaky {
		fmt.Printf("unconfirmed (not reported): %s\n", f)
	}
	if len(r.viols) == 0 {
		if r.cases == 0 {
			fmt.Fprintln(os.Stderr, "no case was run")
			os.Exit(2)
		}
		os.Exit(0)
	}
	rp := filepath.Join(r.Verif, "evidence", "replay-"+p.ID+".json")
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": p.ID, "tier": r.Tier,
		"replay_cmd": fmt.Sprintf("VERIF_TIER=%s bash /verif/run.sh %s '%s'",
			r.Tier, p.ID, r.viols[0].Case),
		"violations": r.viols}, "", " ")
	os.WriteFile(rp, append(b, '\n'), 0644)
	for _, v := range r.viols {
		fmt.Printf("  case %s: %s\n", v.Case, v.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
	os.Exit(1)
}

var auxBin string

func mustRun(name string, a ...string) string {
	out, err := exec.Command(name, a...).CombinedOutput()
	if err != nil {
		panic(fmt.Sprintf("%s %v: %v: %s", name, a, err, out))
	}
	return string(out)
}
