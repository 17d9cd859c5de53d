//go:build go1.22

// Package vk is the exploration kit shared by all harnesses in /verif/harness:
// exhaustive parallel enumeration of cases, crash/hang containment, recording of violations with replay files,
// known findings, and evidence files.
//
// A harness is one binary; it registers one function per property and calls Main.
package vk

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Property describes how a check decides one property.
type Property struct {
	ID          string
	Level       string // "model_checking", "exploration" or "fault_enumeration"
	Rule        string // how cases are made, what counts as a distinct state / non-trivial case
	Assumptions []string
	Run         func(r *Run)
}

// Run is one execution of a check.
type Run struct {
	P         *Property
	Thorough  bool
	Seed      int64
	start     time.Time
	deadline  time.Time
	exhausted atomic.Bool // set to true if some part was cut short
	replayKey string

	mu       sync.Mutex
	viol     []violation
	samples  []any
	extra    map[string]any
	counters counters
	states   [64]shard
	cur      [256]atomic.Pointer[running]
	stop     atomic.Bool
	known    []knownFinding
	knownHit map[string]bool
}

type shard struct {
	mu sync.Mutex
	m  map[uint64]struct{}
}

type counters struct{ evals, trans, traces int64 }

type violation struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	Detail   string `json:"detail"`
	Tier     string `json:"tier"`
	Replay   string `json:"how_to_replay"`
}
type knownFinding struct {
	prop string
	key  *regexp.Regexp
	what string
}
type running struct {
	key   func() string
	start time.Time
}

// T is the context of one case.
type T struct {
	r       *Run
	fails   []string
	rerun   bool
	c       counters
	sts     []uint64
	sampled bool
	slot    int
}
type abort struct{}

// Failf records that the property is violated in this case. The case goes on.
func (t *T) Failf(format string, args ...any) {
	if len(t.fails) < 8 {
		t.fails = append(t.fails, fmt.Sprintf(format, args...))
	} else {
		panic(abort{})
	}
}

// Fatalf records a violation and ends the case.
func (t *T) Fatalf(format string, args ...any) {
	t.fails = append(t.fails, fmt.Sprintf(format, args...))
	panic(abort{})
}

// Failed tells whether the case has failed already.
func (t *T) Failed() bool { return len(t.fails) > 0 }

// Eval counts n executions of the code under test that were compared against the oracle.
func (t *T) Eval(n int) { t.c.evals += int64(n) }

// Trans counts n transitions, i.e. operations applied to the implementation and to the model in lockstep.
func (t *T) Trans(n int) { t.c.trans += int64(n) }

// Trace counts n complete model traces replayed against the implementation.
func (t *T) Trace(n int) { t.c.traces += int64(n) }

// StateH records (the hash of) a distinct state / distinct non-trivial case.
func (t *T) StateH(h uint64) {
	t.sts = append(t.sts, h)
	if len(t.sts) >= 1024 {
		t.flushStates()
	}
}

// State records a distinct state by its canonical description.
func (t *T) State(parts ...string) {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	t.StateH(h.Sum64())
}
func (t *T) Quick() bool { return !t.r.Thorough }

func (t *T) flushStates() {
	if !t.rerun {
		for _, h := range t.sts {
			s := &t.r.states[h&63]
			s.mu.Lock()
			if s.m == nil {
				s.m = make(map[uint64]struct{})
			}
			s.m[h] = struct{}{}
			s.mu.Unlock()
		}
	}
	t.sts = t.sts[:0]
}

// Sample records an example case for the evidence (only the first few are kept).
func (r *Run) Sample(s any) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}
func (t *T) Sample(s any) { t.r.Sample(s) }

// Extra adds a field to the coverage object of the evidence.
func (r *Run) Extra(k string, v any) { r.mu.Lock(); r.extra[k] = v; r.mu.Unlock() }

// Incomplete records that the stated bounds were not covered completely.
func (r *Run) Incomplete() { r.exhausted.Store(true) }

// Alive tells the watchdog that the current case makes progress.
func (t *T) Alive() {
	if c := t.r.cur[t.slot].Load(); c != nil {
		t.r.cur[t.slot].Store(&running{key: c.key, start: time.Now()})
	}
}

// Expired is true when the internal deadline has passed or enough violations were found.
func (r *Run) Expired() bool {
	if r.stop.Load() {
		return true
	}
	if time.Now().After(r.deadline) {
		r.exhausted.Store(true)
		return true
	}
	return false
}

func (t *T) runProtected(f func(t *T)) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abort); ok {
				return
			}
			t.fails = append(t.fails, fmt.Sprintf("unexpected panic: %v\n%s", e, trimStack(debug.Stack())))
		}
	}()
	f(t)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// Case runs one case (serially).
func (r *Run) Case(key string, f func(t *T)) { r.one(255, func() string { return key }, f) }

// Each runs cases 0..n-1 in parallel; key names a case (only called for failing cases and progress reports).
func (r *Run) Each(n int, key func(i int) string, f func(t *T, i int)) {
	r.EachN(runtime.NumCPU(), n, key, f)
}

// EachN is Each with an explicit number of workers.
func (r *Run) EachN(workers int, n int, key func(i int) string, f func(t *T, i int)) {
	if workers > 200 {
		workers = 200
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || r.Expired() {
					return
				}
				r.one(w, func() string { return key(i) }, func(t *T) { f(t, i) })
			}
		}(w)
	}
	wg.Wait()
}

func (r *Run) one(slot int, key func() string, f func(t *T)) {
	if r.Expired() {
		return
	}
	r.cur[slot].Store(&running{key: key, start: time.Now()})
	t := &T{r: r, slot: slot}
	t.runProtected(f)
	if len(t.fails) > 0 {
		// re-run before believing
		repro := false
		for k := 0; k < 20 && !repro; k++ {
			r.cur[slot].Store(&running{key: key, start: time.Now()})
			t2 := &T{r: r, rerun: true, slot: slot}
			t2.runProtected(f)
			repro = len(t2.fails) > 0
		}
		if repro {
			r.report(key(), strings.Join(t.fails, "\n"))
		} else {
			fmt.Printf("NOTE: a failure in case %q did not reproduce in 20 re-runs and is ignored: %s\n", key(), t.fails[0])
		}
	}
	t.flushStates()
	r.cur[slot].Store(nil)
	atomic.AddInt64(&r.counters.evals, t.c.evals)
	atomic.AddInt64(&r.counters.trans, t.c.trans)
	atomic.AddInt64(&r.counters.traces, t.c.traces)
}

// Report records a violation (already confirmed by the caller).
func (r *Run) Report(key, detail string) { r.report(key, detail) }

func (r *Run) report(key, detail string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.replayKey != "" && key != r.replayKey {
		return
	}
	for _, k := range r.known {
		if k.prop == r.P.ID && k.key.MatchString(key) {
			if !r.knownHit[k.what] {
				r.knownHit[k.what] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.P.ID, k.what)
			}
			return
		}
	}
	if len(r.viol) < 10 {
		tier := "quick"
		if r.Thorough {
			tier = "thorough"
		}
		r.viol = append(r.viol, violation{r.P.ID, key, detail, tier, ""})
	}
	if (len(r.viol) >= 10 || os.Getenv("VK_FAILFAST") != "") && r.replayKey == "" {
		r.stop.Store(true)
	}
}

func (r *Run) watchdog(limit time.Duration, finish func()) {
	for {
		time.Sleep(time.Second)
		for i := range r.cur {
			c := r.cur[i].Load()
			if c != nil && time.Since(c.start) > limit {
				r.report(c.key(), fmt.Sprintf("case did not finish within %v (no termination)", limit))
				finish()
			}
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 20<<30 {
			for i := range r.cur {
				if c := r.cur[i].Load(); c != nil && time.Since(c.start) > time.Second {
					r.report(c.key(), "unbounded memory use")
				}
			}
			finish()
		}
	}
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// Main is the entry point of a harness:  h ID quick|thorough   or   h ID replay FILE
func Main(props ...Property) {
	if len(os.Args) < 3 {
		fmt.Println("usage: harness ID quick|thorough | ID replay FILE")
		os.Exit(2)
	}
	id, mode := os.Args[1], os.Args[2]
	var p *Property
	for i := range props {
		if props[i].ID == id {
			p = &props[i]
		}
	}
	if p == nil {
		fmt.Println("unknown property", id)
		os.Exit(2)
	}
	if os.Getenv("VK_CHILD") == "" {
		os.Exit(parent(p))
	}
	if f := os.Getenv("VK_PROF"); f != "" { // development only
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)

	}
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)
	r := &Run{P: p, start: time.Now(), extra: map[string]any{}, knownHit: map[string]bool{}}
	r.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	limit := 400 * time.Second
	r.Thorough = mode == "thorough"
	if mode == "replay" {
		b, err := os.ReadFile(os.Args[3])
		var v violation
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Println("cannot read replay file:", err)
			os.Exit(2)
		}
		r.replayKey = v.Key
		r.Thorough = v.Tier == "thorough"
	}
	if r.Thorough {
		limit = 3000 * time.Second
	}
	if s := os.Getenv("VK_LIMIT"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			limit = time.Duration(n) * time.Second
		}
	}
	r.deadline = r.start.Add(limit)
	r.loadKnown()
	var once sync.Once
	finish := func() { once.Do(func() { pprof.StopCPUProfile(); os.Exit(r.finish()) }); select {} }
	caseLimit := 120 * time.Second
	if s := os.Getenv("VK_CASE_LIMIT"); s != "" { // development only
		if n, err := strconv.Atoi(s); err == nil {
			caseLimit = time.Duration(n) * time.Second
		}
	}
	go r.watchdog(caseLimit, finish)
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.report("harness-top-level", fmt.Sprintf("unexpected panic outside of a case: %v\n%s", e, trimStack(debug.Stack())))
			}
		}()
		p.Run(r)
	}()
	finish()
}

func (r *Run) loadKnown() {
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	re := regexp.MustCompile(`^finding: property=(\S+) key=(\S+) (.*)$`)
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		if m := re.FindStringSubmatch(sc.Text()); m != nil {
			k, err := regexp.Compile("^(?:" + m[2] + ")$")
			if err == nil {
				r.known = append(r.known, knownFinding{m[1], k, m[3]})
			}
		}
	}
}

func (r *Run) tier() string {
	if r.Thorough {
		return "thorough"
	}
	return "quick"
}

func (r *Run) numStates() (n int64) {
	for i := range r.states {
		r.states[i].mu.Lock()
		n += int64(len(r.states[i].m))
		r.states[i].mu.Unlock()
	}
	return
}

func (r *Run) finish() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	cov := map[string]any{}
	for k, v := range r.extra {
		cov[k] = v
	}
	n := r.numStates()
	cut := r.exhausted.Load() || r.stop.Load()
	switch r.P.Level {
	case "model_checking":
		cov["states"] = n
		cov["transitions"] = atomic.LoadInt64(&r.counters.trans)
		cov["traces_validated_against_impl"] = atomic.LoadInt64(&r.counters.traces)
	default:
		cov["evaluations"] = atomic.LoadInt64(&r.counters.evals)
		cov["distinct_nontrivial"] = n
	}
	cov["rule"] = r.P.Rule
	cov["exhaustive"] = !cut
	if r.samples == nil {
		r.samples = []any{}
	}
	cov["samples"] = r.samples
	ev := map[string]any{"property": r.P.ID, "tier": r.tier(), "seed": r.Seed, "level": r.P.Level, "coverage": cov,
		"assumptions": r.P.Assumptions, "wall_s": time.Since(r.start).Seconds(), "violations": len(r.viol)}
	if r.P.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	writeEvidence(r.P.ID, ev)
	fmt.Printf("%s %s: distinct=%d evaluations=%d transitions=%d traces=%d exhaustive=%v violations=%d wall=%.1fs\n", r.P.ID, r.tier(), n,
		r.counters.evals, r.counters.trans, r.counters.traces, !cut, len(r.viol), time.Since(r.start).Seconds())
	if len(r.viol) == 0 {
		return 0
	}
	sort.SliceStable(r.viol, func(i, j int) bool { return len(r.viol[i].Key) < len(r.viol[j].Key) })
	for i := range r.viol {
		emit(&r.viol[i], i)
	}
	return 1
}

func emit(v *violation, i int) {
	dir := filepath.Join(verifDir(), "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", v.Property, i))
	v.Replay = fmt.Sprintf("cd /verif && ./run.sh %s replay %s", v.Property, path)
	b, _ := json.MarshalIndent(v, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Println("cannot write replay file:", err)
	}
	d := v.Detail
	if len(d) > 1500 {
		d = d[:1500] + "..."
	}
	fmt.Printf("case: %s\n%s\nVIOLATION property=%s replay=%s\n", v.Key, d, v.Property, path)
}

func writeEvidence(id string, ev map[string]any) {
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Println("cannot write evidence:", err)
		os.Exit(2)
	}
}

// parent runs the harness in a child process, so that fatal errors of the runtime
// (stack exhaustion, concurrent map access, deadlock, os.Exit in code under test) are reported as violations too.
func parent(p *Property) int {
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VK_CHILD=1")
	var tail tailBuffer
	cmd.Stdout = os.Stdout
	cmd.Stderr = &tail
	err := cmd.Run()
	code := cmd.ProcessState.ExitCode()
	if err == nil || code == 1 {
		os.Stderr.Write(tail.head)
		return code
	}
	txt := string(tail.head)
	if i := strings.Index(txt, "fatal error:"); i >= 0 || strings.Contains(txt, "panic:") || strings.Contains(txt, "goroutine stack exceeds") {
		v := violation{p.ID, "process-crash", "the process running the code under test crashed:\n" + txt, os.Args[2], ""}
		writeEvidence(p.ID, map[string]any{"property": p.ID, "tier": "quick", "seed": 0, "level": p.Level, "wall_s": 0, "violations": 1,
			"coverage": map[string]any{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0, "distinct_nontrivial": 0, "rule": p.Rule, "samples": []any{}, "exhaustive": false}})
		emit(&v, 0)
		return 1
	}
	os.Stderr.Write(tail.head)
	fmt.Println("the check gave no answer: exit code", code)
	return 2
}

type tailBuffer struct{ head []byte }

func (b *tailBuffer) Write(p []byte) (int, error) {
	if len(b.head) < 20000 {
		b.head = append(b.head, p...)
	}
	return len(p), nil
}

// Panics runs f and returns whether it panicked, and with which value.
func Panics(f func()) (did bool, val any) {
	did = true
	defer func() {
		if did {
			val = recover()
		}
	}()
	f()
	did = false
	return
}

// Hash64 hashes a string.
func Hash64(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() }
