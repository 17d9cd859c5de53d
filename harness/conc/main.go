//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vksched"
)

// scen is a scenario: a set-up that is run before every execution and returns the goroutines and the final check
type scen struct {
	name  string
	bound [2]int  // preemption bound (quick, thorough)
	stmts [2]bool // preempt at every statement?
	parts [2]int  // number of processes
	limit int     // steps per execution (0: the default)
	setup func() (threads []func(), check func() string)
}

type childResult struct {
	Schedules, Steps, MaxPoints, Diverged int
	Complete                              bool
	Fails                                 []string
	Traces                                []uint64
}

var scenarios = map[string]func(thorough bool) []scen{"E06": e06, "P08": p08, "I04": i04, "C03": c03}

const maxTraces = 200000

// child explores a part of the schedules of one scenario
func child(arg string) {
	f := strings.Split(arg, ":")
	tier, _ := strconv.Atoi(f[1])
	idx, _ := strconv.Atoi(f[2])
	part, _ := strconv.Atoi(f[3])
	parts, _ := strconv.Atoi(f[4])
	secs, _ := strconv.Atoi(f[5])
	s := scenarios[f[0]](tier == 1)[idx]
	if f := os.Getenv("VK_PROF"); f != "" { // development only
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	end := time.Now().Add(time.Duration(secs) * time.Second)
	res := vksched.Explore(vksched.Config{Bound: s.bound[tier], Stmts: s.stmts[tier], Limit: s.limit, Part: part, Parts: parts,
		Stop: func() bool { return time.Now().After(end) }}, s.setup)
	c := childResult{Schedules: res.Schedules, Steps: res.Steps, MaxPoints: res.MaxPoints, Diverged: res.Diverged, Complete: res.Complete, Fails: res.Fails}
	for h := range res.Traces {
		if len(c.Traces) >= maxTraces {
			break
		}
		c.Traces = append(c.Traces, h)
	}
	b, _ := json.Marshal(c)
	os.Stdout.Write(b)
}

func explore(id string) func(r *vk.Run) {
	return func(r *vk.Run) {
		tier := 0
		if r.Thorough {
			tier = 1
		}
		type job struct{ idx, part, parts int }
		var jobs []job
		ss := scenarios[id](r.Thorough)
		for i, s := range ss {
			for p := 0; p < s.parts[tier]; p++ {
				jobs = append(jobs, job{i, p, s.parts[tier]})
			}
		}
		secs := 100
		if r.Thorough {
			secs = 1200
		}
		var mu sync.Mutex
		var schedules, div int
		points := map[string]int{}
		r.Each(len(jobs), func(i int) string {
			return fmt.Sprintf("%s/part %d of %d", ss[jobs[i].idx].name, jobs[i].part, jobs[i].parts)
		}, func(t *vk.T, i int) {
			j := jobs[i]
			cmd := exec.Command(os.Args[0])
			var so, se limited
			so.max, se.max = 64<<20, 16000
			cmd.Stdout, cmd.Stderr = &so, &se
			cmd.Env = append(os.Environ(), fmt.Sprintf("VK_CONC=%s:%d:%d:%d:%d:%d", id, tier, j.idx, j.part, j.parts, secs),
				"GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3 atexit_sleep_ms=0", "GOMAXPROCS=2", "GOTRACEBACK=all")
			if err := cmd.Start(); err != nil {
				panic(err)
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			start := time.Now()
			var err error
		wait:
			for {
				select {
				case err = <-done:
					break wait
				case <-time.After(5 * time.Second):
					if time.Since(start) < time.Duration(secs+30)*time.Second {
						t.Alive()
					} else {
						cmd.Process.Kill()
						<-done
						t.Fatalf("the execution does not end (blocked outside of the known synchronization primitives): %s", se.String())
					}
				}
			}
			if err != nil {
				t.Fatalf("the process crashed: %v\n%s", err, se.String())
			}
			var c childResult
			if err := json.Unmarshal([]byte(so.String()), &c); err != nil {
				t.Fatalf("no result: %v\n%s\n%s", err, so.String(), se.String())
			}
			for _, f := range c.Fails {
				t.Failf("%s", f)
			}
			if len(c.Fails) > 0 && len(se.b) > 0 {
				t.Failf("%.6000s", se.String())
			}
			if !c.Complete && len(c.Fails) == 0 {
				r.Incomplete()
			}
			t.Eval(c.Schedules)
			t.Trace(c.Schedules)
			t.Trans(c.Steps)
			for _, h := range c.Traces {
				t.StateH(h ^ uint64(j.idx+1)*0x9e3779b97f4a7c15)
			}
			mu.Lock()
			schedules += c.Schedules
			div += c.Diverged
			if c.MaxPoints > points[ss[j.idx].name] {
				points[ss[j.idx].name] = c.MaxPoints
			}
			mu.Unlock()
		})
		r.Extra("schedules", schedules)
		r.Extra("schedules_that_diverged_on_replay", div)
		max, sum := 0, 0
		for _, n := range points {
			sum += n
			if n > max {
				max = n
			}
		}
		r.Extra("scenarios", len(ss))
		r.Extra("scheduling_points_per_scenario_max", max)
		r.Extra("scheduling_points_per_scenario_mean", sum/(len(points)+1))
		r.Extra("race_detector", vksched.RaceBuild)
		for i := 0; i < len(ss); i += 1 + len(ss)/10 {
			r.Sample(ss[i].name)
		}
	}
}

type limited struct {
	b   []byte
	max int
}

func (l *limited) Write(p []byte) (int, error) {
	if len(l.b) < l.max {
		l.b = append(l.b, p...)
	}
	return len(p), nil
}
func (l *limited) String() string { return string(l.b) }

var concAssumptions = []string{
	"the code under test is instrumented automatically from the current source: a scheduling point before every statement, package sync replaced by an equivalent one that the scheduler controls",
	"the Go race detector reports every unsynchronized conflicting access of an explored schedule",
}

func main() {
	if a := os.Getenv("VK_CONC"); a != "" {
		child(a)
		return
	}
	vk.Main(
		vk.Property{ID: "E06", Level: "model_checking", Run: explore("E06"), Assumptions: concAssumptions,
			Rule: "all schedules of the scenario's goroutines within the preemption bound, at statement granularity, on the real code; results must equal those of sequential execution; no data race, panic or deadlock"},
		vk.Property{ID: "P08", Level: "model_checking", Run: explore("P08"), Assumptions: concAssumptions,
			Rule: "all schedules of the scenario's goroutines within the preemption bound, at statement granularity, on the real code; the history of swaps, queries and handler calls must be linearizable"},
		vk.Property{ID: "I04", Level: "model_checking", Run: explore("I04"), Assumptions: concAssumptions,
			Rule: "all request histories up to the depth and all schedules of concurrent requests within the preemption bound; every result must be the prefix of the key's sequence"},
		vk.Property{ID: "C03", Level: "model_checking", Run: explore("C03"), Assumptions: concAssumptions,
			Rule: "every pair of operations on disjoint values in two goroutines, in both orders and with all preemptions at synchronization operations; the race detector must stay silent and the results must equal those of sequential execution"},
	)
}
