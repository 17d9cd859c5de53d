//go:build go1.22

// Package vksched is a controlled scheduler: the goroutines of an execution run one at a time, and every switch between
// them is a recorded choice, so that all schedules with at most a given number of preemptions can be enumerated.
// Switching creates no happens-before edge that the race detector sees (runtime.RaceDisable), so in a build with -race
// every data race of the code under test is reported on every explored schedule.
// All functions of this package are go:norace.
package vksched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
)

// Waiter is something that a goroutine waits for.
type Waiter interface{ Ready() bool }

type thread struct {
	id       int
	fn       func()
	wake     chan struct{}
	done     bool
	wait     Waiter
	panicked bool
	pval     string
}

type rec struct{ n, c int }

// Exec is one execution.
type Exec struct {
	threads []*thread
	cur     *thread
	plan    []int
	rec     []rec
	preempt int
	bound   int
	stmts   bool // preempt at every statement (not only at synchronization)
	steps   int
	limit   int
	diverge bool
	abort   bool
	fault   string
	fin     chan struct{}
	trace   uint64
}

var active *Exec

// Y is a scheduling point before a statement.
//
//go:norace
//go:noinline
func Y() {
	e := active
	if e == nil || e.abort {
		return
	}
	e.steps++
	if e.steps > e.limit {
		e.fail(fmt.Sprintf("no termination within %d steps", e.limit))
		return
	}
	if e.stmts {
		e.point()
	}
}

// P is a scheduling point at a synchronization operation.
//
//go:norace
//go:noinline
func P() {
	e := active
	if e == nil || e.abort {
		return
	}
	e.steps++
	e.point()
}

// Fault reports a misuse that the real package sync answers by a fatal error.
//
//go:norace
func Fault(msg string) {
	e := active
	if e == nil {
		panic(msg)
	}
	if !e.abort {
		e.fail(msg)
	}
}

// Aborting tells whether the execution is being torn down.
//
//go:norace
func Aborting() bool { return active != nil && active.abort }

// Active tells whether an execution is going on.
//
//go:norace
func Active() bool { return active != nil }

// Self is the number of the running goroutine.
//
//go:norace
func Self() int {
	if e := active; e != nil {
		return e.cur.id
	}
	return -1
}

// Block waits until w is ready, letting other goroutines run.
//
//go:norace
func Block(w Waiter) {
	e := active
	if e == nil {
		panic("vksched: blocked forever outside of an execution")
	}
	for !w.Ready() {
		me := e.cur
		me.wait = w
		t := e.pick(false)
		if t == nil {
			e.fail("deadlock: every goroutine waits")
			return
		}
		e.switchTo(me, t)
		me.wait = nil
	}
}

//go:norace
func (e *Exec) point() {
	if e.preempt >= e.bound {
		return
	}
	n := 0
	for _, t := range e.threads {
		if t != e.cur && t.enabled() {
			n++
		}
	}
	if n == 0 {
		return
	}
	c := e.choose(n + 1)
	if c == 0 {
		return
	}
	e.preempt++
	for _, t := range e.threads {
		if t != e.cur && t.enabled() {
			c--
			if c == 0 {
				e.switchTo(e.cur, t)
				return
			}
		}
	}
}

//go:norace
func (t *thread) enabled() bool { return !t.done && (t.wait == nil || t.wait.Ready()) }

// pick chooses the goroutine that runs next if the current one cannot go on.
//
//go:norace
func (e *Exec) pick(any bool) *thread {
	n := 0
	for _, t := range e.threads {
		if t.enabled() {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	c := e.choose(n)
	for _, t := range e.threads {
		if t.enabled() {
			if c == 0 {
				return t
			}
			c--
		}
	}
	return nil
}

//go:norace
func (e *Exec) choose(n int) int {
	if n == 1 {
		return 0
	}
	c := 0
	if len(e.rec) < len(e.plan) {
		c = e.plan[len(e.rec)]
		if c >= n {
			c = n - 1
			e.diverge = true
		}
	}
	e.rec = append(e.rec, rec{n, c})
	return c
}

//go:norace
func (e *Exec) switchTo(me, t *thread) {
	if t == me {
		return
	}
	e.trace = (e.trace*1099511628211 ^ uint64(e.steps)<<4 ^ uint64(t.id)) + 1
	e.cur = t
	runtime.RaceDisable()
	t.wake <- struct{}{}
	<-me.wake
	runtime.RaceEnable()
	if e.abort {
		runtime.Goexit()
	}
}

// fail ends the execution: every goroutine is unwound.
//
//go:norace
func (e *Exec) fail(msg string) {
	if e.fault == "" {
		e.fault = msg
	}
	e.abort = true
	runtime.Goexit()
}

//go:norace
func (t *thread) main(e *Exec) {
	runtime.RaceDisable()
	<-t.wake
	runtime.RaceEnable()
	defer t.end(e)
	if e.abort {
		return
	}
	t.call()
}

//go:norace
func (t *thread) call() {
	defer t.rec()
	t.panicked = true
	t.fn()
	t.panicked = false
}

//go:norace
func (t *thread) rec() {
	if t.panicked {
		if v := recover(); v != nil {
			s := strings.Split(string(debug.Stack()), "\n")
			if len(s) > 30 {
				s = s[:30]
			}
			t.pval = fmt.Sprintf("%v\n%s", v, strings.Join(s, "\n"))
		} else {
			t.panicked = false // runtime.Goexit
		}
	}
}

//go:norace
func (t *thread) end(e *Exec) {
	t.done = true
	var next *thread
	if !e.abort {
		all := true
		for _, o := range e.threads {
			if !o.done {
				all = false
			}
		}
		if !all {
			next = e.pick(true)
			if next == nil {
				e.fault = "deadlock: every remaining goroutine waits"
				e.abort = true
			}
		}
	}
	if e.abort {
		for _, o := range e.threads {
			if !o.done {
				next = o
			}
		}
	}
	if next == nil {
		e.fin <- struct{}{}
		return
	}
	e.trace = e.trace*1099511628211 ^ uint64(next.id)
	e.cur = next
	e.fin <- struct{}{} // every goroutine has its own slot: no edge between goroutines
	runtime.RaceDisable()
	next.wake <- struct{}{}
	runtime.RaceEnable()
}

// Result of an exploration
type Result struct {
	Schedules int
	Steps     int
	MaxPoints int
	Diverged  int
	Complete  bool
	Fails     []string
	Traces    map[uint64]struct{}
}

type Config struct {
	Bound       int  // number of preemptions
	Stmts       bool // preempt at every statement
	Limit       int  // steps per execution
	Part, Parts int
	Stop        func() bool
}

type explorer struct {
	c     Config
	setup func() ([]func(), func() string)
	res   *Result
}

//go:norace
func (x *explorer) run(plan []int) (r []rec, ok bool) {
	fns, check := x.setup()
	races := raceErrors()
	e := &Exec{plan: plan, bound: x.c.Bound, stmts: x.c.Stmts, limit: x.c.Limit, fin: make(chan struct{}, len(fns))}
	for i, f := range fns {
		e.threads = append(e.threads, &thread{id: i, fn: f, wake: make(chan struct{}, 1)})
	}
	for _, t := range e.threads {
		go t.main(e)
	}
	active = e
	first := e.pick(true)
	e.cur = first
	runtime.RaceDisable()
	first.wake <- struct{}{}
	runtime.RaceEnable()
	for range e.threads {
		<-e.fin // synchronizes: the results may be looked at
	}
	active = nil
	bad := e.fault
	for _, t := range e.threads {
		if t.panicked && bad == "" {
			bad = fmt.Sprintf("goroutine %d panics: %s", t.id, t.pval)
		}
	}
	if bad == "" {
		bad = check()
	}
	if d := raceErrors() - races; d > 0 {
		bad = fmt.Sprintf("data race (%d reports) %s", d, bad)
	}
	res := x.res
	res.Schedules++
	res.Steps += e.steps
	if len(e.rec) > res.MaxPoints {
		res.MaxPoints = len(e.rec)
	}
	if e.diverge {
		res.Diverged++
	}
	res.Traces[e.trace] = struct{}{}
	if bad != "" {
		res.Fails = append(res.Fails, fmt.Sprintf("schedule %v: %s", compress(e.rec), bad))
	}
	return e.rec, len(res.Fails) < 3 && e.fault == "" && !x.c.Stop()
}

// Explore enumerates the schedules of what setup returns: the goroutines, and a function that checks the result of an
// execution (called after all goroutines have ended).
//
//go:norace
func Explore(c Config, setup func() ([]func(), func() string)) (res Result) {
	if c.Limit == 0 {
		c.Limit = 1 << 20
	}
	if c.Parts == 0 {
		c.Parts = 1
	}
	res.Traces = map[uint64]struct{}{}
	x := &explorer{c, setup, &res}
	root, ok := x.run(nil)
	if !ok {
		return
	}
	for d := c.Part; d < len(root); d += c.Parts {
		for alt := 1; alt < root[d].n; alt++ {
			base := make([]int, d+1)
			for i := 0; i < d; i++ {
				base[i] = root[i].c
			}
			base[d] = alt
			plan := base
			for {
				r, ok := x.run(plan)
				if !ok {
					return
				}
				i := len(r) - 1
				for i > d && r[i].c+1 >= r[i].n {
					i--
				}
				if i <= d {
					break
				}
				plan = make([]int, i+1)
				for j := 0; j < i; j++ {
					plan[j] = r[j].c
				}
				plan[i] = r[i].c + 1
			}
		}
	}
	res.Complete = true
	return
}

func compress(r []rec) string {
	var b strings.Builder
	zero := 0
	for _, x := range r {
		if x.c == 0 {
			zero++
			continue
		}
		fmt.Fprintf(&b, "[%d default choices] then choice %d of %d; ", zero, x.c, x.n)
		zero = 0
	}
	if b.Len() == 0 {
		return "(default)"
	}
	return b.String()
}
