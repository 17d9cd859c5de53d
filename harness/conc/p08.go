//go:build go1.22

package main

import (
	"fmt"

	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vksched"
)

// ev8 is a completed operation: it took effect at one moment between start and end
type ev8 struct {
	kind       byte // 's'et, 'g'et, 't'rigger
	arg, res   int
	start, end int
	calls      []int
}

// the harness runs one goroutine at a time, but the race detector does not know: its own bookkeeping is per goroutine
type log8 struct{ ev []ev8 }

type env8 struct {
	handlers []cp.NaPErrorHandler
	logs     []*log8
	cur      []*ev8 // per goroutine: the trigger that is going on
	tick     func() int
}

var clock8 int

//go:norace
func tick8() int { clock8++; return clock8 }

// handlers are identified by what they do when called: they write their number to a probe
type probe8 struct{ id int }

const idReason8 = "verif: who are you?"

func (e *env8) mk(id int, then func(th int)) cp.NaPErrorHandler {
	return func(reason string, comparison bool, points ...cp.CurvePointPtrInterfaceBaseRead) bool {
		if reason == idReason8 {
			panic(probe8{id})
		}
		th := vksched.Self()
		e.cur[th].calls = append(e.cur[th].calls, id)
		if then != nil {
			then(th)
		}
		return id%2 == 1
	}
}

var pts8 [4]*cp.Point_xtw_full

// identify tells which handler f is
func identify8(f cp.NaPErrorHandler) (id int) {
	id = -1
	defer func() {
		if p, ok := recover().(probe8); ok {
			id = p.id
		}
	}()
	if f != nil {
		f(idReason8, false)
	}
	return
}

func (e *env8) set(th, id int) {
	ev := ev8{kind: 's', arg: id, start: tick8()}
	old := cp.SetNaPErrorHandler(e.handlers[id])
	ev.end = tick8()
	ev.res = identify8(old)
	e.logs[th].ev = append(e.logs[th].ev, ev)
}

func (e *env8) get(th int) {
	ev := ev8{kind: 'g', start: tick8()}
	f := cp.GetNaPErrorHandler()
	ev.end = tick8()
	ev.res = identify8(f)
	e.logs[th].ev = append(e.logs[th].ev, ev)
}

// trigger compares with an uninitialized point
func (e *env8) trigger(th int) {
	ev := ev8{kind: 't', start: tick8()}
	e.cur[th] = &ev
	got := pts8[th].IsNeutralElement()
	ev.end = tick8()
	ev.res = 0
	if got {
		ev.res = 1
	}
	e.logs[th].ev = append(e.logs[th].ev, ev)
}

// linearizable8 searches for an order of the events that explains them
func linearizable8(evs []ev8, cur int) bool {
	if len(evs) == 0 {
		return true
	}
	minEnd := 1 << 60
	for _, e := range evs {
		if e.end < minEnd {
			minEnd = e.end
		}
	}
	for i, e := range evs {
		if e.start > minEnd {
			continue
		}
		next := cur
		switch e.kind {
		case 's':
			if e.res != cur {
				continue
			}
			next = e.arg
		case 'g':
			if e.res != cur {
				continue
			}
		case 't':
			if len(e.calls) != 1 || e.calls[0] != cur || e.res != cur%2 {
				continue
			}
		}
		rest := append(append([]ev8{}, evs[:i]...), evs[i+1:]...)
		if linearizable8(rest, next) {
			return true
		}
	}
	return false
}

func p08(thorough bool) (out []scen) {
	add := func(name string, b0, b1, p1 int, progs func(e *env8) []func(), nThreads int) {
		out = append(out, scen{name: name, bound: [2]int{b0, b1}, stmts: [2]bool{true, true}, parts: [2]int{1, p1}, setup: func() ([]func(), func() string) {
			clock8 = 0
			e := &env8{cur: make([]*ev8, 4)}
			for i := range pts8 {
				pts8[i] = new(cp.Point_xtw_full)
			}
			for i := 0; i < nThreads; i++ {
				e.logs = append(e.logs, &log8{})
			}
			for id := 0; id < 5; id++ {
				e.handlers = append(e.handlers, e.mk(id, nil))
			}
			// handler 5 queries the handler, handler 6 installs handler 1 when called, handler 7 triggers handling of another point after installing 2
			e.handlers = append(e.handlers,
				e.mk(5, func(th int) { cp.GetNaPErrorHandler() }),
				e.mk(6, func(th int) { e.set(th, 1) }),
			)
			ps := progs(e)
			cp.SetNaPErrorHandler(e.handlers[0])
			return ps, func() string {
				var all []ev8
				for _, l := range e.logs {
					all = append(all, l.ev...)
				}
				last := identify8(cp.GetNaPErrorHandler())
				all = append(all, ev8{kind: 'g', res: last, start: 1 << 40, end: 1 << 41})
				if !linearizable8(all, 0) {
					return fmt.Sprintf("no order of the operations explains what was observed (kind, argument, result, start, end, handlers called): %v", all)
				}
				return ""
			}
		}})
	}
	add("swap and trigger", 4, 7, 2, func(e *env8) []func() {
		return []func(){func() { e.set(0, 1) }, func() { e.trigger(1) }}
	}, 2)
	add("two swaps and queries", 4, 6, 2, func(e *env8) []func() {
		return []func(){func() { e.set(0, 1); e.get(0) }, func() { e.set(1, 2); e.get(1) }}
	}, 2)
	add("swap back and forth while triggering twice", 3, 5, 4, func(e *env8) []func() {
		return []func(){func() { e.set(0, 1); e.set(0, 2) }, func() { e.trigger(1); e.trigger(1) }}
	}, 2)
	add("three goroutines: swap, swap, trigger", 3, 5, 8, func(e *env8) []func() {
		return []func(){func() { e.set(0, 1) }, func() { e.set(1, 2) }, func() { e.trigger(2) }}
	}, 3)
	add("three goroutines: swap, query, trigger", 3, 5, 8, func(e *env8) []func() {
		return []func(){func() { e.set(0, 3) }, func() { e.get(1); e.get(1) }, func() { e.trigger(2) }}
	}, 3)
	add("handler that queries the handler", 3, 5, 4, func(e *env8) []func() {
		return []func(){func() { e.set(0, 5) }, func() { e.trigger(1); e.trigger(1) }}
	}, 2)
	add("handler that replaces the handler", 3, 5, 4, func(e *env8) []func() {
		return []func(){func() { e.set(0, 6); e.trigger(0) }, func() { e.trigger(1); e.get(1) }}
	}, 2)
	add("two goroutines triggering", 3, 5, 4, func(e *env8) []func() {
		return []func(){func() { e.trigger(0); e.get(0) }, func() { e.trigger(1); e.set(1, 3) }}
	}, 2)
	add("comparisons, coordinates and arithmetic with uninitialized points", 2, 3, 8, func(e *env8) []func() {
		return []func(){func() { e.set(0, 3); e.set(0, 2) }, func() {
			// every operation invokes exactly one installed handler at least once, and nothing else happens
			var q cp.Point_xtw_full
			ev := ev8{kind: 't', start: tick8()}
			e.cur[1] = &ev
			pts8[1].IsEqual(&q)
			ev.end = tick8()
			if len(ev.calls) != 1 {
				panic(fmt.Sprintf("IsEqual called handlers %v", ev.calls))
			}
			ev.res = ev.calls[0] % 2
			e.logs[1].ev = append(e.logs[1].ev, ev)
		}}
	}, 2)
	return
}
