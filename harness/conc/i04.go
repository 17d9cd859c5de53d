//go:build go1.22

package main

import (
	"fmt"
	"math/rand"

	tu "github.com/GottfriedHerold/Bandersnatch/internal/testutils"
)

// elem is a cached element: a pointer, so that copies matter
type elem struct{ v uint64 }

type cache4 = tu.PrecomputedCache[int64, *elem]

// src4 is a cheap random source
type src4 struct{ x uint64 }

func (s *src4) Seed(int64)   {}
func (s *src4) Int63() int64 { return int64(s.Uint64() >> 1) }
func (s *src4) Uint64() uint64 {
	s.x = s.x*6364136223846793005 + 1442695040888963407
	return s.x ^ s.x>>29
}
func newRng4(key int64) *rand.Rand { return rand.New(&src4{uint64(key) * 0x9e3779b97f4a7c15}) }

// seq4 is the sequence of a key: every element depends on all draws before it
func seq4(key int64, n int) (out []uint64) {
	rng := newRng4(key)
	for i := 0; i < n; i++ {
		out = append(out, rng.Uint64()^uint64(key))
	}
	return
}

var (
	refSeq  = map[int64][]uint64{}
	prefill = []uint64{71, 72}
)

func init() {
	for k := int64(0); k < 4; k++ {
		refSeq[k] = seq4(k, 16)
	}
}

type ev4 struct {
	op       byte // 'g'et, 'p'repopulate, 'x': a get that panics in the creation function
	key      int64
	n        int
	got      []*elem
	vals     []uint64 // got at the time of the call
	panicked bool
}

type env4 struct {
	c    cache4
	logs [4][]*ev4
	// panicAt makes the creation function panic when it creates the given element (by number of creations) of a key
	panicking [4]int // per goroutine: 0, or 1 + the number of elements that the request creates before creation panics
	self      func() int
}

func newEnv4(self func() int) *env4 {
	e := &env4{self: self}
	e.c = tu.MakePrecomputedCache(newRng4, func(rng *rand.Rand, key int64) *elem {
		if left := &e.panicking[self()]; *left == 1 {
			panic("creation fails")
		} else if *left > 1 {
			*left--
		}
		return &elem{rng.Uint64() ^ uint64(key)}
	}, func(x *elem) *elem { y := *x; return &y })
	return e
}

// get requests n elements; with fail>0 the creation of the fail-th new element panics
func (e *env4) get(th int, key int64, n int, fail int) *ev4 {
	ev := &ev4{op: 'g', key: key, n: n}
	if fail > 0 {
		ev.op = 'x'
	}
	e.panicking[th] = fail
	func() {
		defer func() { ev.panicked = recover() != nil }()
		ev.got = e.c.GetElements(key, n)
	}()
	e.panicking[th] = 0
	for _, x := range ev.got {
		ev.vals = append(ev.vals, x.v)
	}
	e.logs[th] = append(e.logs[th], ev)
	return ev
}

func (e *env4) prepopulate(th int, key int64, vals []uint64) {
	ev := &ev4{op: 'p', key: key, n: len(vals)}
	var l []*elem
	for _, v := range vals {
		l = append(l, &elem{v})
	}
	func() {
		defer func() { ev.panicked = recover() != nil }()
		e.c.PrepopulateCache(key, l)
	}()
	for i := range l { // must not matter
		l[i].v = 999
		l[i] = nil
	}
	e.logs[th] = append(e.logs[th], ev)
}

// scribble overwrites what was handed out: later results must not change
func (ev *ev4) scribble() {
	for i, x := range ev.got {
		if x != nil {
			x.v = 12345
		}
		ev.got[i] = nil
	}
}

// check compares everything that was observed with the sequences
func (e *env4) check(seqCheck bool) string {
	pre := map[int64]int{} // number of successful prepopulations
	for _, l := range e.logs {
		for _, ev := range l {
			if ev.op == 'p' && !ev.panicked {
				pre[ev.key]++
			}
		}
	}
	for th, l := range e.logs {
		for i, ev := range l {
			want := refSeq[ev.key]
			if pre[ev.key] > 0 {
				want = append(append([]uint64{}, prefill...), want...)
			}
			switch ev.op {
			case 'g':
				if ev.panicked {
					return fmt.Sprintf("goroutine %d, request %d for %d elements of key %d panics", th, i, ev.n, ev.key)
				}
				fallthrough
			case 'x':
				if ev.panicked {
					continue
				}
				if len(ev.vals) != ev.n {
					return fmt.Sprintf("goroutine %d, request %d: got %d elements of key %d instead of %d", th, i, len(ev.vals), ev.key, ev.n)
				}
				for j, v := range ev.vals {
					if v != want[j] {
						return fmt.Sprintf("goroutine %d, request %d for %d elements of key %d: element %d is %x, expected %x", th, i, ev.n, ev.key, j, v, want[j])
					}
				}
			}
		}
	}
	for th, l := range e.logs {
		for _, ev := range l {
			if ev.op != 'p' || !ev.panicked {
				continue
			}
			others := 0
			for _, l := range e.logs[:3] {
				for _, o := range l {
					if o != ev && o.key == ev.key && (o.op == 'p' || o.n > 0) {
						others++
					}
				}
			}
			if others == 0 {
				return fmt.Sprintf("goroutine %d: prepopulation of key %d, which nobody else uses, is refused", th, ev.key)
			}
		}
	}
	for k, n := range pre {
		if n > 1 {
			return fmt.Sprintf("key %d was prepopulated %d times", k, n)
		}
	}
	return ""
}

// final requests everything once more, one after the other
func (e *env4) final(keys int64) {
	for k := int64(0); k < keys; k++ {
		e.get(3, k, 6, 0)
		e.get(3, k, 1, 0)
	}
}

type op4 struct {
	name string
	do   func(e *env4, th int)
	late bool // in the quick run, only alone and in sequential histories
}

func ops4(level int) (out []op4) {
	g := func(k int64, n int) {
		out = append(out, op4{name: fmt.Sprintf("get(%d,%d)", k, n), do: func(e *env4, th int) { e.get(th, k, n, 0).scribble() }})
	}
	g(0, 1)
	g(0, 3)
	g(1, 2)
	out = append(out, op4{name: "failing get(0,2)", do: func(e *env4, th int) { e.get(th, 0, 2, 1).scribble() }})
	out = append(out, op4{name: "get(0,4) failing at its third element", do: func(e *env4, th int) { e.get(th, 0, 4, 3).scribble() }, late: true})
	out = append(out, op4{name: "prepopulate(0)", do: func(e *env4, th int) { e.prepopulate(th, 0, prefill) }})
	if level > 0 {
		g(0, 0)
		g(0, 2)
		g(0, 5)
		out = append(out, op4{name: "prepopulate(1)", do: func(e *env4, th int) { e.prepopulate(th, 1, prefill) }})
	}
	return
}

func i04(thorough bool) (out []scen) {
	out = i04user(thorough)
	level := 0
	if thorough {
		level = 1
	}
	ops := ops4(level)
	// two goroutines with two operations each / one against two; every combination of operations
	type prog []op4
	var ps []prog
	for _, a := range ops {
		ps = append(ps, prog{a})
	}
	for i, a := range ops {
		for j, b := range ops {
			if thorough || (i+j)%2 == 0 && !a.late && !b.late {
				ps = append(ps, prog{a, b})
			}
		}
	}
	name := func(p prog) (s string) {
		for _, o := range p {
			s += o.name + ";"
		}
		return
	}
	mk := func(progs ...prog) func() ([]func(), func() string) {
		return func() ([]func(), func() string) {
			e := newEnv4(self4)
			var fs []func()
			for th, p := range progs {
				th, p := th, p
				fs = append(fs, func() {
					for _, o := range p {
						o.do(e, th)
					}
				})
			}
			return fs, func() string {
				e.final(2)
				return e.check(false)
			}
		}
	}
	// sequential histories (no concurrency: one goroutine)
	depth := 4
	if thorough {
		depth = 5
	}
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(ops)
	}
	out = append(out, scen{name: fmt.Sprintf("all histories of %d operations", depth), bound: [2]int{0, 0}, parts: [2]int{1, 1}, setup: func() ([]func(), func() string) {
		return []func(){func() {}}, func() string {
			for h := 0; h < n; h++ {
				e := newEnv4(func() int { return 0 })
				x, hist := h, ""
				for d := 0; d < depth; d++ {
					ops[x%len(ops)].do(e, 0)
					hist += ops[x%len(ops)].name + "; "
					x /= len(ops)
				}
				e.self = func() int { return 3 }
				e.final(2)
				if bad := e.check(true); bad != "" {
					return hist + bad
				}
				if bad := e.seqCheck(); bad != "" {
					return hist + bad
				}
			}
			return ""
		}
	}})
	for v := 0; v < 12; v++ {
		v := v
		out = append(out, scen{name: fmt.Sprintf("configuration %d of the cache, many keys and sizes", v), bound: [2]int{0, 0}, parts: [2]int{1, 1}, setup: func() ([]func(), func() string) {
			return []func(){func() {}}, func() string { return config4(v, thorough) }
		}})
	}
	out = append(out, scen{name: "keys and elements of all kinds of types", bound: [2]int{0, 0}, parts: [2]int{1, 1}, setup: func() ([]func(), func() string) {
		return []func(){func() {}}, func() (bad string) {
			defer func() {
				if x := recover(); x != nil {
					bad = fmt.Sprintf("panic %v", x)
				}
			}()
			for _, f := range keys4 {
				if s := f(); s != "" {
					return s
				}
			}
			return ""
		}
	}})
	for i, p := range ps {
		for _, q := range ps[:i+1] {
			b, bt := 2, 2
			switch len(p) + len(q) {
			case 2:
				b, bt = 3, 4
			case 3:
				bt = 3
			}
			out = append(out, scen{name: name(p) + " || " + name(q), bound: [2]int{b, bt}, stmts: [2]bool{true, true}, parts: [2]int{1, 1}, setup: mk(p, q)})
		}
	}
	// three goroutines
	for i, a := range ops {
		for j, b := range ops[:i+1] {
			for _, c := range ops[:j+1] {
				if !thorough && (a.late || b.late || c.late) {
					continue
				}
				out = append(out, scen{name: a.name + " || " + b.name + " || " + c.name, bound: [2]int{2, 2}, stmts: [2]bool{true, true}, parts: [2]int{1, 1}, setup: mk(prog{a}, prog{b}, prog{c})})
			}
		}
	}
	return
}

// seqCheck: in a sequential history, prepopulation succeeds exactly if the key was never used
func (e *env4) seqCheck() string {
	used := map[int64]bool{}
	for i, ev := range e.logs[0] {
		switch ev.op {
		case 'p':
			if ev.panicked != used[ev.key] {
				return fmt.Sprintf("operation %d: prepopulation of key %d (used before: %v): refused: %v", i, ev.key, used[ev.key], ev.panicked)
			}
			used[ev.key] = true
		default:
			if ev.n > 0 {
				used[ev.key] = true
			}
		}
	}
	return ""
}

// config4: caches with all combinations of missing functions; requests of many sizes, many keys, prepopulation with slices that have room left
func config4(v int, thorough bool) (bad string) {
	defer func() {
		if x := recover(); x != nil && bad == "" {
			bad = fmt.Sprintf("panic %v", x)
		}
	}()
	var seed func(int64) *rand.Rand
	rng := func(k int64) *rand.Rand { return nil }
	switch v % 3 {
	case 1:
		seed, rng = tu.DefaultCreateRandFromSeed, func(k int64) *rand.Rand { return rand.New(rand.NewSource(k)) }
	case 2:
		seed, rng = newRng4, newRng4
	}
	var create func(*rand.Rand, int64) uint64
	made := map[int64]uint64{}
	if v/3%2 == 0 {
		create = func(r *rand.Rand, k int64) uint64 {
			made[k]++
			if r == nil {
				return made[k] << 8
			}
			return r.Uint64() ^ uint64(k)
		}
	}
	var copied int
	var cpf func(uint64) uint64
	if v/6 == 0 {
		cpf = func(x uint64) uint64 { copied++; return x }
	}
	c := tu.MakePrecomputedCache(seed, create, cpf)
	if (seed == nil) == (v%3 != 0) {
		return "harness error"
	}
	want := func(k int64, pre []uint64, n int) []uint64 {
		l := append([]uint64{}, pre...)
		r := rng(k)
		for i := uint64(1); len(l) < n; i++ {
			if r == nil {
				l = append(l, i<<8)
			} else {
				l = append(l, r.Uint64()^uint64(k))
			}
		}
		return l[:n]
	}
	sizes := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 129, 255, 256, 257, 300}
	keys := int64(40)
	if thorough {
		keys = 300
		sizes = append(sizes, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 5000)
	}
	// order of sizes: ascending, descending, mixed, depending on the key
	get := func(k int64, pre []uint64, n int, what string) string {
		var got []uint64
		panicked := func() (p bool) {
			defer func() { p = recover() != nil }()
			got = c.GetElements(k, n)
			return
		}()
		if must := create == nil && n > len(pre); panicked != must {
			return fmt.Sprintf("%s: request for %d elements of key %d: panics: %v, expected %v", what, n, k, panicked, must)
		} else if must {
			return ""
		}
		w := want(k, pre, n)
		if len(got) != n || got == nil {
			return fmt.Sprintf("%s: request for %d elements of key %d gives %d", what, n, k, len(got))
		}
		for i := range got {
			if got[i] != w[i] {
				return fmt.Sprintf("%s: request for %d elements of key %d: element %d is %x, expected %x", what, n, k, i, got[i], w[i])
			}
			got[i] = 3
		}
		return ""
	}
	for k := int64(-keys / 2); k < keys; k++ {
		var pre []uint64
		if k%3 == 0 {
			m := sizes[int(k+keys)%len(sizes)]
			room := make([]uint64, m, m+10)
			for i := range room {
				room[i] = uint64(i)*7 + uint64(k)
			}
			pre = append(pre, room...)
			c.PrepopulateCache(k, room)
			for i := range room[:cap(room)] {
				room[:cap(room)][i] = 5
			}
		}
		for i := range sizes {
			n := sizes[i]
			switch k & 3 {
			case 1:
				n = sizes[len(sizes)-1-i]
			case 2:
				n = sizes[i*7%len(sizes)]
			}
			if s := get(k, pre, n, "first"); s != "" {
				return s
			}
		}
		func() {
			defer func() { recover() }()
			c.PrepopulateCache(k, []uint64{1})
			bad = fmt.Sprintf("key %d can be prepopulated after use", k)
		}()
		if bad != "" {
			return
		}
	}
	for k := keys - 1; k > -keys/2; k-- {
		if k%3 == 0 {
			continue
		}
		for _, n := range []int{3, 300, 1} {
			if s := get(k, nil, n, "again"); s != "" {
				return s
			}
		}
	}
	if cpf != nil && create != nil && copied == 0 {
		return "elements are handed out without copying"
	}
	return ""
}
