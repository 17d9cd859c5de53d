//go:build go1.22

package main

import (
	"fmt"
	"sort"
	"strings"

	cc "github.com/GottfriedHerold/Bandersnatch/internal/callcounters"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

const nCC = 3

type mnode struct {
	exists, init, display, root, rem bool
	name                             string
	sub                              []int // children; -1: the implicit "other" child
	rec                              [nCC]int
	direct                           int
}
type mreg [nCC]mnode

func (m mreg) clone() mreg {
	for i := range m {
		m[i].sub = append([]int(nil), m[i].sub...)
	}
	return m
}
func (m mreg) key() string { return fmt.Sprintf("%v", [nCC]mnode(m)) }

// modified count: own increments times the total weight of all paths
func (m *mreg) count(x int) int {
	sum := m[x].direct
	for s := x + 1; s < nCC; s++ { // links go from later to earlier counters only
		sum += m[s].rec[x] * m.count(s)
	}
	return sum
}
func (m *mreg) other(x int) int {
	o := m.count(x)
	for _, c := range m[x].sub {
		if c >= 0 {
			o -= m.count(c)
		}
	}
	return o
}

func (m *mreg) touch(x int) *mnode { m[x].exists = true; return &m[x] }

type ccop struct {
	name string
	mod  func(m *mreg) (panics bool)
	do   func(id func(int) cc.Id)
	uses []int
}

func letter(i int) string {
	if i < 0 {
		return "-"
	}
	return string(rune('A' + i))
}

func ccOps() (ops []ccop) {
	add := func(name string, mod func(m *mreg) bool, do func(id func(int) cc.Id)) {
		ops = append(ops, ccop{name: name, mod: mod, do: do})
	}
	for x := 0; x < nCC; x++ {
		x := x
		for p := -1; p < x; p++ {
			p := p
			for _, nm := range []string{"", "nm" + letter(x)} {
				nm := nm
				if nm != "" && p >= 0 && p != x-1 {
					continue
				}
				add(fmt.Sprintf("Hierarchical(%v,%q,%v)", letter(x), nm, letter(p)), func(m *mreg) bool {
					if m[x].init {
						return true
					}
					n := m.touch(x)
					n.init, n.display, n.root = true, true, p < 0
					n.name = nm
					if nm == "" {
						n.name = "@" + letter(x)
					}
					if p >= 0 {
						if !m[p].exists {
							q := m.touch(p)
							q.display, q.root, q.name = true, true, "@"+letter(p)+"(dummy)"
						}
						m[p].sub = append(m[p].sub, x)
						m[x].rec[p]++
					}
					return false
				}, func(id func(int) cc.Id) { cc.CreateHierarchicalCallCounter(id(x), nm, id(p)) })
			}
			for v := 0; v < 2; v++ {
				disp, root, nm := v == 0, v == 1, [2]string{"", "xx" + letter(x)}[v]
				add(fmt.Sprintf("New(%v,%q,%v,%v,%v)", letter(x), nm, disp, letter(p), root), func(m *mreg) bool {
					if m[x].init {
						return true
					}
					n := m.touch(x)
					n.init, n.display, n.root, n.name = true, disp, root, nm
					if nm == "" {
						n.name = "@" + letter(x)
					}
					if p >= 0 {
						m.touch(p).sub = append(m[p].sub, x)
					}
					return false
				}, func(id func(int) cc.Id) { cc.CreateNewCallCounter(id(x), nm, disp, id(p), root) })
			}
			add(fmt.Sprintf("Attached(%v,%v)", letter(x), letter(p)), func(m *mreg) bool {
				if m[x].init {
					return true
				}
				n := m.touch(x)
				n.init, n.display, n.root, n.name = true, true, false, "at"+letter(x)
				if p >= 0 {
					q := m.touch(p)
					q.sub = append(q.sub, x)
					if !q.rem {
						q.rem = true
						q.sub = append(q.sub, -1)
					}
				}
				return false
			}, func(id func(int) cc.Id) { cc.CreateAttachedCallCounter(id(x), "at"+letter(x), id(p)) })
		}
		for _, on := range []bool{true, false} {
			on := on
			add(fmt.Sprintf("SetDisplayRemaining(%v,%v)", letter(x), on), func(m *mreg) bool {
				n := m.touch(x)
				if n.rem == on {
					return false
				}
				n.rem = on
				if on {
					n.sub = append(n.sub, -1)
				} else {
					var s []int
					for _, c := range n.sub {
						if c >= 0 {
							s = append(s, c)
						}
					}
					n.sub = s
				}
				return false
			}, func(id func(int) cc.Id) { id(x).SetDisplayRemaining(on) })
		}
		for y := 0; y < x; y++ {
			y := y
			for _, mult := range []int{1, -1} {
				mult := mult
				add(fmt.Sprintf("%v.AddThisToTarget(%v,%d)", letter(x), letter(y), mult), func(m *mreg) bool {
					m.touch(x)
					m.touch(y)
					m[x].rec[y] += mult
					return false
				}, func(id func(int) cc.Id) { id(x).AddThisToTarget(id(y), mult) })
			}
			add(fmt.Sprintf("%v.AddToThisFromSource(%v,2)", letter(y), letter(x)), func(m *mreg) bool {
				m.touch(x)
				m.touch(y)
				m[x].rec[y] += 2
				return false
			}, func(id func(int) cc.Id) { id(y).AddToThisFromSource(id(x), 2) })
		}
		add(fmt.Sprintf("Increment(%v)", letter(x)), func(m *mreg) bool {
			if !m[x].init {
				return true
			}
			m[x].direct++
			return false
		}, func(id func(int) cc.Id) { id(x).Increment() })
		add(fmt.Sprintf("Reset(%v)", letter(x)), func(m *mreg) bool {
			m.touch(x).direct = 0
			return false
		}, func(id func(int) cc.Id) { id(x).Reset() })
	}
	add("ResetAll", func(m *mreg) bool {
		for i := range m {
			m[i].direct = 0
		}
		return false
	}, func(id func(int) cc.Id) { cc.ResetAllCounters() })
	return
}

var ccSerial int

func i01(r *vk.Run) {
	ops := ccOps()
	depth, limit := 5, 400000
	if r.Thorough {
		depth, limit = 7, 6000000
	}
	if !canReset {
		depth = 2
	}
	r.Extra("depth", depth)
	r.Extra("operations", len(ops))
	r.Extra("registry_reset", canReset)
	seen := map[string]bool{}
	type node struct {
		m    mreg
		path []int
	}
	front := []node{{}}
	total := 0
	for d := 0; d < depth && !r.Expired(); d++ {
		// expand the model
		type tr struct {
			path   []int
			after  mreg
			panics bool
		}
		var trs []tr
		var next []node
		for _, n := range front {
			for oi := range ops {
				m := n.m.clone()
				p := ops[oi].mod(&m)
				path := append(append([]int(nil), n.path...), oi)
				trs = append(trs, tr{path, m, p})
				if k := m.key(); !seen[k] {
					seen[k] = true
					next = append(next, node{m, path})
				}
			}
		}
		total += len(trs)
		if total > limit && d > 2 {
			r.Extra("depth", d)
			break
		}
		const chunk = 256
		r.EachN(1, (len(trs)+chunk-1)/chunk, func(i int) string { return fmt.Sprintf("depth %d/%d", d+1, i) }, func(t *vk.T, i int) {
			for _, x := range trs[i*chunk : min((i+1)*chunk, len(trs))] {
				desc := func() string {
					s := ""
					for _, o := range x.path {
						s += ops[o].name + "; "
					}
					return s
				}
				resetCounters()
				ccSerial++
				prefix := ""
				if !canReset {
					prefix = fmt.Sprintf("vk%d_", ccSerial)
				}
				id := func(i int) cc.Id {
					if i < 0 {
						return ""
					}
					return cc.Id(prefix + letter(i))
				}
				var cur mreg
				for k, o := range x.path {
					exp := ops[o].mod(&cur)
					did, val := vk.Panics(func() { ops[o].do(id) })
					if did != exp {
						t.Failf("%s: step %d: panic=%v (%v), expected %v", desc(), k+1, did, val, exp)
					}
				}
				t.Eval(1)
				t.Trans(1)
				t.Trace(1)
				t.State(x.after.key())
				observeCC(t, &x.after, id, prefix, desc)
				if t.Failed() {
					return
				}
				if i == 0 {
					t.Sample(desc())
				}
			}
		})
		front = next
	}
	i01structure(r, ops)
	i01scale(r)
}

// i01structure: longer histories of creation and attachment only; all counters are incremented (a different number of times) at the end
func i01structure(r *vk.Run, ops []ccop) {
	if !canReset {
		return
	}
	for nc := 2; nc <= nCC; nc++ {
		limit := 60000
		if r.Thorough {
			limit = 3000000
		}
		var sops []ccop
		for _, o := range ops {
			if strings.HasPrefix(o.name, "Increment") || strings.HasPrefix(o.name, "Reset") || strings.Contains(o.name, `"nm`) || nc == 2 && strings.Contains(o.name, "C") {
				continue
			}
			sops = append(sops, o)
		}
		type node struct {
			m    mreg
			path []int
		}
		seen := map[string]bool{}
		front := []node{{}}
		total := 0
		for d := 1; !r.Expired(); d++ {
			var next, all []node
			for _, n := range front {
				for oi := range sops {
					m := n.m.clone()
					path := append(append([]int(nil), n.path...), oi)
					if sops[oi].mod(&m) {
						continue // refused; part of the other exploration
					}
					all = append(all, node{m, path})
					if k := m.key(); !seen[k] {
						seen[k] = true
						next = append(next, node{m, path})
					}
				}
			}
			total += len(all)
			if total > limit || d > 9 {
				break
			}
			r.Extra(fmt.Sprintf("structure_depth_%d_counters", nc), d)
			const chunk = 256
			r.EachN(1, (len(all)+chunk-1)/chunk, func(i int) string { return fmt.Sprintf("structure %d/%d/%d", nc, d, i) }, func(t *vk.T, i int) {
				for _, x := range all[i*chunk : min((i+1)*chunk, len(all))] {
					resetCounters()
					id := func(i int) cc.Id {
						if i < 0 {
							return ""
						}
						return cc.Id(letter(i))
					}
					desc := func() string {
						s := ""
						for _, o := range x.path {
							s += sops[o].name + "; "
						}
						return s + "increments"
					}
					for _, o := range x.path {
						if did, val := vk.Panics(func() { sops[o].do(id) }); did {
							t.Failf("%s: %v panics: %v", desc(), sops[o].name, val)
						}
					}
					m := x.m.clone()
					for k, n := range [nCC]int{1, 3, 7} {
						if m[k].init {
							for ; n > 0; n-- {
								id(k).Increment()
								m[k].direct++
							}
						}
					}
					t.Eval(1)
					t.Trans(1)
					t.Trace(1)
					t.State("structure", m.key())
					observeCC(t, &m, id, "", desc)
					if t.Failed() {
						return
					}
				}
			})
			front = next
		}
	}
}

type rnode struct {
	label string
	kids  []*rnode
}

func (n *rnode) canon() string {
	var ks []string
	for _, k := range n.kids {
		ks = append(ks, k.canon())
	}
	sort.Strings(ks)
	return n.label + "(" + strings.Join(ks, ",") + ")"
}
func canonAll(ns []*rnode) string {
	var ks []string
	for _, k := range ns {
		ks = append(ks, k.canon())
	}
	sort.Strings(ks)
	return strings.Join(ks, " | ")
}

func observeCC(t *vk.T, m *mreg, id func(int) cc.Id, prefix string, desc func() string) {
	dn := func(name string) string { return strings.ReplaceAll(name, "@", prefix) }
	for x := 0; x < nCC; x++ {
		var v int
		var ok bool
		if did, val := vk.Panics(func() { v, ok = id(x).Get() }); did {
			t.Failf("%s: %v.Get() panics: %v", desc(), letter(x), val)
			continue
		}
		if !m[x].exists && ok {
			t.Failf("%s: %v.Get() = %v, true for an unknown counter", desc(), letter(x), v)
		}
		if m[x].init && !ok || ok && v != m.count(x) {
			t.Failf("%s: %v.Get() = %v, %v, expected %v", desc(), letter(x), v, ok, m.count(x))
		}
		if got := id(x).Exists(); got != m[x].init {
			t.Failf("%s: %v.Exists() = %v", desc(), letter(x), got)
		}
	}
	if prefix != "" { // the registry also contains the counters of other histories
		return
	}
	// reports with counts
	for v := 0; v < 4; v++ {
		onlyPos, useName := v&1 > 0, v&2 > 0
		var build func(x, parent int) *rnode
		build = func(x, parent int) *rnode {
			if x < 0 {
				o := m.other(parent)
				if onlyPos && o == 0 {
					return nil
				}
				l := prefix + letter(parent) + "Other"
				if useName {
					l = prefix + letter(parent) + "(other)"
				}
				return &rnode{label: fmt.Sprintf("%v=%d", l, o)}
			}
			c := m.count(x)
			if !m[x].display || onlyPos && c == 0 {
				return nil
			}
			l := prefix + letter(x)
			if useName {
				l = dn(m[x].name)
			}
			n := &rnode{label: fmt.Sprintf("%v=%d", l, c)}
			for _, k := range m[x].sub {
				if q := build(k, x); q != nil {
					n.kids = append(n.kids, q)
				}
			}
			return n
		}
		// the report is flat: the sequence must be a preorder of the trees (roots and siblings in any order)
		var want []*rnode
		for x := range m {
			if m[x].exists && m[x].root {
				if q := build(x, -1); q != nil {
					want = append(want, q)
				}
			}
		}
		var got []string
		for _, e := range cc.ReportCallCounters(onlyPos, useName) {
			got = append(got, fmt.Sprintf("%v=%d", e.Tag, e.Calls))
			if c, ok := e.CC.Get(); !ok || c != e.Calls {
				if !strings.Contains(e.Tag, "ther") {
					t.Failf("%s: report of %v says %d, counter says %d", desc(), e.Tag, e.Calls, c)
				}
			}
		}
		if !preorder(got, want) {
			t.Failf("%s: report(onlyPositive=%v, names=%v) is %v, expected a preorder of %v", desc(), onlyPos, useName, got, canonAll(want))
		}
	}
	// structure
	var build func(x, parent int, hidden bool, seen map[int]bool) *rnode
	build = func(x, parent int, hidden bool, seen map[int]bool) *rnode {
		if x < 0 {
			l := prefix + letter(parent) + "Other"
			if hidden {
				l += " (recursively hidden)"
			}
			return &rnode{label: l}
		}
		seen[x] = true
		l := prefix + letter(x)
		h := hidden
		if !m[x].display {
			l += " (hidden)"
			h = true
		} else if hidden {
			l += " (recursively hidden)"
		}
		if !m[x].init {
			l += " (counter was only refered to, never actually created)"
		}
		n := &rnode{label: l}
		for _, k := range m[x].sub {
			n.kids = append(n.kids, build(k, x, h, seen))
		}
		return n
	}
	seen := map[int]bool{}
	var want, unseen []*rnode
	for x := range m {
		if m[x].exists && m[x].root {
			want = append(want, build(x, -1, false, seen))
		}
	}
	for x := range m {
		if m[x].exists && !seen[x] {
			l := prefix + letter(x)
			if !m[x].display {
				l += " (hidden)"
			}
			if !m[x].init {
				l += " (counter was only refered to, never actually created)"
			}
			unseen = append(unseen, &rnode{label: l})
		}
	}
	rep := cc.GetCallCounterStructureReport("\t")
	var roots, below []*rnode
	var stack []*rnode
	part2 := false
	for _, l := range strings.Split(strings.TrimSuffix(rep, "\n"), "\n") {
		if l == "" {
			continue
		}
		if l == "Call counters not below any display root node" {
			part2 = true
			continue
		}
		d := 0
		for strings.HasPrefix(l[d:], "\t") {
			d++
		}
		n := &rnode{label: l[d:]}
		if part2 {
			below = append(below, n)
			continue
		}
		if d > len(stack) {
			t.Failf("%s: structure report is not a tree:\n%s", desc(), rep)
			return
		}
		stack = append(stack[:d], n)
		if d == 0 {
			roots = append(roots, n)
		} else {
			stack[d-1].kids = append(stack[d-1].kids, n)
		}
	}
	if canonAll(roots) != canonAll(want) || canonAll(below) != canonAll(unseen) {
		t.Failf("%s: structure report is\n%sexpected %v; not below roots: %v", desc(), rep, canonAll(want), canonAll(unseen))
	}
}

// preorder: is got a preorder listing of the forest, for some order of the roots and of all siblings?
func preorder(got []string, forest []*rnode) bool {
	rest := matchForest(got, forest)
	for _, r := range rest {
		if len(r) == 0 {
			return true
		}
	}
	return false
}

// matchForest returns the possible remainders after listing the whole forest
func matchForest(got []string, forest []*rnode) (rests [][]string) {
	if len(forest) == 0 {
		return [][]string{got}
	}
	for i, n := range forest {
		if len(got) == 0 || got[0] != n.label {
			continue
		}
		others := append(append([]*rnode(nil), forest[:i]...), forest[i+1:]...)
		for _, r := range matchForest(got[1:], n.kids) {
			rests = append(rests, matchForest(r, others)...)
		}
	}
	return
}

// i01scale: regular structures of many sizes, built through identifiers or through the counters themselves, in both orders of creation
func i01scale(r *vk.Run) {
	if !canReset {
		return
	}
	sizes := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 64, 65, 100, 129}
	if r.Thorough {
		for n := 18; n <= 70; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 127, 128, 255, 256, 257, 513)
	}
	type edge struct{ from, to, mult int }
	type g struct {
		name   string
		nodes  int
		parent []int  // display parent of each node, -1: root
		edges  []edge // adds-to relation
		other  int    // a node that shows the remaining count (-1: none)
	}
	gens := []func(n int) g{
		func(n int) g { // a chain
			x := g{name: "chain", nodes: n, other: -1}
			for i := 0; i < n; i++ {
				x.parent = append(x.parent, i-1)
				if i > 0 {
					x.edges = append(x.edges, edge{i, i - 1, 1})
				}
			}
			return x
		},
		func(n int) g { // a star
			x := g{name: "star", nodes: n + 1, parent: []int{-1}, other: 0}
			for i := 1; i <= n; i++ {
				x.parent = append(x.parent, 0)
				x.edges = append(x.edges, edge{i, 0, 1})
			}
			return x
		},
		func(n int) g { // a binary tree
			x := g{name: "tree", nodes: n, parent: []int{-1}, other: n / 3}
			for i := 1; i < n; i++ {
				x.parent = append(x.parent, (i-1)/2)
				x.edges = append(x.edges, edge{i, (i - 1) / 2, 1})
			}
			return x
		},
		func(n int) g { // a chain with corrections: i also subtracts from or adds to its grandparent
			x := g{name: "corrections", nodes: n, other: -1}
			for i := 0; i < n; i++ {
				x.parent = append(x.parent, i-1)
				if i > 0 {
					x.edges = append(x.edges, edge{i, i - 1, 1})
				}
				if i > 1 && i < 11 {
					x.edges = append(x.edges, edge{i, i - 2, 1 - 2*(i%2)})
				}
			}
			return x
		},
		func(n int) g { // many links between two counters
			x := g{name: "multiplicity", nodes: 2, parent: []int{-1, -1}, other: -1}
			for i := 0; i < n; i++ {
				x.edges = append(x.edges, edge{1, 0, i - n/3})
			}
			return x
		},
		func(n int) g { // separate roots
			x := g{name: "roots", nodes: n, other: -1}
			for i := 0; i < n; i++ {
				x.parent = append(x.parent, -1)
			}
			return x
		},
	}
	r.EachN(1, len(sizes)*len(gens), func(i int) string { return fmt.Sprintf("scale/%s/%d", gens[i%len(gens)](2).name, sizes[i/len(gens)]) }, func(t *vk.T, i int) {
		x := gens[i%len(gens)](sizes[i/len(gens)])
		for v := 0; v < 8 && !t.Failed(); v++ {
			resetCounters()
			byPtr, rev, linked := v&1 > 0, v&2 > 0, v&4 > 0
			id := func(k int) cc.Id { return cc.Id(fmt.Sprintf("c%d", k)) }
			what := fmt.Sprintf("%s of size %d (variant %d)", x.name, sizes[i/len(gens)], v)
			ptr := make([]*cc.CallCounter, x.nodes)
			hier := map[[2]int]bool{}
			create := func(k int) {
				p := cc.Id("")
				if x.parent[k] >= 0 {
					p = id(x.parent[k])
				}
				if linked {
					ptr[k] = cc.CreateNewCallCounter(id(k), "", true, p, p == "")
				} else {
					ptr[k] = cc.CreateHierarchicalCallCounter(id(k), "", p)
					hier[[2]int{k, x.parent[k]}] = true
				}
			}
			for k := 0; k < x.nodes; k++ {
				if rev {
					create(x.nodes - 1 - k)
				} else {
					create(k)
				}
			}
			for _, e := range x.edges {
				h := [2]int{e.from, e.to}
				if hier[h] && e.mult == 1 {
					delete(hier, h)
					continue
				}
				var res *cc.CallCounter
				exp := ptr[e.from]
				switch {
				case byPtr && rev:
					res = ptr[e.to].AddToThisFromSource(id(e.from), e.mult)
					exp = ptr[e.to]
				case byPtr:
					res = ptr[e.from].AddThisToTarget(id(e.to), e.mult)
				case rev:
					res = id(e.to).AddToThisFromSource(id(e.from), e.mult)
					exp = ptr[e.to]
				default:
					res = id(e.from).AddThisToTarget(id(e.to), e.mult)
				}
				if res != exp {
					t.Failf("%s: adding a link does not return the counter it was called on", what)
				}
			}
			direct := make([]int, x.nodes)
			check := func(when string) {
				// count what each counter's own calls add to every counter
				want := append([]int(nil), direct...)
				for k := x.nodes - 1; k >= 0; k-- { // links go from later to earlier counters
					for _, e := range x.edges {
						if e.from == k {
							want[e.to] += e.mult * want[k]
						}
					}
				}
				for k := 0; k < x.nodes; k++ {
					if x.nodes > 20 && k > 3 && k < x.nodes-3 && k%(x.nodes/8) > 0 {
						continue // each query visits all counters
					}
					a, ok := id(k).Get()
					b, ok2 := ptr[k].Get()
					t.Eval(1)
					if !ok || !ok2 || a != want[k] || b != want[k] {
						t.Failf("%s, %s: counter %d is %d (%v), through the pointer %d (%v), expected %d", what, when, k, a, ok, b, ok2, want[k])
						return
					}
				}
				sum := 0
				for k := range want {
					if x.parent[k] == x.other {
						sum += want[k]
					}
				}
				seen := map[string]int{}
				for _, e := range cc.ReportCallCounters(false, false) {
					seen[e.Tag] = seen[e.Tag] + 1
					var k int
					if n, _ := fmt.Sscanf(e.Tag, "c%d", &k); n == 1 && e.Tag == string(id(k)) && e.Calls != want[k] {
						t.Failf("%s, %s: report says %s=%d, expected %d", what, when, e.Tag, e.Calls, want[k])
					}
					if x.other >= 0 && e.Tag == string(id(x.other))+"Other" && e.Calls != want[x.other]-sum {
						t.Failf("%s, %s: report says %s=%d, expected %d", what, when, e.Tag, e.Calls, want[x.other]-sum)
					}
				}
				for k := 0; k < x.nodes; k++ {
					if seen[string(id(k))] != 1 {
						t.Failf("%s, %s: counter %d appears %d times in the report", what, when, k, seen[string(id(k))])
					}
				}
				if x.other >= 0 && seen[string(id(x.other))+"Other"] != 1 && when != "first" && when != "unset" {
					t.Failf("%s, %s: the remaining count of %d appears %d times", what, when, x.other, seen[string(id(x.other))+"Other"])
				}
				t.State(what, when)
			}
			for k := range direct {
				for c := 0; c <= k%3; c++ {
					id(k).Increment()
					direct[k]++
					t.Trans(1)
				}
			}
			check("first")
			if x.other >= 0 {
				if byPtr {
					ptr[x.other].SetDisplayRemaining(true)
				} else {
					id(x.other).SetDisplayRemaining(true)
				}
			}
			check("with remaining")
			for c := 0; c < 70000; c++ {
				id(x.nodes - 1).Increment()
			}
			direct[x.nodes-1] += 70000
			check("many calls")
			if byPtr {
				ptr[x.nodes/2].Reset()
			} else {
				id(x.nodes / 2).Reset()
			}
			direct[x.nodes/2] = 0
			check("one reset")
			id(0).Increment()
			direct[0]++
			if x.other >= 0 {
				ptr[x.other].SetDisplayRemaining(false)
				check("unset")
				id(x.other).SetDisplayRemaining(true)
			}
			check("again")
			cc.ResetAllCounters()
			for k := range direct {
				direct[k] = 0
			}
			check("all reset")
			t.Alive()
		}
	})
	resetCounters()
}
