//go:build go1.22

package main

import (
	"fmt"

	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

// repTable[typ] lists all representatives of all model points of the set in that type
func repTable(ms []mp, level, n int) [][]*rep {
	out := make([][]*rep, n)
	for typ := 0; typ < n; typ++ {
		for _, m := range ms {
			out[typ] = append(out[typ], reps(typ, m, level)...)
		}
	}
	return out
}

// garbage gives a receiver that holds some unrelated valid point
func garbage(typ int) PI {
	p := copyRaw(garbageMaster[typ])
	return p
}

var garbageMaster [nTypes]PI
var garbageModel = mk(vk.BI(5), tN)

func initGarbage() {
	for typ := range garbageMaster {
		garbageMaster[typ] = reps(typ, garbageModel, 0)[0].p
	}
}

// argsOK checks that an argument still is the same point
func argOK(t *vk.T, r *rep, inner PI, what func() string) {
	if !sameRaw(inner, r.p) {
		if s := shows(inner, r.m); s != "" {
			t.Failf("%s: argument %v was changed: %s", what(), r, s)
		}
	}
}

// outcome judges a result: ok tells whether the operation may be performed at all (otherwise it must panic)
func judge(t *vk.T, z PI, did bool, val any, typ int, subArgs bool, want mp, what func() string) {
	must := isSub(typ) && !subArgs || want.inf() && !hasInf(typ)
	switch {
	case must && !did:
		t.Failf("%s: was not refused (expected result %v)", what(), want)
	case must:
	case did:
		t.Failf("%s: panic %v", what(), val)
	default:
		if s := shows(z, want); s != "" {
			t.Failf("%s: %s", what(), s)
		}
	}
}

func p01(r *vk.Run) {
	initGarbage()
	level := 1
	kl := 1
	if r.Thorough {
		level, kl = 2, 2
	}
	ms := models(kset(kl))
	tab := repTable(ms, level, nArgTypes)
	small := repTable(ms, 0, nArgTypes)
	type job struct{ z, x, y int }
	var jobs []job
	for z := 0; z < nTypes; z++ {
		for x := 0; x < nArgTypes; x++ {
			for y := 0; y < nArgTypes; y++ {
				jobs = append(jobs, job{z, x, y})
			}
		}
	}
	// binary operations, separate receiver
	r.Each(len(jobs), func(i int) string {
		j := jobs[i]
		return fmt.Sprintf("binary/%v=%v.%v", typeNames[j.z], typeNames[j.x], typeNames[j.y])
	}, func(t *vk.T, i int) {
		j := jobs[i]
		xs, ys := tab[j.x], tab[j.y]
		if !r.Thorough && (j.x >= nTypes || j.y >= nTypes) {
			xs, ys = small[j.x], small[j.y]
		}
		for _, x := range xs {
			for _, y := range ys {
				t.State(typeNames[j.x], typeNames[j.y], x.m.key(), y.m.key(), x.name, y.name)
				for op := 0; op < 2; op++ {
					xo, xi := x.get()
					yo, yi := y.get()
					z := garbage(j.z)
					var want mp
					var did bool
					var val any
					var what func() string
					if op == 0 {
						want = x.m.add(y.m)
						what = func() string { return fmt.Sprintf("%v.Add(%v, %v)", typeNames[j.z], x, y) }
						did, val = vk.Panics(func() { z.Add(xo, yo) })
					} else {
						want = x.m.msub(y.m)
						what = func() string { return fmt.Sprintf("%v.Sub(%v, %v)", typeNames[j.z], x, y) }
						did, val = vk.Panics(func() { z.Sub(xo, yo) })
					}
					judge(t, z, did, val, j.z, isSub(j.x) && isSub(j.y), want, what)
					argOK(t, x, xi, what)
					argOK(t, y, yi, what)
				}
			}
		}
		n := 2 * len(xs) * len(ys)
		t.Eval(n)
		t.Trans(n)
		t.Trace(n)
	})
	// unary operations and in-place operations
	var ujobs []job
	for z := 0; z < nTypes; z++ {
		for x := 0; x < nArgTypes; x++ {
			ujobs = append(ujobs, job{z, x, 0})
		}
	}
	r.Each(len(ujobs), func(i int) string {
		j := ujobs[i]
		return fmt.Sprintf("unary/%v.%v", typeNames[j.z], typeNames[j.x])
	}, func(t *vk.T, i int) {
		j := ujobs[i]
		for _, x := range tab[j.x] {
			xo, xi := x.get()
			z := garbage(j.z)
			what := func() string { return fmt.Sprintf("%v.Double(%v)", typeNames[j.z], x) }
			did, val := vk.Panics(func() { z.Double(xo) })
			judge(t, z, did, val, j.z, true, x.m.dbl(), what)
			argOK(t, x, xi, what)

			xo, xi = x.get()
			z = garbage(j.z)
			what = func() string { return fmt.Sprintf("%v.Neg(%v)", typeNames[j.z], x) }
			did, val = vk.Panics(func() { z.Neg(xo) })
			judge(t, z, did, val, j.z, isSub(j.x), x.m.neg(), what)
			argOK(t, x, xi, what)

			xo, xi = x.get()
			z = garbage(j.z)
			what = func() string { return fmt.Sprintf("%v.Add(%v, same pointer)", typeNames[j.z], x) }
			did, val = vk.Panics(func() { z.Add(xo, xo) })
			judge(t, z, did, val, j.z, isSub(j.x), x.m.dbl(), what)
			argOK(t, x, xi, what)

			xo, xi = x.get()
			z = garbage(j.z)
			what = func() string { return fmt.Sprintf("%v.Sub(%v, same pointer)", typeNames[j.z], x) }
			did, val = vk.Panics(func() { z.Sub(xo, xo) })
			judge(t, z, did, val, j.z, isSub(j.x), mk(vk.BI(0), tN), what)
			argOK(t, x, xi, what)
			t.Eval(4)
			t.Trans(4)
			t.Trace(4)

			// receiver is one of the arguments
			for _, zr := range tab[j.z] {
				type inpl struct {
					name string
					want mp
					f    func(z, x PI)
					sub  bool
				}
				for _, o := range []inpl{
					{"z.AddEq(x)", zr.m.add(x.m), func(z, x PI) { z.AddEq(x) }, isSub(j.x)},
					{"z.SubEq(x)", zr.m.msub(x.m), func(z, x PI) { z.SubEq(x) }, isSub(j.x)},
					{"z.Add(z,x)", zr.m.add(x.m), func(z, x PI) { z.Add(z, x) }, isSub(j.x)},
					{"z.Add(x,z)", zr.m.add(x.m), func(z, x PI) { z.Add(x, z) }, isSub(j.x)},
					{"z.Sub(z,x)", zr.m.msub(x.m), func(z, x PI) { z.Sub(z, x) }, isSub(j.x)},
					{"z.Sub(x,z)", x.m.msub(zr.m), func(z, x PI) { z.Sub(x, z) }, isSub(j.x)},
				} {
					xo, xi := x.get()
					z := copyRaw(zr.p)
					what := func() string { return fmt.Sprintf("%s with z=%v, x=%v", o.name, zr, x) }
					did, val := vk.Panics(func() { o.f(z, xo) })
					judge(t, z, did, val, j.z, o.sub, o.want, what)
					argOK(t, x, xi, what)
				}
				t.Eval(6)
				t.Trans(6)
				t.Trace(6)
			}
		}
	})
	// everything aliased
	r.Each(nTypes, func(i int) string { return "self/" + typeNames[i] }, func(t *vk.T, typ int) {
		for _, x := range repTable(ms, 2, nTypes)[typ] {
			type self struct {
				name string
				want mp
				f    func(z PI)
			}
			O := mk(vk.BI(0), tN)
			for _, o := range []self{
				{"z.Add(z,z)", x.m.dbl(), func(z PI) { z.Add(z, z) }},
				{"z.AddEq(z)", x.m.dbl(), func(z PI) { z.AddEq(z) }},
				{"z.Sub(z,z)", O, func(z PI) { z.Sub(z, z) }},
				{"z.SubEq(z)", O, func(z PI) { z.SubEq(z) }},
				{"z.Double(z)", x.m.dbl(), func(z PI) { z.Double(z) }},
				{"z.DoubleEq()", x.m.dbl(), func(z PI) { z.DoubleEq() }},
				{"z.Neg(z)", x.m.neg(), func(z PI) { z.Neg(z) }},
				{"z.NegEq()", x.m.neg(), func(z PI) { z.NegEq() }},
				{"z.SetNeutral()", O, func(z PI) { z.SetNeutral() }},
			} {
				z := copyRaw(x.p)
				did, val := vk.Panics(func() { o.f(z) })
				judge(t, z, did, val, typ, true, o.want, func() string { return fmt.Sprintf("%s, z=%v", o.name, x) })
				t.Eval(1)
				t.Trans(1)
				t.Trace(1)
			}
			// the receiver inside an argument of a type unknown to the package
			for ft := nTypes; ft < nArgTypes; ft++ {
				if base(ft) != typ {
					continue
				}
				for _, o := range []struct {
					name string
					want mp
					f    func(z, w PI)
				}{
					{"z.AddEq(wrapped z)", x.m.dbl(), func(z, w PI) { z.AddEq(w) }},
					{"z.SubEq(wrapped z)", O, func(z, w PI) { z.SubEq(w) }},
					{"z.Add(wrapped z,z)", x.m.dbl(), func(z, w PI) { z.Add(w, z) }},
					{"z.Sub(wrapped z,wrapped z)", O, func(z, w PI) { z.Sub(w, w) }},
					{"z.Double(wrapped z)", x.m.dbl(), func(z, w PI) { z.Double(w) }},
					{"z.Neg(wrapped z)", x.m.neg(), func(z, w PI) { z.Neg(w) }},
					{"z.SetFrom(wrapped z)", x.m, func(z, w PI) { z.SetFrom(w) }},
					{"z.Endo(wrapped z)", x.m.endo(), func(z, w PI) { z.Endo(w) }},
				} {
					z := copyRaw(x.p)
					w := wrap(ft, z)
					did, val := vk.Panics(func() { o.f(z, w) })
					judge(t, z, did, val, typ, true, o.want, func() string { return fmt.Sprintf("%s, z=%v, wrapped as %v", o.name, x, typeNames[ft]) })
					t.Eval(1)
					t.Trans(1)
					t.Trace(1)
				}
			}
			t.State("self", x.String())
			t.Sample(x.String())
		}
	})
	p01seq(r)
}

// ---- operation sequences on two registers, in lockstep with the model

type seqOp struct {
	name string
	f    func(a, b PI) string // "" or description of a wrong answer computed by the op itself
	m    func(a, b mp) (mp, mp)
	ok   func(ta, tb int) bool // is the op allowed for these types (regarding subgroups)
}

var both = func(ta, tb int) bool { return true }
var seqOps = []seqOp{
	{"a.AddEq(b)", func(a, b PI) string { a.AddEq(b); return "" }, func(a, b mp) (mp, mp) { return a.add(b), b }, subTo},
	{"b.SubEq(a)", func(a, b PI) string { b.SubEq(a); return "" }, func(a, b mp) (mp, mp) { return a, b.msub(a) }, subToRev},
	{"a.Sub(b,a)", func(a, b PI) string { a.Sub(b, a); return "" }, func(a, b mp) (mp, mp) { return b.msub(a), b }, subTo},
	{"b.Add(a,a)", func(a, b PI) string { b.Add(a, a); return "" }, func(a, b mp) (mp, mp) { return a, a.dbl() }, subToRev},
	{"a.DoubleEq()", func(a, b PI) string { a.DoubleEq(); return "" }, func(a, b mp) (mp, mp) { return a.dbl(), b }, both},
	{"b.Double(a)", func(a, b PI) string { b.Double(a); return "" }, func(a, b mp) (mp, mp) { return a, a.dbl() }, both},
	{"a.NegEq()", func(a, b PI) string { a.NegEq(); return "" }, func(a, b mp) (mp, mp) { return a.neg(), b }, both},
	{"a.EndoEq()", func(a, b PI) string { a.EndoEq(); return "" }, func(a, b mp) (mp, mp) { return a.endo(), b }, both},
	{"b.Endo(a)", func(a, b PI) string { b.Endo(a); return "" }, func(a, b mp) (mp, mp) { return a, a.endo() }, subToRev},
	{"b.SetFrom(a)", func(a, b PI) string { b.SetFrom(a); return "" }, func(a, b mp) (mp, mp) { return a, a }, subToRev},
	{"a.XY_affine()", func(a, b PI) string {
		if a.IsAtInfinity() {
			return ""
		}
		a.XY_affine()
		return ""
	}, func(a, b mp) (mp, mp) { return a, b }, both},
	{"norm(a)", func(a, b PI) string {
		if n, ok := a.(interface{ NormalizeForY() bool }); ok {
			n.NormalizeForY()
		} else if n, ok := a.(interface{ NormalizeForZ() bool }); ok {
			n.NormalizeForZ()
		}
		return ""
	}, func(a, b mp) (mp, mp) { return a, b }, both},
	{"a.XYZ_projective()", func(a, b PI) string { a.XYZ_projective(); return "" }, func(a, b mp) (mp, mp) { return a, b }, both},
	{"swap", nil, func(a, b mp) (mp, mp) { return b, a }, both},
}

func subTo(ta, tb int) bool    { return !isSub(ta) || isSub(tb) }
func subToRev(ta, tb int) bool { return subTo(tb, ta) }

func p01seq(r *vk.Run) {
	depth := 4
	if r.Thorough {
		depth = 6
	}
	type start struct{ a, b *rep }
	g := vk.Generic(101, vk.R)
	var starts []start
	for ta := 0; ta < nTypes; ta++ {
		for tb := 0; tb < nTypes; tb++ {
			pick := func(typ int, full mp, sub mp) *rep {
				m := full
				if isSub(typ) {
					m = sub
				} else if m.inf() && !hasInf(typ) {
					m = mk(m.k, tA)
				}
				rs := reps(typ, m, 0)
				return rs[len(rs)-1]
			}
			starts = append(starts,
				start{pick(ta, mk(g, tA), mk(g, tN)), pick(tb, mk(vk.BI(0), tE1), mk(g, tN))},
				start{pick(ta, mk(vk.BI(0), tE2), mk(vk.BI(0), tN)), pick(tb, mk(g, tE1), mk(vk.BI(-1), tN))},
			)
		}
	}
	r.Extra("sequence_depth", depth)
	r.Each(len(starts), func(i int) string { return fmt.Sprintf("seq/%v/%v", starts[i].a, starts[i].b) }, func(t *vk.T, i int) {
		type node struct {
			a, b   PI
			ta, tb int
			ma, mb mp
			path   string
		}
		s := starts[i]
		front := []node{{copyRaw(s.a.p), copyRaw(s.b.p), s.a.typ, s.b.typ, s.a.m, s.b.m, ""}}
		seen := map[string]bool{}
		for d := 0; d < depth && !t.Failed(); d++ {
			var next []node
			for _, n := range front {
				for _, op := range seqOps {
					if !op.ok(n.ta, n.tb) {
						continue
					}
					a, b := copyRaw(n.a), copyRaw(n.b)
					ma, mb := op.m(n.ma, n.mb)
					nn := node{a, b, n.ta, n.tb, ma, mb, n.path + op.name + ";"}
					if op.f == nil { // swap the roles
						nn.a, nn.b, nn.ta, nn.tb = b, a, n.tb, n.ta
					} else {
						if ma.inf() && !hasInf(n.ta) || mb.inf() && !hasInf(n.tb) {
							continue // refused; covered by the single-step exploration
						}
						did, val := vk.Panics(func() { op.f(a, b) })
						if did {
							t.Failf("from a=%v b=%v: %s: panic %v", s.a, s.b, nn.path, val)
							continue
						}
					}
					t.Eval(1)
					t.Trans(1)
					for k, q := range []struct {
						p PI
						m mp
					}{{nn.a, nn.ma}, {nn.b, nn.mb}} {
						if e := shows(copyRaw(q.p), q.m); e != "" {
							t.Failf("from a=%v b=%v: %s: register %d: %s", s.a, s.b, nn.path, k, e)
						}
					}
					key := typeNames[nn.ta] + typeNames[nn.tb] + string(memOf(nn.a)) + string(memOf(nn.b))
					if !seen[key] {
						seen[key] = true
						t.State(key)
						next = append(next, nn)
					} else {
						t.Trace(1)
					}
				}
			}
			front = next
		}
		t.Trace(len(front))
	})
	p01formulas(r)
}

// p01formulas: the formulas for extended coordinates that the point types keep in reserve, with all aliasings
func p01formulas(r *vk.Run) {
	r.Extra("formulas_checked", haveShim)
	if !haveShim {
		return
	}
	kl := 1
	if r.Thorough {
		kl = 2
	}
	var all, affine []*rep
	for _, m := range models(kset(kl)) {
		rs := reps(xtwF, m, kl)
		all = append(all, rs...)
		if !m.inf() {
			q := copyRaw(rs[0].p)
			q.(interface{ NormalizeForZ() bool }).NormalizeForZ()
			affine = append(affine, &rep{m, xtwF, "Z=1", q})
		}
	}
	formulas := []string{"add_ttt", "sub_ttt", "add_safe_ttt", "sub_safe_ttt", "add_tta", "sub_tta", "sub_tat", "add_taa", "sub_taa"}
	r.Each(len(formulas), func(i int) string { return "formula/" + formulas[i] }, func(t *vk.T, i int) {
		name := formulas[i]
		args := name[len(name)-2:]
		xs, ys := all, all
		if args[0] == 'a' {
			xs = affine
		}
		if args[1] == 'a' {
			ys = affine
		}
		sub, safe := name[:3] == "sub", len(name) > 8
		for _, x := range xs {
			for _, y := range ys {
				want, other := x.m.add(y.m), x.m.msub(y.m)
				if sub {
					want, other = other, want
				}
				if other.inf() && !safe {
					continue // documented as not handled
				}
				for alias := 0; alias < 4; alias++ {
					if alias == 3 && x != y || alias == 1 && args[0] == 'a' || alias == 2 && args[1] == 'a' || alias == 3 && args != "tt" {
						continue
					}
					t.Eval(1)
					var z PI
					did, val := vk.Panics(func() { z = formula(name, copyRaw(x.p), copyRaw(y.p), alias) })
					if did {
						t.Failf("%s(%v, %v) aliasing %d: panic %v", name, x, y, alias, val)
						return
					}
					if s := shows(z, want); s != "" {
						t.Failf("%s(%v, %v) aliasing %d: %s", name, x, y, alias, s)
						return
					}
				}
			}
			t.Alive()
		}
	})
}
