//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"strings"
	"sync/atomic"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

// naps returns invalid points of the given type, in all shapes
func naps(typ int, more bool) (out []*rep) {
	b := base(typ)
	vals := []*big.Int{vk.BI(0), vk.BI(1), scaleM}
	if more {
		vals = append(vals, minus1, scaleN)
	}
	put := func(name string, v ...*big.Int) {
		p := fresh(typ)
		if direct {
			fs := make([]F, len(v))
			for i := range v {
				fs[i] = mkF(v[i], false)
			}
			setFields(p, fieldNames[b], fs)
		}
		out = append(out, &rep{typ: typ, name: "NaP " + name, p: p})
	}
	if !direct {
		put("zero value")
		return
	}
	nm := func(v *big.Int) string {
		if v.BitLen() < 5 {
			return v.String()
		}
		return v.Text(16)[:4]
	}
	O := vk.BI(0)
	for _, u := range vals {
		switch b {
		case axtwF, axtwS:
			put("t="+nm(u), O, O, u)
		case xtwF, xtwS:
			for _, v := range vals {
				put("t="+nm(u)+",z="+nm(v), O, O, u, v)
			}
		default:
			for _, v := range vals {
				put("e="+nm(u)+",g="+nm(v), u, O, v, O)
				put("f="+nm(u)+",h="+nm(v), O, u, O, v)
				put("f="+nm(u)+",g="+nm(v), O, u, v, O)
			}
		}
	}
	return
}

// handler instrumentation (process-wide, so these cases run one at a time)
type hstate struct {
	calls, comparisons, withNap int64
	answer                      bool
	pan                         bool
	inspect                     func() // if any, called first
}

var curH atomic.Pointer[hstate]

func handler(reason string, comparison bool, points ...cp.CurvePointPtrInterfaceBaseRead) bool {
	h := curH.Load()
	atomic.AddInt64(&h.calls, 1)
	if comparison {
		atomic.AddInt64(&h.comparisons, 1)
	}
	for _, p := range points {
		if q, ok := p.(interface{ IsNaP() bool }); ok && q.IsNaP() {
			atomic.AddInt64(&h.withNap, 1)
			break
		}
	}
	if h.inspect != nil {
		f := h.inspect
		h.inspect = nil
		f()
		h.inspect = f
	}
	if h.pan {
		panic("vk handler panic")
	}
	return h.answer
}

func p04(r *vk.Run) {
	initGarbage()
	old := cp.SetNaPErrorHandler(handler)
	defer cp.SetNaPErrorHandler(old)
	curH.Store(&hstate{})
	defer curH.Store(&hstate{})
	valid := models([]*big.Int{vk.BI(0), vk.Generic(101, vk.R)})
	p04report(r, p04nreps(r), repTable(valid, 0, nArgTypes))
	for _, answer := range []bool{false, true} {
		curH.Store(&hstate{answer: answer})
		p04results(r, valid, map[bool]string{true: "handler answers true/"}[answer])
	}
	curH.Store(&hstate{pan: true})
	p04results(r, valid, panPrefix)
}

const panPrefix = "handler panics/"

func p04nreps(r *vk.Run) [][]*rep {
	nreps := make([][]*rep, nArgTypes)
	for typ := range nreps {
		nreps[typ] = naps(typ, r.Thorough)
	}
	return nreps
}

// p04results: invalidity of arguments shows in results, whatever the handler answers to the comparisons made on the way
func p04results(r *vk.Run, valid []mp, prefix string) {
	vreps := repTable(valid, 0, nArgTypes)
	nreps := p04nreps(r)
	mustNap := func(t *vk.T, z PI, did bool, val any, refuse bool, what func() string) {
		t.Eval(1)
		if did && prefix == panPrefix && fmt.Sprint(val) == "vk handler panic" {
			return // the receiver may hold anything; arguments are checked by the caller
		}
		if did {
			if !refuse {
				t.Failf("%s: panic %v", what(), val)
			}
			return
		}
		if !z.IsNaP() {
			t.Failf("%s: gives a point that is not invalid: %s", what(), identify(bigF(z.X_decaf_projective()), bigF(z.Y_decaf_projective()), bigF(z.T_decaf_projective()), bigF(z.Z_decaf_projective())))
		}
	}
	argNap := func(t *vk.T, x *rep, xi PI, what func() string) {
		if !sameRaw(xi, x.p) && !xi.IsNaP() {
			t.Failf("%s: invalid argument became valid", what())
		}
	}
	// binary operations: all argument types, at least one NaP
	type job struct{ z, x, y int }
	var jobs []job
	for z := 0; z < nTypes; z++ {
		for x := 0; x < nArgTypes; x++ {
			for y := 0; y < nArgTypes; y++ {
				jobs = append(jobs, job{z, x, y})
			}
		}
	}
	r.Each(len(jobs), func(i int) string {
		return prefix + fmt.Sprintf("binary/%v=%v.%v", typeNames[jobs[i].z], typeNames[jobs[i].x], typeNames[jobs[i].y])
	}, func(t *vk.T, i int) {
		j := jobs[i]
		refuse := isSub(j.z) && (!isSub(j.x) || !isSub(j.y))
		run := func(x, y *rep, xn, yn bool) {
			for op := 0; op < 2; op++ {
				for g := 0; g < 2; g++ {
					xo, xi := x.get()
					yo, yi := y.get()
					z := garbage(j.z)
					if g == 1 {
						z = fresh(j.z)
					}
					what := func() string {
						return fmt.Sprintf("%v.%s(%v, %v)", typeNames[j.z], [2]string{"Add", "Sub"}[op], napName(x, xn), napName(y, yn))
					}
					did, val := vk.Panics(func() {
						if op == 0 {
							z.Add(xo, yo)
						} else {
							z.Sub(xo, yo)
						}
					})
					mustNap(t, z, did, val, refuse, what)
					if xn {
						argNap(t, x, xi, what)
					} else {
						argOK(t, x, xi, what)
					}
					if yn {
						argNap(t, y, yi, what)
					} else {
						argOK(t, y, yi, what)
					}
					t.Trans(1)
					t.Trace(1)
				}
			}
			t.State("bin", typeNames[j.x], typeNames[j.y], x.name, y.name, fmt.Sprint(x.m.t, y.m.t))
		}
		for _, x := range nreps[j.x] {
			for _, y := range nreps[j.y] {
				run(x, y, true, true)
			}
			for _, y := range vreps[j.y] {
				run(x, y, true, false)
			}
		}
		for _, x := range vreps[j.x] {
			for _, y := range nreps[j.y] {
				run(x, y, false, true)
			}
		}
	})
	// unary operations, conversions, in-place operations
	r.Each(nTypes*nArgTypes, func(i int) string {
		return prefix + fmt.Sprintf("unary/%v.%v", typeNames[i/nArgTypes], typeNames[i%nArgTypes])
	}, func(t *vk.T, i int) {
		z, x := i/nArgTypes, i%nArgTypes
		for _, xr := range nreps[x] {
			t.State("un", typeNames[z], xr.String())
			for _, o := range []struct {
				name   string
				refuse bool
				f      func(z, x PI)
			}{
				{"Double", false, func(z, x PI) { z.Double(x) }},
				{"Neg", isSub(z) && !isSub(x), func(z, x PI) { z.Neg(x) }},
				{"Endo", isSub(z) && !isSub(x), func(z, x PI) { z.Endo(x) }},
				{"SetFrom", isSub(z) && !isSub(x), func(z, x PI) { z.SetFrom(x) }},
				{"Add same", isSub(z) && !isSub(x), func(z, x PI) { z.Add(x, x) }},
				{"Sub same", isSub(z) && !isSub(x), func(z, x PI) { z.Sub(x, x) }},
			} {
				xo, xi := xr.get()
				zz := garbage(z)
				what := func() string { return fmt.Sprintf("%v.%s(%v)", typeNames[z], o.name, napName(xr, true)) }
				did, val := vk.Panics(func() { o.f(zz, xo) })
				mustNap(t, zz, did, val, o.refuse, what)
				argNap(t, xr, xi, what)
				t.Trans(1)
				t.Trace(1)
			}
			// receiver is an operand too
			for _, zr := range append(append([]*rep{}, nreps[z]...), vreps[z]...) {
				for _, o := range []struct {
					name string
					f    func(z, x PI)
				}{
					{"AddEq", func(z, x PI) { z.AddEq(x) }},
					{"SubEq", func(z, x PI) { z.SubEq(x) }},
					{"Add(x,z)", func(z, x PI) { z.Add(x, z) }},
					{"Sub(x,z)", func(z, x PI) { z.Sub(x, z) }},
				} {
					xo, _ := xr.get()
					zz := copyRaw(zr.p)
					what := func() string { return fmt.Sprintf("(%v).%s(%v)", zr.name, o.name, napName(xr, true)) }
					did, val := vk.Panics(func() { o.f(zz, xo) })
					mustNap(t, zz, did, val, isSub(z) && !isSub(x), what)
					t.Trans(1)
					t.Trace(1)
				}
			}
		}
		// NaP receiver, valid operand
		for _, zr := range nreps[z] {
			for _, xr := range vreps[x] {
				for _, o := range []struct {
					name string
					f    func(z, x PI)
				}{
					{"AddEq", func(z, x PI) { z.AddEq(x) }},
					{"SubEq", func(z, x PI) { z.SubEq(x) }},
					{"Add(x,z)", func(z, x PI) { z.Add(x, z) }},
					{"Sub(x,z)", func(z, x PI) { z.Sub(x, z) }},
				} {
					xo, _ := xr.get()
					zz := copyRaw(zr.p)
					what := func() string { return fmt.Sprintf("(%v).%s(%v)", zr.name, o.name, xr) }
					did, val := vk.Panics(func() { o.f(zz, xo) })
					mustNap(t, zz, did, val, isSub(z) && !isSub(x), what)
					t.Trans(1)
					t.Trace(1)
				}
			}
		}
	})
	r.Each(nTypes, func(i int) string { return prefix + "self/" + typeNames[i] }, func(t *vk.T, typ int) {
		for _, zr := range nreps[typ] {
			for _, o := range []struct {
				name string
				f    func(z PI)
			}{
				{"Add(z,z)", func(z PI) { z.Add(z, z) }},
				{"Sub(z,z)", func(z PI) { z.Sub(z, z) }},
				{"AddEq(z)", func(z PI) { z.AddEq(z) }},
				{"SubEq(z)", func(z PI) { z.SubEq(z) }},
				{"DoubleEq", func(z PI) { z.DoubleEq() }},
				{"Double(z)", func(z PI) { z.Double(z) }},
				{"NegEq", func(z PI) { z.NegEq() }},
				{"Neg(z)", func(z PI) { z.Neg(z) }},
				{"EndoEq", func(z PI) { z.EndoEq() }},
				{"Endo(z)", func(z PI) { z.Endo(z) }},
				{"SetFrom(z)", func(z PI) { z.SetFrom(z) }},
				{"X_affine", func(z PI) { z.X_affine() }},
				{"Y_affine", func(z PI) { z.Y_affine() }},
				{"XY_affine", func(z PI) { z.XY_affine() }},
				{"XYT_affine", func(z PI) { z.(fullRead).XYT_affine() }},
				{"T_affine", func(z PI) { z.(fullRead).T_affine() }},
				{"XYZ_projective", func(z PI) { z.XYZ_projective() }},
				{"XYTZ_projective", func(z PI) { z.(fullRead).XYTZ_projective() }},
				{"decaf_affine", func(z PI) { z.X_decaf_affine(); z.Y_decaf_affine(); z.T_decaf_affine() }},
				{"String", func(z PI) { _ = fmt.Sprint(z) }},
			} {
				z := copyRaw(zr.p)
				did, val := vk.Panics(func() { o.f(z) })
				mustNap(t, z, did, val, false, func() string { return fmt.Sprintf("(%v %v).%s", typeNames[typ], zr.name, o.name) })
				if !z.IsNaP() {
					t.Failf("(%v %v).%s: the invalid point became valid", typeNames[typ], zr.name, o.name)
				}
				t.Trans(1)
				t.Trace(1)
			}
			c := copyRaw(zr.p).Clone()
			mustNap(t, c, false, nil, false, func() string { return fmt.Sprintf("(%v %v).Clone", typeNames[typ], zr.name) })
			z := copyRaw(zr.p)
			z.SetNeutral()
			if s := showsExact(z, mk(vk.BI(0), tN)); s != "" {
				t.Failf("(%v).SetNeutral: %s", zr.name, s)
			}
			t.State("self", typeNames[typ], zr.name)
			t.Sample(typeNames[typ] + " " + zr.name)
		}
	})
	if prefix != panPrefix {
		p04seq(r, nreps, prefix)
	}
}

func napName(r *rep, nap bool) string {
	if nap {
		return typeNames[r.typ] + "[" + r.name + "]"
	}
	return r.String()
}

// operation sequences with an invalid point: invalidity spreads exactly along the data flow and never heals
func p04seq(r *vk.Run, nreps [][]*rep, prefix string) {
	depth := 3
	if r.Thorough {
		depth = 5
	}
	r.Extra("sequence_depth", depth)
	type start struct{ ta, tb, na, nb int }
	var starts []start
	for ta := 0; ta < nTypes; ta++ {
		for tb := 0; tb < nTypes; tb++ {
			n := max(len(nreps[ta]), len(nreps[tb]))
			for k := 0; k < n; k++ {
				starts = append(starts, start{ta, tb, k % len(nreps[ta]), -1}, start{ta, tb, -1, k % len(nreps[tb])})
			}
		}
	}
	// for every op: does register a (b) after the op depend on a, b before?
	dep := map[string][2][2]bool{
		"a.AddEq(b)":         {{true, true}, {false, true}},
		"b.SubEq(a)":         {{true, false}, {true, true}},
		"a.Sub(b,a)":         {{true, true}, {false, true}},
		"b.Add(a,a)":         {{true, false}, {true, false}},
		"a.DoubleEq()":       {{true, false}, {false, true}},
		"b.Double(a)":        {{true, false}, {true, false}},
		"a.NegEq()":          {{true, false}, {false, true}},
		"a.EndoEq()":         {{true, false}, {false, true}},
		"b.Endo(a)":          {{true, false}, {true, false}},
		"b.SetFrom(a)":       {{true, false}, {true, false}},
		"a.XY_affine()":      {{true, false}, {false, true}},
		"norm(a)":            {{true, false}, {false, true}},
		"a.XYZ_projective()": {{true, false}, {false, true}},
		"swap":               {{false, true}, {true, false}},
	}
	g := mk(vk.Generic(101, vk.R), tN)
	r.Each(len(starts), func(i int) string {
		s := starts[i]
		return prefix + fmt.Sprintf("seq/%v/%v/%d/%d", typeNames[s.ta], typeNames[s.tb], s.na, s.nb)
	}, func(t *vk.T, i int) {
		s := starts[i]
		type node struct {
			a, b   PI
			ta, tb int
			na, nb bool
			path   string
		}
		pick := func(typ, n int) PI {
			if n >= 0 {
				return copyRaw(nreps[typ][n].p)
			}
			return copyRaw(reps(typ, g, 0)[0].p)
		}
		front := []node{{pick(s.ta, s.na), pick(s.tb, s.nb), s.ta, s.tb, s.na >= 0, s.nb >= 0, ""}}
		seen := map[string]bool{}
		for d := 0; d < depth && !t.Failed(); d++ {
			var next []node
			for _, n := range front {
				for _, op := range seqOps {
					if !op.ok(n.ta, n.tb) {
						continue
					}
					a, b := copyRaw(n.a), copyRaw(n.b)
					dd := dep[op.name]
					nn := node{a, b, n.ta, n.tb, dd[0][0] && n.na || dd[0][1] && n.nb, dd[1][0] && n.na || dd[1][1] && n.nb, n.path + op.name + ";"}
					if op.f == nil {
						nn.a, nn.b, nn.ta, nn.tb = b, a, n.tb, n.ta
					} else {
						did, val := vk.Panics(func() { op.f(a, b) })
						if did {
							t.Failf("%v: panic %v", nn.path, val)
							continue
						}
					}
					t.Eval(1)
					t.Trans(1)
					if nn.a.IsNaP() != nn.na || nn.b.IsNaP() != nn.nb {
						t.Failf("%v: invalid: %v, %v, expected %v, %v", nn.path, nn.a.IsNaP(), nn.b.IsNaP(), nn.na, nn.nb)
					}
					key := typeNames[nn.ta] + typeNames[nn.tb] + string(memOf(nn.a)) + string(memOf(nn.b))
					if !seen[key] {
						seen[key] = true
						t.State(key)
						next = append(next, nn)
					} else {
						t.Trace(1)
					}
				}
			}
			front = next
		}
		t.Trace(len(front))
	})
}

// predicates, comparisons, normalization and checked conversions report to the handler and obey its answer
func p04report(r *vk.Run, nreps, vreps [][]*rep) {
	type query struct {
		name       string
		comparison bool // answer of the handler is the answer of the query
		f          func(p, other PI) (answer bool, applicable bool)
		other      bool // needs another point
		change     bool
	}
	qs := []query{
		{"IsNeutralElement", true, func(p, o PI) (bool, bool) { return p.IsNeutralElement(), true }, false, false},
		{"IsAtInfinity", false, func(p, o PI) (bool, bool) { return p.IsAtInfinity(), true }, false, false},
		{"IsE1", false, func(p, o PI) (bool, bool) {
			if d, ok := p.(cp.CurvePointPtrInterfaceDistinguishInfinity); ok {
				return d.IsE1(), true
			}
			return false, false
		}, false, false},
		{"IsE2", false, func(p, o PI) (bool, bool) {
			if d, ok := p.(cp.CurvePointPtrInterfaceDistinguishInfinity); ok {
				return d.IsE2(), true
			}
			return false, false
		}, false, false},
		{"IsInSubgroup", false, func(p, o PI) (bool, bool) { return p.IsInSubgroup(), true }, false, false},
		{"NormalizeForZ", false, func(p, o PI) (bool, bool) {
			if d, ok := p.(cp.NormalizerForZ); ok {
				return d.NormalizeForZ(), true
			}
			return false, false
		}, false, true},
		{"NormalizeForY", false, func(p, o PI) (bool, bool) {
			if d, ok := p.(cp.NormalizerForY); ok {
				return d.NormalizeForY(), true
			}
			return false, false
		}, false, true},
		{"IsEqual(o)", true, func(p, o PI) (bool, bool) { return p.IsEqual(o), true }, true, false},
		{"o.IsEqual", true, func(p, o PI) (bool, bool) { return o.IsEqual(p), true }, true, false},
		{"IsEqual(itself)", true, func(p, o PI) (bool, bool) { return p.IsEqual(p), true }, false, false},
		{"o.SetFromSubgroupPoint untrusted", false, func(p, o PI) (bool, bool) { return o.SetFromSubgroupPoint(p, common.UntrustedInput), true }, true, false},
		{"o.SetFromSubgroupPoint trusted", false, func(p, o PI) (bool, bool) { return o.SetFromSubgroupPoint(p, common.TrustedInput), true }, true, false},
	}
	r.EachN(1, nArgTypes*len(qs), func(i int) string {
		return fmt.Sprintf("report/%v/%s", typeNames[i/len(qs)], qs[i%len(qs)].name)
	}, func(t *vk.T, i int) {
		typ, q := i/len(qs), qs[i%len(qs)]
		defer curH.Store(&hstate{})
		var others []*rep
		if q.other {
			for ot := 0; ot < nArgTypes; ot++ {
				if ot >= nTypes && q.name != "IsEqual(o)" {
					continue
				}
				others = append(others, nreps[ot]...)
				others = append(others, vreps[ot]...)
			}
		} else {
			others = []*rep{nil}
		}
		for _, nr := range nreps[typ] {
			for _, or := range others {
				what := func() string {
					if or == nil {
						return fmt.Sprintf("(%v).%s", napName(nr, true), q.name)
					}
					return fmt.Sprintf("(%v).%s, o=%v", napName(nr, true), q.name, napName(or, len(or.name) > 3 && or.name[:3] == "NaP"))
				}
				for mode := 0; mode < 3; mode++ {
					h := &hstate{answer: mode == 1, pan: mode == 2}
					p, _ := nr.get()
					var o, oInner PI
					if or != nil {
						o, oInner = or.get()
					}
					curH.Store(h)
					var ans, app bool
					did, val := vk.Panics(func() { ans, app = q.f(p, o) })
					curH.Store(&hstate{})
					if !did && !app {
						continue
					}
					t.Eval(1)
					t.Trans(1)
					t.Trace(1)
					if h.calls == 0 {
						t.Failf("%s: the use of an invalid point was not reported (answer %v, panic %v)", what(), ans, val)
						continue
					}
					if mode == 2 {
						if !did || fmt.Sprint(val) != "vk handler panic" {
							t.Failf("%s: panic of the handler did not reach the caller: %v", what(), val)
						}
					} else if did {
						t.Failf("%s: panic %v", what(), val)
						continue
					}
					if mode == 0 && ans {
						t.Failf("%s = true although the handler says false", what())
					}
					if q.comparison {
						if mode != 2 && ans != h.answer {
							t.Failf("%s = %v although the handler says %v", what(), ans, h.answer)
						}
						if h.comparisons == 0 {
							t.Failf("%s: not reported as a comparison", what())
						}
					}
					if (strings.HasPrefix(q.name, "Normalize") || strings.Contains(q.name, "SetFrom")) && h.comparisons != 0 {
						t.Failf("%s: reported as a comparison", what())
					}
					if !p.IsNaP() && !(q.name == "o.SetFromSubgroupPoint" && false) {
						t.Failf("%s: the invalid point became valid", what())
					}
					if o != nil {
						isN := len(or.name) > 3 && or.name[:3] == "NaP"
						if isN != oInner.IsNaP() {
							t.Failf("%s: other point changed", what())
						} else if !isN {
							if s := shows(copyRaw(oInner), or.m); s != "" {
								t.Failf("%s: other point changed: %s", what(), s)
							}
						}
					}
				}
				t.State("report", q.name, what())
			}
		}
	})
	// the handler is not called for valid points, and exchanging handlers returns the previous one
	r.EachN(1, 1, func(int) string { return "handler" }, func(t *vk.T, _ int) {
		h := &hstate{}
		curH.Store(h)
		for typ := 0; typ < nArgTypes; typ++ {
			for _, a := range vreps[typ] {
				for _, q := range qs {
					for ot := 0; ot < nTypes; ot++ {
						for _, b := range vreps[ot] {
							ao, _ := a.get()
							bo, _ := b.get()
							vk.Panics(func() { q.f(ao, bo) })
							if !q.other {
								break
							}
							t.Eval(1)
						}
					}
					if h.calls > 0 {
						t.Fatalf("%s on the valid point %v: reported to the handler", q.name, a)
					}
				}
			}
		}
		calls := []string{}
		mkH := func(name string) cp.NaPErrorHandler {
			return func(string, bool, ...cp.CurvePointPtrInterfaceBaseRead) bool {
				calls = append(calls, name)
				return name == "B"
			}
		}
		prev := cp.SetNaPErrorHandler(mkH("A"))
		a := cp.SetNaPErrorHandler(mkH("B"))
		var p cp.Point_xtw_full
		if !p.IsNeutralElement() || len(calls) != 1 || calls[0] != "B" {
			t.Failf("wrong handler invoked: %v", calls)
		}
		a("", true)
		if calls[len(calls)-1] != "A" {
			t.Failf("SetNaPErrorHandler returned the wrong handler")
		}
		cp.GetNaPErrorHandler()("", true)
		if calls[len(calls)-1] != "B" {
			t.Failf("GetNaPErrorHandler returned the wrong handler")
		}
		cp.SetNaPErrorHandler(prev)
		if p.IsNeutralElement(); len(calls) != 3 {
			t.Failf("replaced handler invoked")
		}
		curH.Store(&hstate{})
		t.State("handler")
	})
}
