//go:build go1.22

// Harness for validation, special points, sampling and the naive reference operations of package curvePoints (P09).
package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

func main() {
	vk.Main(
		vk.Property{ID: "P09", Level: "model_checking", Run: p09, Assumptions: []string{"math/big is correct", "points with multiples of the generator outside the bounded set are not executed"},
			Rule: "state = internal coordinates of a point of each type; Validate on all representatives of all model points, in every type (also those of other cosets), and on all single-coordinate and pairwise corruptions of them; breadth-first exploration of all sequences of torsion translation, flipping, rerandomization, endomorphism, doubling and negation in lockstep with the model; all sampling seeds and indices in a range; naive operations on all pairs and exponents"},
		vk.Property{ID: "C04", Level: "model_checking", Run: c04, Assumptions: []string{"math/big is correct", "argument values outside the pools are not executed; arguments of function type are nil"},
			Rule: "state = the contents of all exported constants; transitions: every exported method of the field element, integer, exponent, point and serializer types and the exported functions, on every tuple of arguments from finite pools that contain the constants themselves, followed by the caller overwriting what it got; invariant: every constant has the specified value"},
		vk.Property{ID: "C05", Level: "model_checking", Run: c05, Assumptions: []string{"argument values outside the pools and histories longer than the bound are not executed", "operations whose arguments are functions are called with nil"},
			Rule: "state = (last operation and arguments, next operation and arguments), all in the same variables; histories of two calls: every exported operation after itself for all pairs of argument tuples, and after every other operation; oracle: the result (values, panics, error texts, arguments afterwards) on fresh copies"},
	)
}

type validater interface{ Validate() bool }

// coords returns the extended projective coordinates which the raw coordinates stand for
func coords(typ int, c []*big.Int) (X, Y, T, Z *big.Int) {
	switch base(typ) {
	case xtwF, xtwS:
		return c[0], c[1], c[2], c[3]
	case axtwF, axtwS:
		return c[0], c[1], c[2], vk.BI(1)
	}
	e, f, g, h := c[0], c[1], c[2], c[3]
	return fm(e, f), fm(g, h), fm(e, h), fm(f, g)
}

// validRef decides validity of raw coordinates by the defining equations
func validRef(typ int, c []*big.Int) (valid bool, weird bool) {
	X, Y, T, Z := coords(typ, c)
	if base(typ) == efghF || base(typ) == efghS {
		e, f, g, h := c[0], c[1], c[2], c[3]
		// shapes which are neither points nor documented shapes of NaPs; the package panics on them
		if h.Sign() == 0 && e.Sign() != 0 && f.Sign() != 0 {
			weird = true
		}
		if f.Sign() == 0 && h.Sign() != 0 && !(e.Sign() == 0 && g.Sign() == 0) {
			weird = true
		}
	}
	if X.Sign() == 0 && Y.Sign() == 0 {
		return false, weird
	}
	if vk.Mod(vk.Sub(vk.Mul(X, Y), vk.Mul(T, Z)), vk.P).Sign() != 0 {
		return false, weird
	}
	l := vk.Add(vk.Mul(curvA, vk.Mul(X, X)), vk.Mul(Y, Y))
	r := vk.Add(vk.Mul(Z, Z), vk.Mul(curvD, vk.Mul(T, T)))
	if vk.Mod(vk.Sub(l, r), vk.P).Sign() != 0 {
		return false, weird
	}
	if !isSub(typ) {
		return true, weird
	}
	if Z.Sign() == 0 {
		return false, weird
	}
	zi := finv(Z)
	return subMod(fm(X, zi), fm(Y, zi)), weird
}

// raw makes a point with the given raw coordinates
func raw(typ int, c []*big.Int, alt bool) PI {
	p := fresh(typ)
	fs := make([]F, len(c))
	for i, v := range c {
		fs[i] = mkF(vk.Mod(v, vk.P), alt)
	}
	setFields(p, fieldNames[base(typ)], fs)
	return p
}

func getRaw(p PI, typ int) (c []*big.Int) {
	for _, n := range strings.Split(fieldNames[base(typ)], "") {
		f, _ := field(p, n)
		g := *f
		c = append(c, bigF(g))
	}
	return
}

// rawCoords: raw coordinates of a representative of any model point in any type, also in types that cannot represent the point
func rawCoords(typ int, m mp, s1, s2 *big.Int) []*big.Int {
	a := m.aff()
	z := vk.BI(1)
	if a.inf {
		z = vk.BI(0)
	}
	switch base(typ) {
	case axtwF, axtwS:
		if a.inf {
			return nil
		}
		return []*big.Int{a.x, a.y, a.t}
	case xtwF, xtwS:
		return []*big.Int{fm(a.x, s1), fm(a.y, s1), fm(a.t, s1), fm(z, s1)}
	}
	e, g, f, h := a.x, z, z, a.y
	if a.inf {
		e, g, f, h = vk.BI(1), vk.BI(0), a.x, a.t
	}
	return []*big.Int{fm(e, s1), fm(f, s2), fm(g, s1), fm(h, s2)}
}

func checkValidate(t *vk.T, typ int, c []*big.Int, alt bool, what string) {
	want, weird := validRef(typ, c)
	p := raw(typ, c, alt)
	v, ok := p.(validater)
	if !ok {
		return
	}
	var got bool
	did, val := vk.Panics(func() { got = v.Validate() })
	t.Eval(1)
	if did {
		if !weird || want {
			t.Failf("%s (%s): Validate panics: %v", typeNames[typ], what, val)
		}
		return
	}
	if got != want {
		t.Failf("%s (%s), coordinates %x: Validate()=%v, expected %v", typeNames[typ], what, c, got, want)
	}
	// the coordinates may be rewritten, but not to something else
	if want2, _ := validRef(typ, getRaw(p, typ)); want2 != want {
		t.Failf("%s (%s): Validate changed the point", typeNames[typ], what)
	}
}

func p09(r *vk.Run) {
	kl := 1
	if r.Thorough {
		kl = 2
	}
	ms := models(kset(kl))
	r.Extra("model_points", len(ms))
	r.Extra("in_package_access", haveShim)

	if direct {
		validateCases(r, ms)
	}
	// --- Validate on results of the exported interface
	r.Each(nTypes, func(typ int) string { return "Validate on representatives: " + typeNames[typ] }, func(t *vk.T, typ int) {
		for _, m := range ms {
			for _, rp := range reps(typ, m, 2) {
				p := copyRaw(rp.p)
				v, ok := p.(validater)
				if !ok {
					continue
				}
				t.Eval(1)
				if !v.Validate() {
					t.Failf("%v: Validate() is false", rp)
				}
				if s := shows(p, m); s != "" {
					t.Failf("%v: after Validate: %v", rp, s)
				}
			}
		}
		p := fresh(typ)
		if v, ok := p.(validater); ok && v.Validate() {
			t.Failf("%v: Validate() of the zero value is true", typeNames[typ])
		}
	})
	specials(r)
	sampling(r)
	if haveShim {
		history(r, ms)
		naive(r)
	}
}

func validateCases(r *vk.Run, ms []mp) {
	type job struct {
		typ int
		m   mp
	}
	var jobs []job
	for typ := 0; typ < nTypes; typ++ {
		for _, m := range ms {
			jobs = append(jobs, job{typ, m})
		}
	}
	one, zero, two := vk.BI(1), vk.BI(0), vk.BI(2)
	scales := [][2]*big.Int{{one, one}, {scaleM, scaleN}, {minus1, one}, {one, minus1}, {two, minus1}}
	r.Each(len(jobs), func(i int) string {
		return "Validate on raw coordinates: " + fmt.Sprintf("%v, near %v", typeNames[jobs[i].typ], jobs[i].m)
	}, func(t *vk.T, i int) {
		j := jobs[i]
		for si, s := range scales {
			c := rawCoords(j.typ, j.m, s[0], s[1])
			if c == nil {
				return
			}
			t.StateH(vk.Hash64(fmt.Sprint(j.typ, c)))
			checkValidate(t, j.typ, c, si%2 == 1, "exact")
			mods := func(v *big.Int) []*big.Int {
				return []*big.Int{zero, one, minus1, two, fneg(v), vk.Add(v, one), vk.Sub(v, one), vk.Add(v, v), fm(v, vk.Lambda), fm(v, sqDA), fm(v, finv(sqDA)), curvD, finv2(v)}
			}
			n := len(c)
			for a := 0; a < n; a++ {
				for x, v := range mods(c[a]) {
					d := append([]*big.Int{}, c...)
					d[a] = vk.Mod(v, vk.P)
					checkValidate(t, j.typ, d, x%2 == 1, "one coordinate changed")
					for b := a + 1; b < n; b++ {
						for y, w := range mods(c[b]) {
							e := append([]*big.Int{}, d...)
							e[b] = vk.Mod(w, vk.P)
							checkValidate(t, j.typ, e, (x+y)%2 == 1, "two coordinates changed")
						}
					}
				}
				for b := a + 1; b < n; b++ {
					d := append([]*big.Int{}, c...)
					d[a], d[b] = d[b], d[a]
					checkValidate(t, j.typ, d, false, "coordinates swapped")
					// a point on another curve with the same shape: x*s, y*s with consistent t
				}
			}
			// consistent but wrong: all of XY=TZ holds, the curve equation does not
			if b := base(j.typ); b != efghF && b != efghS {
				for _, v := range mods(c[0]) {
					d := append([]*big.Int{}, c...)
					d[0] = vk.Mod(v, vk.P)
					if n == 3 {
						d[2] = fm(d[0], d[1])
					} else if d[3].Sign() != 0 {
						d[2] = fm(fm(d[0], d[1]), finv(d[3]))
					}
					checkValidate(t, j.typ, d, false, "x changed consistently")
				}
			}
			if !r.Thorough && si >= 2 {
				return
			}
		}
	})
	// small raw coordinates: all tuples over a tiny alphabet
	al := []*big.Int{zero, one, minus1, sqDA, two}
	r.Each(nTypes, func(typ int) string { return "Validate on small tuples: " + typeNames[typ] }, func(t *vk.T, typ int) {
		n := len(fieldNames[base(typ)])
		tot := 1
		for i := 0; i < n; i++ {
			tot *= len(al)
		}
		for x := 0; x < tot; x++ {
			c := make([]*big.Int, n)
			for i, y := 0, x; i < n; i++ {
				c[i] = al[y%len(al)]
				y /= len(al)
			}
			t.StateH(vk.Hash64(fmt.Sprint(typ, c)))
			checkValidate(t, typ, c, x%2 == 1, "small tuple")
		}
	})
}

func specials(r *vk.Run) {
	type ss struct {
		name string
		m    mp
		set  func(p PI) bool
	}
	sets := []ss{
		{"SetNeutral", mk(vk.BI(0), tN), func(p PI) bool { p.SetNeutral(); return true }},
		{"SetAffineTwoTorsion", mk(vk.BI(0), tA), func(p PI) bool {
			q, ok := p.(interface{ SetAffineTwoTorsion() })
			if ok {
				q.SetAffineTwoTorsion()
			}
			return ok
		}},
		{"SetE1", mk(vk.BI(0), tE1), func(p PI) bool {
			q, ok := p.(interface{ SetE1() })
			if ok {
				q.SetE1()
			}
			return ok
		}},
		{"SetE2", mk(vk.BI(0), tE2), func(p PI) bool {
			q, ok := p.(interface{ SetE2() })
			if ok {
				q.SetE2()
			}
			return ok
		}},
	}
	r.Each(nTypes*len(sets), func(i int) string {
		return "setting special points: " + typeNames[i/len(sets)] + "." + sets[i%len(sets)].name
	}, func(t *vk.T, i int) {
		typ, s := i/len(sets), sets[i%len(sets)]
		starts := []PI{fresh(typ)}
		for _, m := range models(kset(1)) {
			for _, rp := range reps(typ, m, 1) {
				starts = append(starts, copyRaw(rp.p))
			}
		}
		for _, p := range starts {
			t.Trans(1)
			if !s.set(p) {
				return
			}
			if sh := shows(copyRaw(p), s.m); sh != "" {
				t.Failf("%v", sh)
			}
			// changing the point afterwards must not change what the setter gives
			p.AddEq(wrap(typ, copyRaw(starts[len(starts)-1])))
			q := fresh(typ)
			s.set(q)
			if sh := shows(q, s.m); sh != "" {
				t.Failf("after modifying another point that was set: %v", sh)
			}
		}
	})
}

func sampling(r *vk.Run) {
	seeds := 12
	per := 12
	naps := 64
	if r.Thorough {
		seeds, per, naps = 200, 40, 400
	}
	// checks that p is a valid point of its type; returns an identification
	check := func(t *vk.T, typ int, p PI, what string) string {
		t.Eval(1)
		v, ok := p.(validater)
		if ok && !v.Validate() {
			t.Failf("%s: not valid", what)
			return ""
		}
		if direct {
			if ok, _ := validRef(typ, getRaw(p, typ)); !ok {
				t.Failf("%s: sampled coordinates are not a valid point", what)
				return ""
			}
		}
		q := copyRaw(p)
		if q.IsNaP() || q.IsAtInfinity() {
			return "special"
		}
		fx, fy := q.XY_affine()
		x, y := bigF(fx), bigF(fy)
		if !onCurve(x, y) {
			t.Failf("%s: sampled point is not on the curve", what)
		}
		if isSub(typ) && !inSub(x, y) {
			t.Failf("%s: sampled point is not in the subgroup", what)
		}
		return x.Text(62) + "," + y.Text(62)
	}
	crafted(r, check)
	r.Each(seeds, func(i int) string { return "sampling by seeds: " + fmt.Sprintf("seed %d", i) }, func(t *vk.T, i int) {
		seen := map[string]bool{}
		rnd := rand.New(rand.NewSource(int64(i)))
		cosets := [4]int{}
		for k := 0; k < per; k++ {
			f := cp.MakeRandomPointUnsafe_xtw_full(rnd)
			id := check(t, xtwF, &f, "MakeRandomPointUnsafe_xtw_full")
			if seen[id] {
				t.Failf("MakeRandomPointUnsafe_xtw_full: the same point is sampled again")
			}
			seen[id] = true
			if !f.IsAtInfinity() {
				fx, fy := f.XY_affine()
				x, y := bigF(fx), bigF(fy)
				switch {
				case inSub(x, y):
					cosets[0]++
				case inSub(fneg(x), fneg(y)):
					cosets[1]++
				default:
					cosets[2]++
				}
			}
			s := cp.MakeRandomPointUnsafe_xtw_subgroup(rnd)
			id = check(t, xtwS, &s, "MakeRandomPointUnsafe_xtw_subgroup")
			if seen[id] {
				t.Failf("MakeRandomPointUnsafe_xtw_subgroup: the same point is sampled again")
			}
			seen[id] = true
			t.StateH(vk.Hash64(id))
			if haveShim {
				for typ := 0; typ < nTypes; typ++ {
					p := fresh(typ)
					if !sample(p, rnd) {
						continue
					}
					id := check(t, typ, p, typeNames[typ]+".sampleRandomUnsafe")
					if seen[id] {
						t.Failf("%v.sampleRandomUnsafe: the same point is sampled again", typeNames[typ])
					}
					seen[id] = true
				}
			}
		}
		_ = cosets
	})
	if !haveShim {
		return
	}
	r.Each(nTypes, func(typ int) string { return "sampling NaPs: " + typeNames[typ] }, func(t *vk.T, typ int) {
		starts := []PI{fresh(typ)}
		for _, rp := range reps(typ, mk(vk.BI(1), tN), 1) {
			starts = append(starts, rp.p)
		}
		for i := 0; i < naps; i++ {
			for seed := int64(0); seed < 3; seed++ {
				for _, s := range starts {
					p := copyRaw(s)
					if !sampleNaP(p, rand.New(rand.NewSource(seed)), i) {
						return
					}
					t.Eval(1)
					if !p.IsNaP() {
						t.Failf("sampleNaP index %d: the result is no NaP", i)
					}
					if v, ok := p.(validater); ok && v.Validate() {
						t.Failf("sampleNaP index %d: the result is valid", i)
					}
				}
			}
		}
	})
}

// history explores all sequences of operations that move a point within its orbit
func history(r *vk.Run, ms []mp) {
	depth := 4
	if r.Thorough {
		depth = 6
	}
	type op struct {
		name string
		f    func(p PI, n int64) bool
		m    func(m mp) mp
		tors int
	}
	ops := []op{
		{"torsionAddA", func(p PI, n int64) bool { return torsion(p, 1) }, func(m mp) mp { return m.add(mk(vk.BI(0), tA)) }, tA},
		{"torsionAddE1", func(p PI, n int64) bool { return torsion(p, 2) }, func(m mp) mp { return m.add(mk(vk.BI(0), tE1)) }, tE1},
		{"torsionAddE2", func(p PI, n int64) bool { return torsion(p, 3) }, func(m mp) mp { return m.add(mk(vk.BI(0), tE2)) }, tE2},
		{"flipDecaf", func(p PI, n int64) bool { h, ok := flip(p); return h && ok }, func(m mp) mp { return m }, 0},
		{"rerandomizeRepresentation", func(p PI, n int64) bool { return rerandomize(p, rand.New(rand.NewSource(n))) }, func(m mp) mp { return m }, 0},
		{"NegEq", func(p PI, n int64) bool { p.NegEq(); return true }, mp.neg, 0},
		{"EndoEq", func(p PI, n int64) bool { p.EndoEq(); return true }, mp.endo, 0},
	}
	type job struct {
		typ int
		m   mp
	}
	var jobs []job
	for typ := 0; typ < nTypes; typ++ {
		for _, m := range ms {
			if len(reps(typ, m, 0)) > 0 {
				jobs = append(jobs, job{typ, m})
			}
		}
	}
	r.Each(len(jobs), func(i int) string {
		return "histories: " + fmt.Sprintf("%v, from %v", typeNames[jobs[i].typ], jobs[i].m)
	}, func(t *vk.T, i int) {
		j := jobs[i]
		// flipping must not be offered by types for which it would change the point
		if has, _ := flip(fresh(j.typ)); has && !isSub(j.typ) {
			t.Failf("HasDecaf is true for a type which can represent all points")
		}
		type node struct {
			p    PI
			m    mp
			path string
		}
		seen := map[string]bool{}
		var level []node
		for _, rp := range reps(j.typ, j.m, 1) {
			level = append(level, node{rp.p, j.m, rp.name})
		}
		for d := 0; d < depth && !t.Failed(); d++ {
			var next []node
			for _, n := range level {
				key := string(memOf(n.p))
				if seen[key] {
					continue
				}
				seen[key] = true
				t.State(fmt.Sprint(j.typ), key)
				for oi, o := range ops {
					m := o.m(n.m)
					if o.tors != 0 && isSub(j.typ) {
						// translation by A is the identity for types which work modulo A; others leave the type
						if o.tors != tA {
							continue
						}
						m = n.m
					}
					if m.inf() && !hasInf(j.typ) {
						// may only be refused
						q := copyRaw(n.p)
						if did, _ := vk.Panics(func() { o.f(q, int64(d)) }); !did && o.tors != 0 && !q.IsNaP() {
							t.Failf("%s: %s gives an infinite point, but does not panic", n.path, o.name)
						}
						continue
					}
					q := copyRaw(n.p)
					var done bool
					did, val := vk.Panics(func() { done = o.f(q, int64(d*100+oi)) })
					t.Trans(1)
					path := n.path + "." + o.name
					if did {
						t.Failf("%s (of %v): panic %v", path, n.m, val)
						continue
					}
					if !done {
						continue
					}
					if s := showsExact(copyRaw(q), m); s != "" {
						t.Failf("%s: %s", path, s)
						continue
					}
					if v, ok := q.(validater); ok {
						if !v.Validate() {
							t.Failf("%s: result does not Validate", path)
						}
					}
					if o.name == "flipDecaf" && direct {
						// the other representative: X and Y change sign relative to T, Z
						X, Y, T, Z := coords(j.typ, getRaw(q, j.typ))
						X1, Y1, T1, Z1 := coords(j.typ, getRaw(n.p, j.typ))
						_ = T1
						if fm(X, Z1).Cmp(fneg(fm(X1, Z))) != 0 || fm(Y, Z1).Cmp(fneg(fm(Y1, Z))) != 0 || fm(T, Z1).Cmp(fm(T1, Z)) != 0 {
							t.Failf("%s: the representative is not P+A", path)
						}
					}
					next = append(next, node{q, m, path})
				}
			}
			level = next
		}
	})
	// invalid points stay invalid
	r.Each(nTypes, func(typ int) string { return "translations of NaPs: " + typeNames[typ] }, func(t *vk.T, typ int) {
		for i := 0; i < 60; i++ {
			for _, o := range ops[:5] {
				p := fresh(typ)
				if !sampleNaP(p, rand.New(rand.NewSource(int64(i))), i) {
					return
				}
				did, val := vk.Panics(func() { o.f(p, int64(i)) })
				t.Trans(1)
				if did {
					t.Failf("%s on a NaP (index %d): panic %v", o.name, i, val)
				} else if !p.IsNaP() {
					t.Failf("%s on a NaP (index %d): result is no NaP", o.name, i)
				}
			}
		}
	})
}

func naive(r *vk.Run) {
	kl := 1
	if r.Thorough {
		kl = 2
	}
	var pts []*rep
	for _, m := range models(kset(kl)) {
		if !m.inf() {
			pts = append(pts, reps(xtwF, m, 1)...)
		}
	}
	r.Extra("naive_operands", len(pts))
	r.Each(len(pts), func(i int) string { return "naive addition: " + pts[i].String() }, func(t *vk.T, i int) {
		a := pts[i].m.aff()
		for _, q := range pts {
			b := q.m.aff()
			den := fm(curvD, fm(fm(a.x, a.y), fm(b.x, b.y)))
			if den.Cmp(vk.BI(1)) == 0 || den.Cmp(minus1) == 0 {
				continue // the affine formula has no value
			}
			for alias := 0; alias < 3; alias++ {
				z := addNaive(copyRaw(pts[i].p), copyRaw(q.p), alias)
				t.Trans(1)
				if s := shows(z, pts[i].m.add(q.m)); s != "" {
					t.Failf("addNaive_ttt(%v, %v), alias %d: %v", pts[i], q, alias, s)
				}
			}
		}
	})
	var es []*big.Int
	for i := int64(-20); i <= 20; i++ {
		es = append(es, vk.BI(i))
	}
	for _, v := range []*big.Int{vk.R, vk.Lambda, vk.Pow2(64), vk.Pow2(128), vk.Generic(5, vk.R), vk.Add(vk.R, vk.R), new(big.Int).Rsh(vk.R, 1)} {
		es = append(es, v, vk.Add(v, vk.BI(1)), vk.Sub(v, vk.BI(1)), new(big.Int).Neg(v))
	}
	var subs []*rep
	for _, k := range kset(kl) {
		subs = append(subs, reps(xtwF, mk(k, tN), 1)...)
	}
	r.Each(len(subs), func(i int) string { return "naive exponentiation: " + subs[i].String() }, func(t *vk.T, i int) {
		for _, e := range es {
			for _, alias := range []bool{false, true} {
				e1 := new(big.Int).Set(e)
				z := expNaive(copyRaw(subs[i].p), e1, alias)
				t.Trans(1)
				if e1.Cmp(e) != 0 {
					t.Failf("exp_naive_xx changes the exponent %v", e)
				}
				if s := shows(z, mk(vk.Mul(subs[i].m.k, e), tN)); s != "" {
					t.Failf("exp_naive_xx(%v, %v): %v", subs[i], e, s)
				}
			}
		}
	})
}
