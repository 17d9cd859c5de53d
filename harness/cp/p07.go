//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

type answer struct {
	x, y *big.Int // expected point if valid
	errs []error  // acceptable errors otherwise (first: the most specific)
}

func valid(x, y *big.Int) answer { return answer{x: x, y: y} }
func wrong(errs ...error) answer { return answer{errs: errs} }

func p07(r *vk.Run) {
	old := cp.SetNaPErrorHandler(handler)
	defer cp.SetNaPErrorHandler(old)
	curH.Store(&hstate{})
	kl := 1
	nGen := 60
	if r.Thorough {
		kl, nGen = 2, 1500
	}
	// coordinate values
	var vals []*big.Int
	addV := func(v *big.Int) { vals = append(vals, vk.Mod(v, vk.P)) }
	for i := int64(0); i < 6; i++ {
		addV(vk.BI(i))
		addV(vk.BI(-i))
	}
	addV(sqDA)
	addV(fneg(sqDA))
	// y with a*... = d*y^2 - a = 0: the value that formally belongs to the points at infinity
	if yi := new(big.Int).ModSqrt(fm(vk.Mod(curvA, vk.P), finv(vk.Mod(curvD, vk.P))), vk.P); yi != nil {
		addV(yi)
		addV(fneg(yi))
	}
	var pts []mp
	for _, m := range models(kset(kl)) {
		if !m.inf() {
			pts = append(pts, m)
			a := m.aff()
			addV(a.x)
			addV(a.y)
		}
	}
	small := vk.Uniq(append([]*big.Int{}, vals...), vk.BI(0), vk.P)
	for i := 0; i < nGen; i++ {
		addV(vk.BI(int64(6 + i)))
		addV(vk.Generic(uint64(9000+i), vk.P))
	}
	vals = vk.Uniq(vals, vk.BI(0), vk.P)
	r.Extra("coordinate_values", len(vals))
	signs := []int{-1, 1, 0, 2, -2, 255, -1 << 62}

	// one case = one function call with one input (both trust levels, both representations of the input)
	one := func(t *vk.T, name string, full bool, want answer, call func(tr common.IsInputTrusted, alt bool) (PI, errorsWithData.ErrorWithData_any, any, any)) {
		for _, tr := range []common.IsInputTrusted{common.UntrustedInput, common.TrustedInput} {
			if tr.Bool() && want.errs != nil {
				continue // undefined
			}
			for alt := 0; alt < 2; alt++ {
				var p PI
				var err errorsWithData.ErrorWithData_any
				var got, exp any
				did, val := vk.Panics(func() { p, err, got, exp = call(tr, alt == 1) })
				t.Eval(1)
				if did {
					t.Failf("%s (trusted=%v): panic %v", name, tr.Bool(), val)
					continue
				}
				if want.errs == nil {
					if err != nil {
						t.Failf("%s (trusted=%v): rejected with %v", name, tr.Bool(), err)
						continue
					}
					X, Y, T, Z := bigF(p.X_decaf_projective()), bigF(p.Y_decaf_projective()), bigF(p.T_decaf_projective()), bigF(p.Z_decaf_projective())
					same := func(x, y *big.Int) bool {
						return Z.Sign() != 0 && X.Cmp(fm(x, Z)) == 0 && Y.Cmp(fm(y, Z)) == 0 && T.Cmp(fm(fm(x, y), Z)) == 0
					}
					if !same(want.x, want.y) && (full || !same(fneg(want.x), fneg(want.y))) {
						t.Failf("%s (trusted=%v): gives the point (%#x:%#x:%#x:%#x), expected (%#x,%#x)", name, tr.Bool(), X, Y, T, Z, want.x, want.y)
						continue
					}
					if !full { // the exact coordinates are those of the subgroup point
						x, y, _ := p.(fullRead).XYT_affine()
						if bigF(x).Cmp(want.x) != 0 || bigF(y).Cmp(want.y) != 0 {
							t.Failf("%s (trusted=%v): XYT_affine() = (%#x,%#x), expected (%#x,%#x)", name, tr.Bool(), bigF(x), bigF(y), want.x, want.y)
						}
					}
					continue
				}
				if err == nil {
					t.Failf("%s: accepted", name)
					continue
				}
				ok := false
				for _, e := range want.errs {
					ok = ok || errors.Is(err, e)
				}
				if !ok {
					t.Failf("%s: error %v, expected %v", name, err, want.errs)
				}
				if errors.Is(want.errs[0], be.ErrCannotDeserializeNaP) && !errors.Is(err, be.ErrCannotDeserializeNaP) {
					t.Failf("%s: error %v, expected %v", name, err, be.ErrCannotDeserializeNaP)
				}
				if !p.IsNaP() {
					t.Failf("%s: rejected, but gives a point", name)
				}
				if fmt.Sprint(got) != fmt.Sprint(exp) {
					t.Failf("%s: error data %v, expected %v", name, got, exp)
				}
				if bad := err.ValidateError_Final(); bad != nil {
					t.Failf("%s: error message is not well-formed: %v", name, bad)
				}
				if m := err.Error(); m == "" || strings.Contains(m, "%!") || strings.Contains(m, "!M>") {
					t.Failf("%s: error message %q", name, m)
				}
			}
		}
	}
	type dXY = struct{ X, Y string }
	type dXS = struct {
		X string
		S int
	}
	fs := func(f F) string { return bigF(f).Text(16) }
	bs := func(b *big.Int) string { return b.Text(16) }

	// ---- coordinate and sign
	r.Each(len(vals), func(i int) string { return "sign/" + bs(vals[i]) }, func(t *vk.T, i int) {
		v := vals[i]
		y, xOn := yFromX(v)
		x, yOn := xFromY(v)
		for _, s := range signs {
			goodSign := s == 1 || s == -1
			// X and sign of Y
			var wf, ws answer
			switch {
			case !goodSign && !xOn:
				wf = wrong(be.ErrInvalidSign, be.ErrXNotOnCurve)
				ws = wf
			case !goodSign:
				wf = wrong(be.ErrInvalidSign)
				ws = wf
				if !subMod(v, y) && !subMod(v, fneg(y)) {
					ws = wrong(be.ErrInvalidSign, be.ErrXNotInSubgroup, be.ErrNotInSubgroup)
				}
			case !xOn:
				wf = wrong(be.ErrXNotOnCurve)
				ws = wf
			default:
				yy := y
				if fsign(yy) != s {
					yy = fneg(yy)
				}
				wf = valid(v, yy)
				ws = wf
				if !inSub(v, yy) {
					ws = wrong(be.ErrNotInSubgroup, be.ErrXNotInSubgroup)
					if subMod(v, y) || subMod(v, fneg(y)) {
						ws = wrong(be.ErrNotInSubgroup)
					}
				}
			}
			one(t, fmt.Sprintf("CurvePointFromXAndSignY_full(%#x,%d)", v, s), true, wf, func(tr common.IsInputTrusted, alt bool) (PI, errorsWithData.ErrorWithData_any, any, any) {
				f := mkF(v, alt)
				p, err := cp.CurvePointFromXAndSignY_full(&f, s, tr)
				if bigF(f).Cmp(v) != 0 {
					t.Failf("argument changed")
				}
				if err == nil {
					return &p, nil, nil, nil
				}
				d := err.GetData_struct()
				return &p, err, dXS{fs(d.X), d.SignY}, dXS{bs(v), s}
			})
			one(t, fmt.Sprintf("CurvePointFromXAndSignY_subgroup(%#x,%d)", v, s), false, ws, func(tr common.IsInputTrusted, alt bool) (PI, errorsWithData.ErrorWithData_any, any, any) {
				f := mkF(v, alt)
				p, err := cp.CurvePointFromXAndSignY_subgroup(&f, s, tr)
				if bigF(f).Cmp(v) != 0 {
					t.Failf("argument changed")
				}
				if err == nil {
					return &p, nil, nil, nil
				}
				d := err.GetData_struct()
				return &p, err, dXS{fs(d.X), d.SignY}, dXS{bs(v), s}
			})
			// Y and sign of X
			switch {
			case s == 0 && yOn && x.Sign() == 0:
				wf = valid(vk.BI(0), v)
			case s == 0 && yOn:
				wf = wrong(be.ErrInvalidZeroSignX)
			case s == 0:
				wf = wrong(be.ErrInvalidZeroSignX, be.ErrYNotOnCurve)
			case !goodSign && yOn:
				wf = wrong(be.ErrInvalidSign)
			case !goodSign:
				wf = wrong(be.ErrInvalidSign, be.ErrYNotOnCurve)
			case !yOn:
				wf = wrong(be.ErrYNotOnCurve)
			default:
				xx := x
				if fsign(xx) != s {
					xx = fneg(xx)
				}
				wf = valid(xx, v)
			}
			ws = wf
			if wf.errs == nil && !inSub(wf.x, wf.y) {
				ws = wrong(be.ErrNotInSubgroup)
				if s == 0 {
					ws = wrong(be.ErrNotInSubgroup, be.ErrInvalidZeroSignX)
				}
			} else if wf.errs != nil && yOn && !inSub(x, v) && !inSub(fneg(x), v) {
				ws = wrong(append(append([]error{}, wf.errs...), be.ErrNotInSubgroup)...)
			}
			one(t, fmt.Sprintf("CurvePointFromYAndSignX_full(%#x,%d)", v, s), true, wf, func(tr common.IsInputTrusted, alt bool) (PI, errorsWithData.ErrorWithData_any, any, any) {
				f := mkF(v, alt)
				p, err := cp.CurvePointFromYAndSignX_full(&f, s, tr)
				if bigF(f).Cmp(v) != 0 {
					t.Failf("argument changed")
				}
				if err == nil {
					return &p, nil, nil, nil
				}
				d := err.GetData_struct()
				return &p, err, dXS{fs(d.Y), d.SignX}, dXS{bs(v), s}
			})
			one(t, fmt.Sprintf("CurvePointFromYAndSignX_subgroup(%#x,%d)", v, s), false, ws, func(tr common.IsInputTrusted, alt bool) (PI, errorsWithData.ErrorWithData_any, any, any) {
				f := mkF(v, alt)
				p, err := cp.CurvePointFromYAndSignX_subgroup(&f, s, tr)
				if bigF(f).Cmp(v) != 0 {
					t.Failf("argument changed")
				}
				if err == nil {
					return &p, nil, nil, nil
				}
				d := err.GetData_struct()
				return &p, err, dXS{fs(d.Y), d.SignX}, dXS{bs(v), s}
			})
		}
		// X*sign(Y): the point in the subgroup with this value
		var w answer
		switch {
		case !xOn:
			w = wrong(be.ErrXNotOnCurve)
		case !subMod(v, y) && !subMod(v, fneg(y)):
			w = wrong(be.ErrXNotInSubgroup)
		default:
			// point (X,Y) in the subgroup with X*sign(Y) = v
			yy := y
			if fsign(yy) < 0 {
				yy = fneg(yy)
			}
			w = valid(v, yy)
			if !inSub(v, yy) {
				w = valid(fneg(v), fneg(yy))
				if !inSub(fneg(v), fneg(yy)) {
					t.Fatalf("oracle: no subgroup point for %#x", v)
				}
			}
		}
		one(t, fmt.Sprintf("CurvePointFromXTimesSignY_subgroup(%#x)", v), false, w, func(tr common.IsInputTrusted, alt bool) (PI, errorsWithData.ErrorWithData_any, any, any) {
			f := mkF(v, alt)
			p, err := cp.CurvePointFromXTimesSignY_subgroup(&f, tr)
			if bigF(f).Cmp(v) != 0 {
				t.Failf("argument changed")
			}
			if err == nil {
				return &p, nil, nil, nil
			}
			d := fs(err.GetData_struct().X)
			if d == bs(fneg(v)) { // documented: up to sign
				d = bs(v)
			}
			return &p, err, d, bs(v)
		})
		t.State("coord", bs(v))
		t.Sample(bs(v))
	})

	// ---- pairs: all points, their negations, perturbations and twists; all pairs of values of the small set
	type pair struct{ x, y *big.Int }
	var pairs []pair
	for _, m := range pts {
		a := m.aff()
		for _, x := range []*big.Int{a.x, fneg(a.x), vk.Mod(vk.Add(a.x, vk.BI(1)), vk.P), vk.BI(0)} {
			for _, y := range []*big.Int{a.y, fneg(a.y), vk.Mod(vk.Add(a.y, vk.BI(1)), vk.P), vk.BI(0)} {
				pairs = append(pairs, pair{x, y}, pair{y, x})
			}
		}
	}
	for _, v := range vals {
		if y, ok := yFromX(v); ok {
			pairs = append(pairs, pair{v, y}, pair{v, fneg(y)}, pair{y, v})
		}
		if x, ok := xFromY(v); ok {
			pairs = append(pairs, pair{x, v}, pair{fneg(x), v})
		}
	}
	for _, x := range small {
		for _, y := range small {
			pairs = append(pairs, pair{x, y})
		}
	}
	// points of twists (x^2 or t^2 replaced by a multiple): satisfy the equation up to one term
	seen := map[string]bool{}
	k := 0
	for _, q := range pairs {
		key := bs(q.x) + "," + bs(q.y)
		if !seen[key] {
			seen[key] = true
			pairs[k] = q
			k++
		}
	}
	pairs = pairs[:k]
	r.Extra("coordinate_pairs", len(pairs))
	const chunk = 16
	r.Each((len(pairs)+chunk-1)/chunk, func(i int) string { return fmt.Sprintf("pair/%v,%v", bs(pairs[i*chunk].x), bs(pairs[i*chunk].y)) }, func(t *vk.T, i int) {
		for _, q := range pairs[i*chunk : min((i+1)*chunk, len(pairs))] {
			on := onCurve(q.x, q.y)
			var wf, ws answer
			switch {
			case q.x.Sign() == 0 && q.y.Sign() == 0:
				wf = wrong(be.ErrCannotDeserializeXYAllZero)
			case !on:
				wf = wrong(be.ErrNotOnCurve)
			default:
				wf = valid(q.x, q.y)
			}
			ws = wf
			if on && !inSub(q.x, q.y) {
				ws = wrong(be.ErrNotInSubgroup)
			}
			one(t, fmt.Sprintf("CurvePointFromXYAffine_full(%#x,%#x)", q.x, q.y), true, wf, func(tr common.IsInputTrusted, alt bool) (PI, errorsWithData.ErrorWithData_any, any, any) {
				x, y := mkF(q.x, alt), mkF(q.y, alt)
				p, err := cp.CurvePointFromXYAffine_full(&x, &y, tr)
				if err == nil {
					return &p, nil, nil, nil
				}
				d := err.GetData_struct()
				return &p, err, dXY{fs(d.X), fs(d.Y)}, dXY{bs(q.x), bs(q.y)}
			})
			one(t, fmt.Sprintf("CurvePointFromXYAffine_subgroup(%#x,%#x)", q.x, q.y), false, ws, func(tr common.IsInputTrusted, alt bool) (PI, errorsWithData.ErrorWithData_any, any, any) {
				x, y := mkF(q.x, alt), mkF(q.y, alt)
				p, err := cp.CurvePointFromXYAffine_subgroup(&x, &y, tr)
				if err == nil {
					return &p, nil, nil, nil
				}
				d := err.GetData_struct()
				return &p, err, dXY{fs(d.X), fs(d.Y)}, dXY{bs(q.x), bs(q.y)}
			})
			// long encoding
			var errs []error
			if fsign(q.y) <= 0 {
				errs = append(errs, be.ErrWrongSignY)
			} else if !on {
				errs = append(errs, be.ErrNotOnCurve)
			} else if !subMod(q.x, q.y) {
				errs = append(errs, be.ErrNotInSubgroup)
			}
			w := answer{errs: errs}
			if errs == nil {
				w = valid(q.x, q.y)
				if !inSub(q.x, q.y) {
					w = valid(fneg(q.x), fneg(q.y))
				}
			}
			for order := 0; order < 2; order++ {
				name := fmt.Sprintf("CurvePointFromXYTimesSignY_subgroup(%#x,%#x)", q.x, q.y)
				if order == 1 {
					name = fmt.Sprintf("CurvePointFromYXTimesSignY_subgroup(%#x,%#x)", q.y, q.x)
				}
				one(t, name, false, w, func(tr common.IsInputTrusted, alt bool) (PI, errorsWithData.ErrorWithData_any, any, any) {
					x, y := mkF(q.x, alt), mkF(q.y, alt)
					p, err := cp.CurvePointFromXYTimesSignY_subgroup(&x, &y, tr)
					if order == 1 {
						p, err = cp.CurvePointFromYXTimesSignY_subgroup(&y, &x, tr)
					}
					if err == nil {
						return &p, nil, nil, nil
					}
					d := err.GetData_struct()
					return &p, err, dXY{fs(d.XSignY), fs(d.YSignY)}, dXY{bs(q.x), bs(q.y)}
				})
			}
			t.State("pair", bs(q.x), bs(q.y))
		}
	})
	p07reuse(r, small)
	// ---- MapToFieldElement: X/Y, the same for every representative and type of a point
	ms := models(kset(kl))
	r.Each(len(ms), func(i int) string { return "map/" + ms[i].String() }, func(t *vk.T, i int) {
		m := ms[i]
		for typ := 0; typ < nArgTypes; typ++ {
			for _, x := range reps(typ, m, 2) {
				xo, _ := x.get()
				var f F
				did, _ := vk.Panics(func() { f = cp.MapToFieldElement(xo) })
				t.Eval(1)
				if did != m.inf() {
					t.Failf("MapToFieldElement(%v): panic=%v", x, did)
					continue
				}
				if did {
					continue
				}
				a := m.aff()
				if want := fm(a.x, finv(a.y)); bigF(f).Cmp(want) != 0 {
					t.Failf("MapToFieldElement(%v) = %#x, expected %#x", x, bigF(f), want)
				}
				if s := shows(copyAny(xo), m); s != "" {
					t.Failf("MapToFieldElement(%v) changed the point: %s", x, s)
				}
			}
		}
		t.State("map", m.key())
	})
	r.EachN(1, nArgTypes, func(i int) string { return "map/nap/" + typeNames[i] }, func(t *vk.T, typ int) {
		for _, x := range naps(typ, false) {
			xo, _ := x.get()
			if did, _ := vk.Panics(func() { cp.MapToFieldElement(xo) }); !did {
				t.Failf("MapToFieldElement(%v %v) accepted", typeNames[typ], x.name)
			}
			t.Eval(1)
		}
	})
}

// p07reuse: the same with the coordinates in the same two variables from call to call (all ordered pairs of values): the answer depends
// on the values alone
func p07reuse(r *vk.Run, vals []*big.Int) {
	if !r.Thorough && len(vals) > 40 {
		vals = vals[:40]
	}
	type ctor struct {
		name string
		n    int // number of coordinates
		f    func(x, y *F, s int, tr common.IsInputTrusted) (PI, error)
	}
	ctors := []ctor{
		{"CurvePointFromXAndSignY_full", 1, func(x, y *F, s int, tr common.IsInputTrusted) (PI, error) {
			p, err := cp.CurvePointFromXAndSignY_full(x, s, tr)
			return &p, err
		}},
		{"CurvePointFromXAndSignY_subgroup", 1, func(x, y *F, s int, tr common.IsInputTrusted) (PI, error) {
			p, err := cp.CurvePointFromXAndSignY_subgroup(x, s, tr)
			return &p, err
		}},
		{"CurvePointFromYAndSignX_full", 1, func(x, y *F, s int, tr common.IsInputTrusted) (PI, error) {
			p, err := cp.CurvePointFromYAndSignX_full(x, s, tr)
			return &p, err
		}},
		{"CurvePointFromYAndSignX_subgroup", 1, func(x, y *F, s int, tr common.IsInputTrusted) (PI, error) {
			p, err := cp.CurvePointFromYAndSignX_subgroup(x, s, tr)
			return &p, err
		}},
		{"CurvePointFromXTimesSignY_subgroup", 1, func(x, y *F, s int, tr common.IsInputTrusted) (PI, error) {
			p, err := cp.CurvePointFromXTimesSignY_subgroup(x, tr)
			return &p, err
		}},
		{"CurvePointFromXYAffine_full", 2, func(x, y *F, s int, tr common.IsInputTrusted) (PI, error) {
			p, err := cp.CurvePointFromXYAffine_full(x, y, tr)
			return &p, err
		}},
		{"CurvePointFromXYAffine_subgroup", 2, func(x, y *F, s int, tr common.IsInputTrusted) (PI, error) {
			p, err := cp.CurvePointFromXYAffine_subgroup(x, y, tr)
			return &p, err
		}},
		{"CurvePointFromXYTimesSignY_subgroup", 2, func(x, y *F, s int, tr common.IsInputTrusted) (PI, error) {
			p, err := cp.CurvePointFromXYTimesSignY_subgroup(x, y, tr)
			return &p, err
		}},
		{"CurvePointFromYXTimesSignY_subgroup", 2, func(x, y *F, s int, tr common.IsInputTrusted) (PI, error) {
			p, err := cp.CurvePointFromYXTimesSignY_subgroup(y, x, tr)
			return &p, err
		}},
	}
	// inputs: for one coordinate all values and both signs; for two coordinates all values with their partners
	type input struct {
		x, y *big.Int
		s    int
	}
	var in [3][]input
	for _, v := range vals {
		in[1] = append(in[1], input{v, v, 1}, input{v, v, -1})
		if y, ok := yFromX(v); ok {
			in[2] = append(in[2], input{v, y, 1}, input{v, fneg(y), 1})
		} else {
			in[2] = append(in[2], input{v, vk.BI(1), 1})
		}
	}
	r.EachN(1, len(ctors), func(i int) string { return "same variables/" + ctors[i].name }, func(t *vk.T, i int) {
		c := ctors[i]
		ins := in[c.n]
		show := func(p PI, err error) string {
			if err != nil {
				return "error " + err.Error()
			}
			q := copyRaw(p)
			if q.IsNaP() {
				return "NaP"
			}
			return bigF(q.X_decaf_affine()).Text(16) + "," + bigF(q.Y_decaf_affine()).Text(16)
		}
		call := func(x, y *F, q input) (s string) {
			did, v := vk.Panics(func() {
				p, err := c.f(x, y, q.s, common.UntrustedInput)
				if isNil(err) {
					err = nil
				}
				s = show(p, err)
			})
			if did {
				return fmt.Sprint("panic ", v)
			}
			return
		}
		want := make([]string, len(ins))
		for k, q := range ins {
			x, y := new(F), new(F)
			*x, *y = mkF(q.x, false), mkF(q.y, false)
			want[k] = call(x, y, q)
		}
		x, y := new(F), new(F)
		for a := range ins {
			for b := range ins {
				for _, k := range []int{a, b} {
					*x, *y = mkF(ins[k].x, false), mkF(ins[k].y, false)
					if got := call(x, y, ins[k]); got != want[k] {
						t.Fatalf("%s of (%#x,%#x) and sign %d, in variables that held (%#x,%#x) in the previous call: %s, in other variables %s", c.name, ins[k].x, ins[k].y, ins[k].s, ins[a].x, ins[a].y, got, want[k])
					}
					t.Eval(1)
				}
			}
			t.Alive()
		}
		t.State("reuse", c.name)
	})
}

func isNil(x any) bool {
	if x == nil {
		return true
	}
	v := reflect.ValueOf(x)
	return v.Kind() == reflect.Pointer && v.IsNil()
}
