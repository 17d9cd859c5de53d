//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"reflect"

	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

type fullRead interface {
	PI
	T_affine() F
	XYT_affine() (F, F, F)
	T_projective() F
	XYTZ_projective() (F, F, F, F)
}

// read is a (group of) read-only calls with a check of all answers against the model. Returns "" or a description.
type read struct {
	name string
	aff  bool // affine coordinates: must be refused for points at infinity
	f    func(p PI, m mp) string
}

func isF(name string, got F, want *big.Int) string {
	if g := bigF(got); g.Cmp(want) != 0 {
		return fmt.Sprintf("%s = %#x, expected %#x", name, g, want)
	}
	return ""
}
func or(ss ...string) string {
	for _, s := range ss {
		if s != "" {
			return s
		}
	}
	return ""
}
func isB(name string, got, want bool) string {
	if got != want {
		return fmt.Sprintf("%s = %v", name, got)
	}
	return ""
}

func exact(m mp, what string, X, Y, T, Z F) string {
	x, y, t, z := bigF(X), bigF(Y), bigF(T), bigF(Z)
	if !m.matches(x, y, t, z) {
		return fmt.Sprintf("%s: coordinates are those of %s", what, identify(x, y, t, z))
	}
	return ""
}
func decaf(m mp, what string, X, Y, T, Z F) string {
	x, y, t, z := bigF(X), bigF(Y), bigF(T), bigF(Z)
	if !m.matches(x, y, t, z) && !m.add(mk(vk.BI(0), tA)).matches(x, y, t, z) {
		return fmt.Sprintf("%s: coordinates are those of %s", what, identify(x, y, t, z))
	}
	return ""
}

var perms4 = func() (out [][4]int) {
	for a := 0; a < 4; a++ {
		for b := 0; b < 4; b++ {
			for c := 0; c < 4; c++ {
				d := 6 - a - b - c
				if a != b && a != c && b != c && d >= 0 && d < 4 {
					out = append(out, [4]int{a, b, c, d})
				}
			}
		}
	}
	return
}()

func reads() (out []read) {
	add := func(name string, aff bool, f func(p PI, m mp) string) { out = append(out, read{name, aff, f}) }
	add("IsNaP", false, func(p PI, m mp) string { return isB("IsNaP", p.IsNaP(), false) })
	add("IsNeutralElement", false, func(p PI, m mp) string {
		return isB("IsNeutralElement", p.IsNeutralElement(), m.eq(mk(vk.BI(0), tN)))
	})
	add("IsAtInfinity", false, func(p PI, m mp) string { return isB("IsAtInfinity", p.IsAtInfinity(), m.inf()) })
	add("IsE1,IsE2", false, func(p PI, m mp) string {
		d, ok := p.(cp.CurvePointPtrInterfaceDistinguishInfinity)
		if !ok {
			return isB("distinguishes infinity", p.CanRepresentInfinity(), false)
		}
		return or(isB("IsE1", d.IsE1(), m.inf() && m.t == tE1), isB("IsE2", d.IsE2(), m.inf() && m.t == tE2))
	})
	add("IsInSubgroup", false, func(p PI, m mp) string { return isB("IsInSubgroup", p.IsInSubgroup(), m.sub()) })
	add("X_affine", true, func(p PI, m mp) string { return isF("X_affine", p.X_affine(), m.aff().x) })
	add("Y_affine", true, func(p PI, m mp) string { return isF("Y_affine", p.Y_affine(), m.aff().y) })
	add("T_affine", true, func(p PI, m mp) string { return isF("T_affine", p.(fullRead).T_affine(), m.aff().t) })
	add("XY_affine", true, func(p PI, m mp) string {
		x, y := p.XY_affine()
		return or(isF("X of XY_affine", x, m.aff().x), isF("Y of XY_affine", y, m.aff().y))
	})
	add("XYT_affine", true, func(p PI, m mp) string {
		x, y, t := p.(fullRead).XYT_affine()
		return or(isF("X of XYT_affine", x, m.aff().x), isF("Y of XYT_affine", y, m.aff().y), isF("T of XYT_affine", t, m.aff().t))
	})
	add("decaf_affine X,Y,T", true, func(p PI, m mp) string {
		x, y, t := p.X_decaf_affine(), p.Y_decaf_affine(), p.T_decaf_affine()
		return decaf(m, "decaf_affine", x, y, t, mkF(vk.BI(1), false))
	})
	add("decaf_affine T,Y,X", true, func(p PI, m mp) string {
		t, y, x := p.T_decaf_affine(), p.Y_decaf_affine(), p.X_decaf_affine()
		return decaf(m, "decaf_affine", x, y, t, mkF(vk.BI(1), false))
	})
	add("decaf_affine Y,X", true, func(p PI, m mp) string {
		y, x := p.Y_decaf_affine(), p.X_decaf_affine()
		var t F
		t.Mul(&x, &y)
		return decaf(m, "decaf_affine", x, y, t, mkF(vk.BI(1), false))
	})
	add("XYZ_projective", false, func(p PI, m mp) string {
		x, y, z := p.XYZ_projective()
		X, Y, Z := bigF(x), bigF(y), bigF(z)
		a := m.aff()
		if a.inf {
			if X.Sign() == 0 || Y.Sign() != 0 || Z.Sign() != 0 {
				return fmt.Sprintf("XYZ_projective=(%#x:%#x:%#x)", X, Y, Z)
			}
			return ""
		}
		if Z.Sign() == 0 || X.Cmp(fm(a.x, Z)) != 0 || Y.Cmp(fm(a.y, Z)) != 0 {
			return fmt.Sprintf("XYZ_projective=(%#x:%#x:%#x)", X, Y, Z)
		}
		return ""
	})
	add("XYTZ_projective", false, func(p PI, m mp) string {
		x, y, t, z := p.(fullRead).XYTZ_projective()
		return exact(m, "XYTZ_projective", x, y, t, z)
	})
	add("single projective getters", false, func(p PI, m mp) string {
		for _, o := range perms4 {
			var c [4]F
			q := copyAny(p)
			for _, k := range o {
				switch k {
				case 0:
					c[0] = q.X_projective()
				case 1:
					c[1] = q.Y_projective()
				case 2:
					c[2] = q.(fullRead).T_projective()
				case 3:
					c[3] = q.Z_projective()
				}
			}
			if s := exact(m, fmt.Sprintf("single projective getters in order %v", o), c[0], c[1], c[2], c[3]); s != "" {
				return s
			}
		}
		return exact(m, "single projective getters", p.X_projective(), p.Y_projective(), p.(fullRead).T_projective(), p.Z_projective())
	})
	add("single decaf projective getters", false, func(p PI, m mp) string {
		for _, o := range perms4 {
			var c [4]F
			q := copyAny(p)
			for _, k := range o {
				switch k {
				case 0:
					c[0] = q.X_decaf_projective()
				case 1:
					c[1] = q.Y_decaf_projective()
				case 2:
					c[2] = q.T_decaf_projective()
				case 3:
					c[3] = q.Z_decaf_projective()
				}
			}
			if s := decaf(m, fmt.Sprintf("single decaf projective getters in order %v", o), c[0], c[1], c[2], c[3]); s != "" {
				return s
			}
		}
		return decaf(m, "decaf projective getters", p.X_decaf_projective(), p.Y_decaf_projective(), p.T_decaf_projective(), p.Z_decaf_projective())
	})
	add("NormalizeForZ", false, func(p PI, m mp) string {
		n, ok := p.(cp.NormalizerForZ)
		if !ok {
			return ""
		}
		if s := isB("NormalizeForZ", n.NormalizeForZ(), !m.inf()); s != "" {
			return s
		}
		if m.inf() {
			return ""
		}
		q := copyAny(p)
		return or(isF("Z_decaf_projective after NormalizeForZ", p.Z_decaf_projective(), vk.BI(1)), exactOrDecafZ1(q, m))
	})
	add("NormalizeForY", false, func(p PI, m mp) string {
		n, ok := p.(cp.NormalizerForY)
		if !ok {
			return ""
		}
		if s := isB("NormalizeForY", n.NormalizeForY(), !m.inf()); s != "" {
			return s
		}
		if m.inf() {
			return ""
		}
		return isF("Y_decaf_projective after NormalizeForY", p.Y_decaf_projective(), vk.BI(1))
	})
	add("MapToFieldElement", true, func(p PI, m mp) string {
		return isF("MapToFieldElement", cp.MapToFieldElement(p), fm(m.aff().x, finv(m.aff().y)))
	})
	add("String", false, func(p PI, m mp) string { _ = fmt.Sprint(p); return "" })
	add("CanRepresent", false, func(p PI, m mp) string {
		typ := -1
		for i := 0; i < nTypes; i++ {
			if reflect.TypeOf(fresh(i)) == reflect.TypeOf(p) {
				typ = i
			}
		}
		if typ < 0 {
			return ""
		}
		return or(isB("CanRepresentInfinity", p.CanRepresentInfinity(), hasInf(typ)), isB("CanOnlyRepresentSubgroup", p.CanOnlyRepresentSubgroup(), isSub(typ)))
	})
	add("Clone", false, func(p PI, m mp) string {
		q := p.Clone()
		if s := showsExact(copyAny(q), m); s != "" {
			return "clone: " + s
		}
		if _, _, ok := unwrapKind(p); !ok && reflect.TypeOf(p) != reflect.TypeOf(q) {
			return fmt.Sprintf("clone of a %T is a %T", p, q)
		}
		q.DoubleEq()
		if s := shows(copyAny(p), m); s != "" {
			return "after doubling a clone, the original " + s
		}
		q = p.Clone()
		save := copyAny(p)
		p.NegEq()
		p.DoubleEq()
		if s := shows(copyAny(q), m); s != "" {
			return "after changing the original, the clone " + s
		}
		copy(memOf(innerOf(p)), memOf(save)) // restore
		return ""
	})
	return
}

func innerOf(p PI) PI {
	switch q := p.(type) {
	case fgnXtwF:
		return q.Point_xtw_full
	case fgnXtwS:
		return q.Point_xtw_subgroup
	case fgnAxtwF:
		return q.CurvePointPtrInterface
	case fgnEfghS:
		return q.CurvePointPtrInterface
	case fgnEfghF:
		return q.Point_efgh_full
	case fgnAxtwS:
		return q.Point_axtw_subgroup
	case fgnXtwNoT:
		return q.CurvePointPtrInterface
	}
	return p
}

func unwrapKind(p PI) (PI, int, bool) {
	q := innerOf(p)
	return q, 0, q != p
}

// after NormalizeForZ, the decaf coordinates with Z=1 are the affine coordinates up to P vs. P+A
func exactOrDecafZ1(p PI, m mp) string {
	x, y := p.X_decaf_projective(), p.Y_decaf_projective()
	var t F
	t.Mul(&x, &y)
	return decaf(m, "after NormalizeForZ", x, y, t, mkF(vk.BI(1), false))
}

func p02(r *vk.Run) {
	initGarbage()
	kl := 1
	if r.Thorough {
		kl = 2
	}
	ms := models(kset(kl))
	rs := repTable(ms, 2, nArgTypes)
	rd := reads()
	// all ordered pairs of reads on one object
	type job struct{ typ, i int }
	var jobs []job
	for typ := 0; typ < nTypes; typ++ {
		for i := range rs[typ] {
			jobs = append(jobs, job{typ, i})
		}
	}
	do := func(t *vk.T, rep *rep, p PI, o read, hist string) bool {
		var s string
		did, val := vk.Panics(func() { s = o.f(p, rep.m) })
		if o.aff && rep.m.inf() {
			if !did {
				t.Failf("%v%s: %s of a point at infinity was not refused", rep, hist, o.name)
				return false
			}
			s, did = "", false
		}
		if did {
			t.Failf("%v%s: %s: panic %v", rep, hist, o.name, val)
			return false
		}
		if s != "" {
			t.Failf("%v%s: %s", rep, hist, s)
			return false
		}
		if s := shows(copyAny(p), rep.m); s != "" {
			t.Failf("%v%s: after %s, the point is a different one: %s", rep, hist, o.name, s)
			return false
		}
		return true
	}
	r.Each(len(jobs), func(i int) string { return "reads/" + rs[jobs[i].typ][jobs[i].i].String() }, func(t *vk.T, i int) {
		rp := rs[jobs[i].typ][jobs[i].i]
		t.Sample(rp.String())
		for _, a := range rd {
			p, _ := rp.get()
			if !do(t, rp, p, a, "") {
				continue
			}
			base := copyRaw(p)
			t.State(typeNames[rp.typ], string(memOf(p)))
			for _, b := range rd {
				p := copyRaw(base)
				if do(t, rp, p, b, " after "+a.name) {
					t.State(typeNames[rp.typ], string(memOf(p)))
				}
				if r.Thorough && !t.Failed() {
					base := copyRaw(p)
					for _, c := range rd {
						do(t, rp, copyRaw(base), c, " after "+a.name+" after "+b.name)
					}
					t.Eval(len(rd))
					t.Trans(len(rd))
					t.Trace(len(rd))
				}
			}
			t.Eval(1 + len(rd))
			t.Trans(1 + len(rd))
			t.Trace(len(rd))
		}
	})
	// equality
	type ej struct{ a, b int }
	var ejs []ej
	for a := 0; a < nTypes; a++ {
		for b := 0; b < nArgTypes; b++ {
			ejs = append(ejs, ej{a, b})
		}
	}
	r.Each(len(ejs), func(i int) string { return fmt.Sprintf("equal/%v.%v", typeNames[ejs[i].a], typeNames[ejs[i].b]) }, func(t *vk.T, i int) {
		as, bs := rs[ejs[i].a], rs[ejs[i].b]
		for _, a := range as {
			for _, b := range bs {
				ao, ai := a.get()
				bo, bi := b.get()
				what := func() string { return fmt.Sprintf("%v.IsEqual(%v)", a, b) }
				var got bool
				did, val := vk.Panics(func() { got = ao.IsEqual(bo) })
				if did {
					t.Failf("%s: panic %v", what(), val)
				} else if got != a.m.eq(b.m) {
					t.Failf("%s = %v", what(), got)
				}
				argOK(t, a, ai, what)
				argOK(t, b, bi, what)
			}
			t.State("eq", a.String(), typeNames[ejs[i].b])
			// with itself
			ao, _ := a.get()
			if !ao.IsEqual(ao) {
				t.Failf("%v is not equal to itself (same pointer)", a)
			}
		}
		t.Eval(len(as) * (len(bs) + 1))
		t.Trans(len(as) * (len(bs) + 1))
		t.Trace(len(as) * (len(bs) + 1))
	})
	// type properties are available on nil pointers; exported constants
	r.Case("static", func(t *vk.T) {
		for typ := 0; typ < nTypes; typ++ {
			var inf, sub bool
			did, val := vk.Panics(func() {
				n := reflect.Zero(reflect.TypeOf(fresh(typ))).Interface().(PI)
				inf, sub = n.CanRepresentInfinity(), n.CanOnlyRepresentSubgroup()
			})
			if did {
				t.Failf("type properties of nil %v: panic %v", typeNames[typ], val)
			} else if inf != hasInf(typ) || sub != isSub(typ) {
				t.Failf("type properties of nil %v: %v %v", typeNames[typ], inf, sub)
			}
		}
		O, G, A, E1, E2 := mk(vk.BI(0), tN), mk(vk.BI(1), tN), mk(vk.BI(0), tA), mk(vk.BI(0), tE1), mk(vk.BI(0), tE2)
		for _, c := range []struct {
			name string
			p    PI
			m    mp
		}{
			{"SubgroupGenerator_xtw_subgroup", &cp.SubgroupGenerator_xtw_subgroup, G},
			{"NeutralElement_xtw_subgroup", &cp.NeutralElement_xtw_subgroup, O},
			{"NeutralElement_xtw_full", &cp.NeutralElement_xtw_full, O},
			{"AffineOrderTwoPoint_xtw", &cp.AffineOrderTwoPoint_xtw, A},
			{"AffineOrderTwoPoint_axtw", &cp.AffineOrderTwoPoint_axtw, A},
			{"InfinitePoint1_xtw", &cp.InfinitePoint1_xtw, E1},
			{"InfinitePoint2_xtw", &cp.InfinitePoint2_xtw, E2},
		} {
			if s := showsExact(copyRaw(c.p), c.m); s != "" {
				t.Failf("%s: %s", c.name, s)
			}
			t.Eval(1)
		}
		for typ := 0; typ < nTypes; typ++ {
			for _, start := range []PI{fresh(typ), garbage(typ)} {
				start.SetNeutral()
				if s := showsExact(start, O); s != "" {
					t.Failf("SetNeutral on %v: %s", typeNames[typ], s)
				}
			}
			p := garbage(typ)
			if q, ok := p.(interface{ SetAffineTwoTorsion() }); ok && !isSub(typ) {
				q.SetAffineTwoTorsion()
				if s := showsExact(p, A); s != "" {
					t.Failf("SetAffineTwoTorsion on %v: %s", typeNames[typ], s)
				}
			}
			if q, ok := p.(interface {
				SetE1()
				SetE2()
			}); ok && hasInf(typ) {
				q.SetE1()
				if s := showsExact(copyRaw(p), E1); s != "" {
					t.Failf("SetE1 on %v: %s", typeNames[typ], s)
				}
				q.SetE2()
				if s := showsExact(p, E2); s != "" {
					t.Failf("SetE2 on %v: %s", typeNames[typ], s)
				}
			}
		}
	})
}
