//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"unsafe"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

type F = cp.FieldElement
type PI = cp.CurvePointPtrInterface
type PR = cp.CurvePointPtrInterfaceRead

var _ = common.TrustedInput

func mkF(v *big.Int, alt bool) (f F) {
	f.SetBigInt(v)
	if alt {
		f.RerandomizeRepresentation(1)
	}
	return
}

func bigF(f F) *big.Int { return (&f).ToBigInt() }

// the point types of the package
const (
	xtwF = iota
	xtwS
	axtwF
	axtwS
	efghF
	efghS
	nTypes
)

var typeNames = []string{"xtw_full", "xtw_sub", "axtw_full", "axtw_sub", "efgh_full", "efgh_sub",
	"foreign(xtw_full)", "foreign(axtw_full)", "foreign(efgh_sub)", "foreign(xtw_sub)", "foreign(efgh_full)", "foreign(axtw_sub)", "foreign(xtw_full without T)"}

// Foreign types: user-defined implementations of the interfaces, unknown to the package. They exercise all default branches.
type fgnXtwF struct{ *cp.Point_xtw_full }
type fgnAxtwF struct{ cp.CurvePointPtrInterface }
type fgnEfghS struct{ cp.CurvePointPtrInterface }
type fgnXtwS struct{ *cp.Point_xtw_subgroup }
type fgnEfghF struct{ *cp.Point_efgh_full }
type fgnXtwNoT struct {
	cp.CurvePointPtrInterface
	cp.CurvePointPtrInterfaceDistinguishInfinity
}
type fgnAxtwS struct{ *cp.Point_axtw_subgroup }

const nArgTypes = nTypes + 7

func isSub(typ int) bool {
	switch typ {
	case xtwS, axtwS, efghS, nTypes + 2, nTypes + 3, nTypes + 5:
		return true
	}
	return false
}
func hasInf(typ int) bool {
	switch typ {
	case xtwF, efghF, nTypes, nTypes + 4, nTypes + 6:
		return true
	}
	return false
}
func base(typ int) int { // underlying implementation
	if typ < nTypes {
		return typ
	}
	return [7]int{xtwF, axtwF, efghS, xtwS, efghF, axtwS, xtwF}[typ-nTypes]
}

func fresh(typ int) PI {
	switch base(typ) {
	case xtwF:
		return new(cp.Point_xtw_full)
	case xtwS:
		return new(cp.Point_xtw_subgroup)
	case axtwF:
		return new(cp.Point_axtw_full)
	case axtwS:
		return new(cp.Point_axtw_subgroup)
	case efghF:
		return new(cp.Point_efgh_full)
	case efghS:
		return new(cp.Point_efgh_subgroup)
	}
	panic("fresh")
}

// copyRaw returns a new point with the same internal representation (p must be one of the 6 real types).
func copyRaw(p PI) PI {
	switch p := p.(type) {
	case *cp.Point_xtw_full:
		c := *p
		return &c
	case *cp.Point_xtw_subgroup:
		c := *p
		return &c
	case *cp.Point_axtw_full:
		c := *p
		return &c
	case *cp.Point_axtw_subgroup:
		c := *p
		return &c
	case *cp.Point_efgh_full:
		c := *p
		return &c
	case *cp.Point_efgh_subgroup:
		c := *p
		return &c
	}
	panic("copyRaw")
}

func memOf(p PI) []byte {
	switch p := p.(type) {
	case *cp.Point_xtw_full:
		return unsafe.Slice((*byte)(unsafe.Pointer(p)), unsafe.Sizeof(*p))
	case *cp.Point_xtw_subgroup:
		return unsafe.Slice((*byte)(unsafe.Pointer(p)), unsafe.Sizeof(*p))
	case *cp.Point_axtw_full:
		return unsafe.Slice((*byte)(unsafe.Pointer(p)), unsafe.Sizeof(*p))
	case *cp.Point_axtw_subgroup:
		return unsafe.Slice((*byte)(unsafe.Pointer(p)), unsafe.Sizeof(*p))
	case *cp.Point_efgh_full:
		return unsafe.Slice((*byte)(unsafe.Pointer(p)), unsafe.Sizeof(*p))
	case *cp.Point_efgh_subgroup:
		return unsafe.Slice((*byte)(unsafe.Pointer(p)), unsafe.Sizeof(*p))
	}
	panic("memOf")
}

// sameRaw tells whether the internal representation is the same (a sufficient condition for being the same point)
func sameRaw(p, q PI) bool { return bytes.Equal(memOf(p), memOf(q)) }

// wrap turns a point of a real type into the argument type (identity for real types)
func wrap(typ int, p PI) PI {
	switch typ {
	case nTypes:
		return fgnXtwF{p.(*cp.Point_xtw_full)}
	case nTypes + 1:
		return fgnAxtwF{p}
	case nTypes + 2:
		return fgnEfghS{p}
	case nTypes + 3:
		return fgnXtwS{p.(*cp.Point_xtw_subgroup)}
	case nTypes + 4:
		return fgnEfghF{p.(*cp.Point_efgh_full)}
	case nTypes + 5:
		return fgnAxtwS{p.(*cp.Point_axtw_subgroup)}
	case nTypes + 6:
		return fgnXtwNoT{p, p.(*cp.Point_xtw_full)}
	}
	return p
}

// ---- direct access to the coordinates

var feType = reflect.TypeOf(F{})

func field(p PI, name string) (*F, bool) {
	rv := reflect.ValueOf(p).Elem().FieldByName(name)
	if !rv.IsValid() || rv.Type() != feType || !rv.CanAddr() {
		return nil, false
	}
	return (*F)(unsafe.Pointer(rv.UnsafeAddr())), true
}

func setFields(p PI, names string, vals []F) bool {
	for i, n := range strings.Split(names, "") {
		f, ok := field(p, n)
		if !ok {
			return false
		}
		*f = vals[i]
	}
	return true
}

var fieldNames = [nTypes]string{"xytz", "xytz", "xyt", "xyt", "efgh", "efgh"}

// direct tells whether the coordinates of all types are accessible under their names. If not, all representatives are made by the public API only.
var direct = func() bool {
	for typ := 0; typ < nTypes; typ++ {
		p := fresh(typ)
		n := len(fieldNames[typ])
		if !setFields(p, fieldNames[typ], make([]F, n)) {
			return false
		}
		// every field of type FieldElement must be one that we know
		if countFE(reflect.TypeOf(p).Elem()) != n {
			return false
		}
	}
	return true
}()

func countFE(t reflect.Type) (n int) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i).Type
		if f == feType {
			n++
		} else if f.Kind() == reflect.Struct {
			n += countFE(f)
		}
	}
	return
}

// rep is one representative of a model point in a point type.
type rep struct {
	m    mp
	typ  int // one of the argument types
	name string
	p    PI // master copy, of real type; never handed out
}

func (r *rep) get() (outer PI, inner PI) {
	inner = copyRaw(r.p)
	return wrap(r.typ, inner), inner
}
func (r *rep) String() string { return fmt.Sprintf("%v[%v;%v]", typeNames[r.typ], r.m, r.name) }

var (
	scaleM = vk.Generic(7, vk.P)
	scaleN = vk.Generic(8, vk.P)
	minus1 = vk.Sub(vk.P, vk.BI(1))
)

// reps returns representatives of the model point in the given type. level 0: two or so, 1: all kinds, 2: also all with alternative field element representations
func reps(typ int, m mp, level int) (out []*rep) {
	if isSub(typ) && !m.sub() || m.inf() && !hasInf(typ) {
		return nil
	}
	if !direct {
		return repsAPI(typ, m)
	}
	a := m.aff()
	b := base(typ)
	put := func(name string, alt bool, vals ...*big.Int) {
		p := fresh(typ)
		fs := make([]F, len(vals))
		for i, v := range vals {
			fs[i] = mkF(vk.Mod(v, vk.P), alt)
		}
		setFields(p, fieldNames[b], fs)
		if alt {
			name += ",alt"
		}
		out = append(out, &rep{m: m, typ: typ, name: name, p: p})
	}
	type proj struct {
		name       string
		x, y, t, z *big.Int
	}
	var ps []proj
	z := vk.BI(1)
	if a.inf {
		z = vk.BI(0)
	}
	ps = append(ps, proj{"", a.x, a.y, a.t, z})
	if isSub(typ) {
		ps = append(ps, proj{"+A", fneg(a.x), fneg(a.y), a.t, z})
	}
	for i, q := range ps {
		flip := i > 0
		switch b {
		case axtwF, axtwS:
			put("aff"+q.name, false, q.x, q.y, q.t)
			if level > 0 && !flip || level > 1 {
				put("aff"+q.name, true, q.x, q.y, q.t)
			}
		case xtwF, xtwS:
			sc := func(name string, s *big.Int, alt bool) {
				put(name+q.name, alt, fm(q.x, s), fm(q.y, s), fm(q.t, s), fm(q.z, s))
			}
			sc("scaled", scaleM, false)
			if level > 0 || !flip {
				sc("norm", vk.BI(1), false)
			}
			if level > 0 {
				if flip {
					sc("norm", vk.BI(1), true)
				} else {
					sc("scaled", scaleN, true)
				}
				if !a.inf && !flip {
					sc("y=1", finv(q.y), false)
				}
			}
			if level > 1 {
				sc("negated", minus1, true)
				sc("scaled2", vk.BI(2), false)
				if q.x.Sign() != 0 {
					sc("x=1", finv(q.x), true)
				}
			}
		case efghF, efghS:
			// x:z = e:g, y:z = h:f, t:y = e:g, t:x = h:f
			e, g, f, h := q.x, q.z, q.z, q.y
			if a.inf {
				e, g, f, h = vk.BI(1), vk.BI(0), q.x, q.t
			}
			sc := func(name string, s1, s2 *big.Int, alt bool) {
				put(name+q.name, alt, fm(e, s1), fm(f, s2), fm(g, s1), fm(h, s2))
			}
			sc("scaled", scaleM, scaleN, false)
			if level > 0 || !flip {
				sc("norm", vk.BI(1), finv(f), false)
			}
			if level > 0 {
				if flip {
					sc("eg-scaled", scaleN, vk.BI(1), true)
				} else {
					sc("h=1", vk.BI(1), finv(h), true)
					sc("fh-scaled", vk.BI(1), scaleM, false)
				}
			}
			if level > 1 {
				sc("z=1", finv2(g), finv(f), true)
				sc("neg", minus1, minus1, false)
				sc("neg1", minus1, scaleN, true)
			}
		}
	}
	return
}

func finv2(x *big.Int) *big.Int {
	if x.Sign() == 0 {
		return vk.BI(1)
	}
	return finv(x)
}

// repsAPI makes representatives by exported functions only.
func repsAPI(typ int, m mp) (out []*rep) {
	b := base(typ)
	affP := func(m mp) PI {
		a := m.aff()
		x, y := mkF(a.x, false), mkF(a.y, false)
		p, err := cp.CurvePointFromXYAffine_full(&x, &y, common.TrustedInput)
		if err != nil {
			panic(err)
		}
		return &p
	}
	full := new(cp.Point_efgh_full)
	if m.inf() {
		full.SetE1()
		if m.t == tE2 {
			full.SetE2()
		}
	} else {
		full.SetFrom(affP(m))
	}
	conv := func(q PI) PI {
		p := fresh(typ)
		if isSub(typ) {
			p.SetFromSubgroupPoint(q, common.TrustedInput)
		} else {
			p.SetFrom(q)
		}
		return p
	}
	out = append(out, &rep{m: m, typ: typ, name: "api", p: conv(full)})
	o := mk(vk.BI(12345), tN)
	q := new(cp.Point_efgh_full)
	q.Sub(full, affP(o))
	q.Add(q, affP(o))
	p := fresh(typ)
	if b == efghF || b == xtwF {
		p.SetFrom(q)
	} else {
		p = conv(q)
	}
	out = append(out, &rep{m: m, typ: typ, name: "api-computed", p: p})
	return
}

// ---- observation

type extended interface {
	XYTZ_projective() (F, F, F, F)
}

// shows checks that p is the model point (subgroup types: with the coordinates determined up to A). Returns "" or a description.
// Must be given a scratch copy or a point whose internal representation does not matter any more.
func shows(p PI, m mp) string {
	if p.CanOnlyRepresentSubgroup() {
		if !m.sub() {
			return fmt.Sprintf("model is %v, not in subgroup", m)
		}
		X, Y, T, Z := bigF(p.X_decaf_projective()), bigF(p.Y_decaf_projective()), bigF(p.T_decaf_projective()), bigF(p.Z_decaf_projective())
		if m.matches(X, Y, T, Z) || mk(m.k, tA).matches(X, Y, T, Z) {
			return ""
		}
		return fmt.Sprintf("point is %v (mod A), expected %v", identify(X, Y, T, Z), m)
	}
	var fX, fY, fT, fZ F
	if e, ok := p.(extended); ok {
		fX, fY, fT, fZ = e.XYTZ_projective()
	} else {
		fX, fY, fT, fZ = p.X_decaf_projective(), p.Y_decaf_projective(), p.T_decaf_projective(), p.Z_decaf_projective()
	}
	X, Y, T, Z := bigF(fX), bigF(fY), bigF(fT), bigF(fZ)
	if m.matches(X, Y, T, Z) {
		return ""
	}
	return fmt.Sprintf("point is %v, expected %v", identify(X, Y, T, Z), m)
}

// identify describes projective coordinates for messages
func identify(X, Y, T, Z *big.Int) string {
	if X.Sign() == 0 && Y.Sign() == 0 {
		return "NaP"
	}
	for _, m := range models(kset(2)) {
		if m.matches(X, Y, T, Z) {
			return m.String()
		}
	}
	if vk.Mod(vk.Sub(vk.Mul(X, Y), vk.Mul(T, Z)), vk.P).Sign() != 0 {
		return fmt.Sprintf("not on the curve: XY!=TZ, (%#x:%#x:%#x:%#x)", X, Y, T, Z)
	}
	l := vk.Add(vk.Mul(curvA, vk.Mul(X, X)), vk.Mul(Y, Y))
	r := vk.Add(vk.Mul(Z, Z), vk.Mul(curvD, vk.Mul(T, T)))
	if vk.Mod(vk.Sub(l, r), vk.P).Sign() != 0 {
		return fmt.Sprintf("not on the curve (%#x:%#x:%#x:%#x)", X, Y, T, Z)
	}
	return fmt.Sprintf("other curve point (%#x:%#x:%#x:%#x)", X, Y, T, Z)
}

// showsExact is shows without loss of the 2-torsion part: subgroup points must give exactly P's coordinates
func showsExact(p PI, m mp) string {
	if s := shows(copyAny(p), m); s != "" {
		return s
	}
	if e, ok := p.(extended); ok {
		fX, fY, fT, fZ := e.XYTZ_projective()
		X, Y, T, Z := bigF(fX), bigF(fY), bigF(fT), bigF(fZ)
		if !m.matches(X, Y, T, Z) {
			return fmt.Sprintf("exact coordinates are those of %v, expected %v", identify(X, Y, T, Z), m)
		}
	}
	return ""
}

func copyAny(p PI) PI {
	switch q := p.(type) {
	case fgnXtwF:
		return copyRaw(q.Point_xtw_full)
	case fgnXtwS:
		return copyRaw(q.Point_xtw_subgroup)
	case fgnAxtwF:
		return copyRaw(q.CurvePointPtrInterface)
	case fgnEfghS:
		return copyRaw(q.CurvePointPtrInterface)
	case fgnEfghF:
		return copyRaw(q.Point_efgh_full)
	case fgnAxtwS:
		return copyRaw(q.Point_axtw_subgroup)
	case fgnXtwNoT:
		return copyRaw(q.CurvePointPtrInterface)
	}
	return copyRaw(p)
}
