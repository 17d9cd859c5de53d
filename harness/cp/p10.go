//go:build go1.22

package main

import (
	"bytes"
	"fmt"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

// P10: a variable that holds a point is that point: all sequences of writes and reads up to a depth, starting with an uninitialized variable
// and others. After each step all queries are made, each on a copy of the variable, and compared with the model value.

type p10op struct {
	name string
	// next gives the value afterwards (nil: invalid) and whether the operation applies to this type and value at all
	next func(typ int, m *mp) (*mp, bool)
	do   func(typ int, p PI)
	read bool
}

func p10ops(level int) (out []p10op) {
	add := func(name string, next func(typ int, m *mp) (*mp, bool), do func(typ int, p PI)) {
		out = append(out, p10op{name, next, do, false})
	}
	const_ := func(v mp) func(int, *mp) (*mp, bool) {
		return func(typ int, m *mp) (*mp, bool) { return &v, fits(typ, v) }
	}
	unary := func(f func(mp) mp) func(int, *mp) (*mp, bool) {
		return func(typ int, m *mp) (*mp, bool) {
			if m == nil {
				return nil, true
			}
			v := f(*m)
			return &v, fits(typ, v)
		}
	}
	same := func(typ int, m *mp) (*mp, bool) { return m, true }
	add("SetNeutral()", const_(mk(vk.BI(0), tN)), func(typ int, p PI) { p.SetNeutral() })
	add("SetAffineTwoTorsion()", func(typ int, m *mp) (*mp, bool) { v := mk(vk.BI(0), tA); return &v, !isSub(typ) }, func(typ int, p PI) {
		p.(interface{ SetAffineTwoTorsion() }).SetAffineTwoTorsion()
	})
	add("SetE1()", const_(mk(vk.BI(0), tE1)), func(typ int, p PI) { p.(interface{ SetE1() }).SetE1() })
	add("SetE2()", const_(mk(vk.BI(0), tE2)), func(typ int, p PI) { p.(interface{ SetE2() }).SetE2() })
	add("NegEq()", unary(mp.neg), func(typ int, p PI) { p.NegEq() })
	add("DoubleEq()", unary(mp.dbl), func(typ int, p PI) { p.DoubleEq() })
	add("EndoEq()", unary(mp.endo), func(typ int, p PI) { p.EndoEq() })
	add("Add(self,self)", unary(mp.dbl), func(typ int, p PI) { p.Add(p, p) })
	add("SubEq(self)", unary(func(m mp) mp { return mk(vk.BI(0), tN) }), func(typ int, p PI) { p.SubEq(p) })
	add("= zero value", func(typ int, m *mp) (*mp, bool) { return nil, true }, func(typ int, p PI) { assign(p, fresh(typ)) })
	add("= clone", same, func(typ int, p PI) { assign(p, p.Clone()) })
	add("normalize for Z in a slice", same, func(typ int, p PI) {
		s, at := mkSlice(typ, []PI{garbage(typ), p})
		if b, ok := s.(cp.BatchNormalizerForZ); ok {
			b.BatchNormalizeForZ()
			assign(p, at(1))
		}
	})
	add("normalize for Y in a slice", same, func(typ int, p PI) {
		s, at := mkSlice(typ, []PI{p, garbage(typ)})
		if b, ok := s.(cp.BatchNormalizerForY); ok {
			b.BatchNormalizeForY()
			assign(p, at(0))
		}
	})
	// operands of every type
	type operand struct {
		typ int
		m   mp
	}
	operands := []operand{
		{xtwF, mk(vk.BI(1), tA)}, {xtwS, mk(vk.BI(2), tN)}, {efghF, mk(vk.BI(0), tE1)}, {axtwS, mk(vk.BI(-1), tN)}, {axtwF, mk(vk.BI(0), tA)},
	}
	if level > 0 {
		operands = append(operands, operand{efghS, mk(vk.BI(-2), tN)}, operand{efghF, mk(vk.BI(1), tE2)}, operand{nTypes, mk(vk.BI(-2), tE1)}, operand{nTypes + 3, mk(vk.BI(1), tN)})
	}
	if level == 2 {
		operands = nil
		for typ := 0; typ < nArgTypes; typ++ {
			for _, m := range []mp{mk(vk.BI(0), tN), mk(vk.BI(0), tA), mk(vk.BI(0), tE1), mk(vk.BI(0), tE2), mk(vk.BI(1), tN), mk(vk.BI(2), tA), mk(vk.Generic(9, vk.R), tN), mk(vk.Generic(9, vk.R), tA), mk(vk.BI(-1), tE2)} {
				if fits(typ, m) {
					operands = append(operands, operand{typ, m})
				}
			}
		}
	}
	for _, o := range operands {
		o := o
		rs := reps(o.typ, o.m, 0)
		rp := rs[len(rs)-1]
		get := func() PI { q, _ := rp.get(); return q }
		ok := func(typ int, v mp) bool { return fits(typ, v) && (!isSub(typ) || isSub(o.typ)) }
		add(fmt.Sprintf("AddEq(%v)", rp), func(typ int, m *mp) (*mp, bool) {
			if m == nil {
				return nil, !isSub(typ) || isSub(o.typ)
			}
			v := m.add(o.m)
			return &v, ok(typ, v)
		}, func(typ int, p PI) { p.AddEq(get()) })
		add(fmt.Sprintf("Sub(%v,self)", rp), func(typ int, m *mp) (*mp, bool) {
			if m == nil {
				return nil, !isSub(typ) || isSub(o.typ)
			}
			v := o.m.msub(*m)
			return &v, ok(typ, v)
		}, func(typ int, p PI) { p.Sub(get(), p) })
		set := func(v mp) func(int, *mp) (*mp, bool) {
			return func(typ int, m *mp) (*mp, bool) { return &v, ok(typ, v) }
		}
		add(fmt.Sprintf("SetFrom(%v)", rp), set(o.m), func(typ int, p PI) { p.SetFrom(get()) })
		if level > 0 || o.typ == xtwF || o.typ == axtwS {
			add(fmt.Sprintf("Double(%v)", rp), set(o.m.dbl()), func(typ int, p PI) { p.Double(get()) })
			add(fmt.Sprintf("Neg(%v)", rp), set(o.m.neg()), func(typ int, p PI) { p.Neg(get()) })
			add(fmt.Sprintf("Endo(%v)", rp), set(o.m.endo()), func(typ int, p PI) { p.Endo(get()) })
			add(fmt.Sprintf("SetFromSubgroupPoint(%v)", rp), func(typ int, m *mp) (*mp, bool) {
				if !o.m.sub() {
					return m, true
				}
				v := o.m
				return &v, true
			}, func(typ int, p PI) { p.SetFromSubgroupPoint(get(), common.UntrustedInput) })
		}
		if o.typ == efghF || o.typ == xtwS || level > 0 { // read together with another point
			out = append(out, p10op{fmt.Sprintf("IsEqual(%v)", rp), same, func(typ int, p PI) { p.IsEqual(get()) }, true})
		}
	}
	// serializer
	for i, s := range []ps.CurvePointSerializerModifyable{ps.BanderwagonShort, ps.BanderwagonLong} {
		i, s := i, s
		var b bytes.Buffer
		m := mk(vk.BI(int64(1-3*i)), tN)
		q, _ := reps(xtwS, m, 0)[0].get()
		s.SerializeCurvePoint(&b, q)
		bs := b.Bytes()
		add(fmt.Sprintf("deserialize %v", m), const_(m), func(typ int, p PI) {
			s.DeserializeCurvePoint(bytes.NewReader(bs), common.IsInputTrusted{}, p)
		})
		if i == 0 {
			add("deserialize truncated", same, func(typ int, p PI) {
				s.DeserializeCurvePoint(bytes.NewReader(bs[:20]), common.UntrustedInput, p)
			})
			add("serialize", same, func(typ int, p PI) { s.SerializeCurvePoint(new(bytes.Buffer), p) })
		}
	}
	for _, rd := range reads() {
		switch rd.name {
		case "IsInSubgroup", "X_affine", "XY_affine", "T_affine", "XYT_affine", "decaf_affine X,Y,T", "IsNeutralElement", "IsAtInfinity", "NormalizeForZ", "NormalizeForY", "XYTZ_projective", "MapToFieldElement", "String":
			rd := rd
			out = append(out, p10op{rd.name, func(typ int, m *mp) (*mp, bool) {
				return m, m != nil && !(rd.aff && m.inf()) || m == nil && rd.name != "MapToFieldElement"
			}, func(typ int, p PI) { rd.f(p, mk(vk.BI(0), tN)) }, true})
		}
	}
	return
}

// fits: can a variable of this type hold the point?
func fits(typ int, v mp) bool {
	if isSub(typ) {
		return v.sub()
	}
	return !v.inf() || hasInf(typ)
}

func assign(dst, src PI) { copy(memOf(dst), memOf(src)) }

func p10(r *vk.Run) {
	initGarbage()
	old := cp.SetNaPErrorHandler(handler)
	defer cp.SetNaPErrorHandler(old)
	curH.Store(&hstate{})
	defer curH.Store(&hstate{})
	p10run(r, 1, 2, "operands of all types/")
	curH.Store(&hstate{answer: true})
	p10run(r, 2, 0, "handler answers true/")
	curH.Store(&hstate{})
	if !r.Thorough {
		p10run(r, 3, 0, "")
		return
	}
	p10run(r, 3, 1, "long list/")
	p10run(r, 4, 0, "deep/")
}

// p10run explores all sequences of length depth of the operations of that level; at depth 4 the
// start values are one of each type.
func p10run(r *vk.Run, depth, level int, prefix string) {
	ops := p10ops(level)
	rd := reads()
	r.Extra(prefix+"operations", len(ops))
	r.Extra(prefix+"depth", depth)
	// every point that is compared with
	type fixed struct {
		m mp
		p PI
	}
	fix := [nTypes][]fixed{}
	for typ := 0; typ < nTypes; typ++ {
		for _, m := range []mp{mk(vk.BI(0), tN), mk(vk.BI(0), tA), mk(vk.BI(0), tE1), mk(vk.BI(0), tE2), mk(vk.BI(1), tN), mk(vk.BI(2), tN), mk(vk.BI(1), tA)} {
			if fits(typ, m) {
				fix[typ] = append(fix[typ], fixed{m, reps(typ, m, 0)[0].p})
			}
		}
	}
	// verify gives "" or what is wrong
	verify := func(t *vk.T, typ int, p PI, m *mp, full bool) string {
		t.Eval(1)
		if m == nil {
			if !copyRaw(p).IsNaP() {
				return "is a point, but should be invalid"
			}
			return ""
		}
		for k, o := range rd {
			if !full && k%3 == 1 && o.name != "IsInSubgroup" {
				continue
			}
			if o.aff && m.inf() || o.name == "Clone" && !full {
				continue
			}
			q := copyRaw(p)
			var s string
			did, val := vk.Panics(func() { s = o.f(q, *m) })
			if did {
				return fmt.Sprintf("%s panics: %v", o.name, val)
			}
			if s != "" {
				return s
			}
		}
		if v, ok := copyRaw(p).(interface{ Validate() bool }); ok && !v.Validate() {
			return "is not Valid"
		}
		ft := (typ*5 + int(vk.Hash64(m.key())%nTypes)) % nTypes
		for _, f := range fix[ft] {
			want := f.m.eq(*m)
			if copyRaw(p).IsEqual(copyRaw(f.p)) != want || copyRaw(f.p).IsEqual(copyRaw(p)) != want {
				return fmt.Sprintf("should be %v, comparison with the %v %v gives %v", *m, typeNames[ft], f.m, !want)
			}
		}
		if q := p.Clone(); !copyRaw(p).IsEqual(q) {
			return "differs from its clone"
		}
		return ""
	}
	type start struct {
		typ int
		m   *mp
		p   PI
	}
	var starts []start
	for typ := 0; typ < nTypes; typ++ {
		if depth > 3 {
			m := mk(vk.Generic(9, vk.R), tN)
			rs := reps(typ, m, 0)
			starts = append(starts, start{typ, &m, rs[len(rs)-1].p})
			continue
		}
		starts = append(starts, start{typ, nil, fresh(typ)})
		for _, m := range []mp{mk(vk.BI(0), tE2), mk(vk.Generic(9, vk.R), tN), mk(vk.Generic(9, vk.R), tA)} {
			m := m
			if fits(typ, m) {
				rs := reps(typ, m, 0)
				starts = append(starts, start{typ, &m, rs[len(rs)-1].p})
			}
		}
	}
	r.Each(len(starts)*len(ops), func(i int) string {
		s := starts[i/len(ops)]
		return fmt.Sprintf("%v%v/%v/%v", prefix, typeNames[s.typ], s.m, ops[i%len(ops)].name)
	}, func(t *vk.T, i int) {
		s := starts[i/len(ops)]
		type node struct {
			p    PI
			m    *mp
			path string
		}
		nodes := []node{{copyRaw(s.p), s.m, fmt.Sprintf("%v holding %v", typeNames[s.typ], s.m)}}
		seen := map[string]bool{}
		for d := 0; d < depth && !t.Failed(); d++ {
			var next []node
			for _, n := range nodes {
				for oi, o := range ops {
					if d == 0 && oi != i%len(ops) {
						continue
					}
					if d == depth-1 && o.read && level != 1 {
						continue // all reads are made anyway
					}
					m, ok := o.next(s.typ, n.m)
					if !ok {
						continue
					}
					q := copyRaw(n.p)
					path := n.path + "; " + o.name
					did, val := vk.Panics(func() { o.do(s.typ, q) })
					t.Trans(1)
					if did && (n.m == nil || o.read && n.m.inf()) {
						// reading coordinates of an invalid point may be refused; then nothing changes
						did, m = false, n.m
					}
					if did {
						t.Failf("%s: panic %v", path, val)
						return
					}
					if bad := verify(t, s.typ, q, m, d < depth-1 || depth == 1); bad != "" {
						t.Failf("%s: %s", path, bad)
						return
					}
					key := string(memOf(q))
					if m == nil {
						key += "invalid"
					}
					if !seen[key] {
						seen[key] = true
						t.State(typeNames[s.typ], key)
						next = append(next, node{q, m, path})
					}
				}
				t.Alive()
			}
			nodes = next
		}
		t.Trace(len(nodes))
	})
}
