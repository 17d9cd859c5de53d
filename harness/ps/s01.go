//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

// configs of a format for single points
func singleSpecs(f int, level int) (out []spec) {
	b := baseSpec(f)
	hs := [][2]pfx{{b.h1, b.h2}}
	switch f {
	case fShort:
		hs = append(hs, [2]pfx{{0, 0}, {}}, [2]pfx{{0, 1}, {}})
	case fLong:
		hs = append(hs, [2]pfx{{0, 0}, {0, 0}}, [2]pfx{{1, 1}, {0, 1}}, [2]pfx{{3, 2}, {0, 0}})
	case fXY:
		hs = append(hs, [2]pfx{{1, 1}, {0, 1}}, [2]pfx{{0, 0}, {1, 1}})
	}
	frs := [][6]string{{}, {spf: "ftr"}, {sph: "hd"}, {sph: "\x00", spf: "\xff\x80"}}
	for i, h := range hs {
		for j, fr := range frs {
			if level == 0 && i > 0 && j > 0 {
				continue
			}
			for _, be := range []bool{false, true} {
				for _, sub := range []bool{false, true} {
					if f <= fLong && !sub {
						continue
					}
					s := b
					s.h1, s.h2, s.be, s.subOnly, s.fr = h[0], h[1], be, sub, fr
					out = append(out, s)
				}
			}
		}
	}
	return
}

func points(level int) (out []mp) {
	for _, m := range models(kset(level)) {
		out = append(out, m)
	}
	if level > 0 { // more subgroup points: all sign combinations of X and Y several times
		n := 24
		if level > 1 {
			n = 400
		}
		for i := 0; i < n; i++ {
			out = append(out, mk(vk.BI(int64(i+4)), []int{tN, tN, tN, tA, tE1, tE2}[i%6]))
		}
	}
	return
}

func quietNaPs() { napsAnswer(false) }

func napsAnswer(b bool) {
	cp.SetNaPErrorHandler(func(string, bool, ...cp.CurvePointPtrInterfaceBaseRead) bool { return b })
}

// s01naps: invalid points are refused, whatever the handler answers
func s01naps(r *vk.Run, specs []spec) {
	defer quietNaPs()
	for _, answer := range []bool{false, true} {
		napsAnswer(answer)
		r.Each(len(specs), func(i int) string { return fmt.Sprintf("%v/invalid points, handler answers %v", specs[i], answer) }, func(t *vk.T, i int) {
			s := specs[i]
			sr, _ := s.views()
			for typ := 0; typ < nTypes; typ++ {
				for kind := 0; kind < 5; kind++ {
					p, other := fresh(typ), filled(typ)
					desc := [...]string{"uninitialized", "invalid + valid", "valid + invalid", "2 * invalid", "-invalid"}[kind]
					switch kind {
					case 1:
						p.AddEq(other)
					case 2:
						other.AddEq(p)
						p = other
					case 3:
						p.DoubleEq()
					case 4:
						p.NegEq()
					}
					var w bytes.Buffer
					n, err := sr.SerializeCurvePoint(&w, p)
					if err == nil || !errors.Is(err, be.ErrCannotSerializeNaP) || n != w.Len() || w.String() != s.fr[sph] {
						t.Failf("serializing an invalid %s (%s): n=%d err=%v %x", typeNames[typ], desc, n, err, w.Bytes())
					} else if g := err.GetData_struct(); g.PartialWrite != (n > 0) || g.IoError {
						t.Failf("serializing an invalid %s (%s): error data %+v", typeNames[typ], desc, g)
					}
					if !p.IsNaP() {
						t.Failf("serializing an invalid %s (%s): the point became valid", typeNames[typ], desc)
					}
					t.Eval(1)
					t.State("nap", s.String(), typeNames[typ], desc, fmt.Sprint(answer))
				}
			}
		})
	}
}

func s01(r *vk.Run) {
	quietNaPs()
	lvl := 1
	if r.Thorough {
		lvl = 2
	}
	var specs []spec
	for _, f := range formats() {
		specs = append(specs, singleSpecs(f, lvl-1)...)
	}
	pts := points(lvl)
	r.Extra("configurations", len(specs))
	r.Extra("points", len(pts))
	s01naps(r, specs)
	r.Each(len(pts)*len(specs), func(i int) string { return fmt.Sprintf("%v/%v", specs[i%len(specs)], pts[i/len(specs)]) }, func(t *vk.T, i int) {
		s, m := specs[i%len(specs)], pts[i/len(specs)]
		sr, ds := s.views()
		rl := lvl
		if s.fr != [6]string{} {
			rl--
		}
		// parameters
		for vi, d := range ds {
			if int(d.OutputLength()) != s.singleLen() {
				t.Failf("%s: OutputLength is %d, expected %d", viewNames[vi], d.OutputLength(), s.singleLen())
			}
			if d.IsSubgroupOnly() != s.subOnly {
				t.Failf("%s: IsSubgroupOnly is %v", viewNames[vi], d.IsSubgroupOnly())
			}
		}
		var refused error
		switch {
		case m.inf():
			refused = be.ErrCannotSerializePointAtInfinity
		case s.subOnly && !m.sub():
			refused = be.ErrWillNotSerializePointOutsideSubgroup
		}
		var want []byte
		if refused == nil {
			a := m.aff()
			want = s.single(a.x, a.y)
		}
		for typ := 0; typ < nArgTypes; typ++ {
			for _, rp := range reps(typ, m, rl) {
				p, _ := rp.get()
				var w bytes.Buffer
				w.WriteString("<<")
				n, err := sr.SerializeCurvePoint(&w, p)
				got := w.Bytes()[2:]
				t.Eval(1)
				t.State(s.String(), rp.String())
				if refused != nil {
					// the framing before the point may have been written
					if err == nil || !errors.Is(err, refused) {
						t.Failf("serializing %v: error %v, expected %v", rp, err, refused)
					} else if bad := badText(err.Error()); bad != "" {
						t.Failf("serializing %v: %s", rp, bad)
					}
					if n != len(got) || string(got) != s.fr[sph] {
						t.Failf("serializing %v was refused (%v), but %d bytes %x were written", rp, err, n, got)
					}
					if err != nil {
						if g := err.GetData_struct(); g.PartialWrite != (n > 0) || g.IoError {
							t.Failf("serializing %v: error data %+v", rp, g)
						}
					}
					continue
				}
				if err != nil || n != len(want) || !bytes.Equal(got, want) {
					t.Failf("serializing %v gives n=%d err=%v\n  %x, expected\n  %x", rp, n, err, got, want)
					continue
				}
				if bad := shows(copyAny(p), m); bad != "" {
					t.Failf("serializing %v changed the point: %s", rp, bad)
				}
			}
		}
		if refused != nil {
			return
		}
		tail := []byte("trailing")
		for typ := 0; typ < nArgTypes; typ++ {
			for vi, d := range ds {
				for _, tr := range trusts {
					for fill := 0; fill < 2; fill++ {
						in := fresh(typ)
						if fill == 1 {
							in = filled(typ)
						}
						q := wrap(typ, in)
						rd := bytes.NewReader(append(append([]byte{}, want...), tail...))
						n, err := d.DeserializeCurvePoint(rd, tr, q)
						t.Eval(1)
						t.Trans(1)
						if isSub(typ) && !m.sub() {
							if !tr.Bool() && err == nil {
								t.Failf("%s: %x, which is outside of the subgroup, was accepted into a %s", viewNames[vi], want, typeNames[typ])
							}
							break // trusted: undefined
						}
						if err != nil || n != len(want) || rd.Len() != len(tail) {
							t.Failf("%s: deserializing %x into %s (trusted %v): n=%d of %d, %d bytes consumed, err=%v", viewNames[vi], want, typeNames[typ], tr.Bool(), n, len(want), len(want)+len(tail)-rd.Len(), err)
							continue
						}
						if bad := shows(copyAny(q), m); bad != "" {
							t.Failf("%s: deserializing %x into %s (trusted %v): %s", viewNames[vi], want, typeNames[typ], tr.Bool(), bad)
						}
					}
				}
			}
		}
	})
	// slices and batches of points
	s04subset(r, "slice read", s04read)
	s04subset(r, "slice write", s04write)
	s04subset(r, "batch", s04batch)
	s04subset(r, "sizes", func(t *vk.T, s spec, n int, _ bool) { s04sizes(t, s) })
	s04pool(1025)
	s04subset(r, "long slices", func(t *vk.T, s spec, n int, _ bool) {
		if n == 2 {
			s04long(t, s, []int{axtwS, axtwF, xtwS, efghF}[len(s.fr[gsh])%4], 65, false)
		}
	})
	r.Sample("YAndSignX,BE,SinglePointFooter=\"ftr\": point -1*G+A as efgh_full with scaled coordinates -> 35 bytes -> every point type")
}
