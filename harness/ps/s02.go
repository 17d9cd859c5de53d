//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

// rawField is any 256-bit value in the byte order of s
func (s spec) rawField(v *big.Int) []byte {
	b := v.FillBytes(make([]byte, 32))
	if !s.be {
		rev(b)
	}
	return b
}

var fill77 = mk(vk.BI(77), tN)

// filled returns a fresh point with a known content
var filledPts = func() (out [nTypes]PI) {
	for typ := range out {
		out[typ] = reps(typ, fill77, 0)[0].p
	}
	return
}()

func filled(typ int) PI { return copyRaw(filledPts[base(typ)]) }

// decodeCheck feeds one byte string to one view and receiver type
func decodeCheck(t *vk.T, s spec, sr ser, d des, vname string, b []byte, typ int) {
	in := filled(typ)
	before := copyRaw(in)
	q := wrap(typ, in)
	x, y, why, used := s.decode(b, isSub(typ))
	full := []byte(s.fr[sph] + string(b) + s.fr[spf])
	for _, tr := range trusts {
		if tr.Bool() && why != "" {
			continue // undefined
		}
		rd := bytes.NewReader(append(append([]byte{}, full...), 1, 2, 3))
		var n int
		var err be.DeserializationError
		if did, v := vk.Panics(func() { n, err = d.DeserializeCurvePoint(rd, tr, q) }); did {
			t.Failf("%s %v: deserializing %x into %s panics: %v", vname, s, full, typeNames[typ], v)
			return
		}
		t.Eval(1)
		consumed := len(full) + 3 - rd.Len()
		if why != "" {
			if err == nil {
				got := ""
				if x == nil && y == nil {
					got = " as " + identify(bigF(q.X_decaf_projective()), bigF(q.Y_decaf_projective()), bigF(q.T_decaf_projective()), bigF(q.Z_decaf_projective()))
				}
				t.Failf("%s %v: %x (%s) is accepted into %s%s", vname, s, full, why, typeNames[typ], got)
				return
			}
			if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
				t.Failf("%s %v: %x (%s): error claims end of file: %v", vname, s, full, why, err)
			}
			if bad := badText(err.Error()); bad != "" {
				t.Failf("%s %v: %x (%s): %s", vname, s, full, why, bad)
			}
			// (with wrong prefix bits the rest of the field element need not be consumed)
			if u := len(s.fr[sph]) + used; n != consumed || n > u || n < u && (why != "wrong prefix bits" || n <= u-32) {
				t.Failf("%s %v: %x (%s): %d bytes reported, %d consumed, %d expected", vname, s, full, why, n, consumed, len(s.fr[sph])+used)
			}
			if g := err.GetData_struct(); g.PartialRead != (n < len(full)) || g.IoError {
				t.Failf("%s %v: %x (%s): error data %+v after %d of %d bytes", vname, s, full, why, g, n, len(full))
			}
			if !sameRaw(in, before) {
				t.Failf("%s %v: %x (%s): rejected with %v, but the receiver (%s) was modified", vname, s, full, why, err, typeNames[typ])
			}
			continue
		}
		if err != nil || n != len(full) || consumed != n {
			t.Failf("%s %v: %x into %s (trusted %v): n=%d, %d consumed, error %v, expected the point (%#x,%#x)", vname, s, full, typeNames[typ], tr.Bool(), n, consumed, err, x, y)
			return
		}
		if bad := showsXY(q, x, y); bad != "" {
			t.Failf("%s %v: %x into %s (trusted %v): %s", vname, s, full, typeNames[typ], tr.Bool(), bad)
			return
		}
		var w bytes.Buffer
		if m, err := sr.SerializeCurvePoint(&w, q); err != nil || m != len(full) || !bytes.Equal(w.Bytes(), full) {
			t.Failf("%s %v: %x was deserialized into %s, serializing again gives %x (%v)", vname, s, full, typeNames[typ], w.Bytes(), err)
		}
	}
}

func s02(r *vk.Run) {
	quietNaPs()
	lvl, smallN, genN := 1, 64, 16
	if r.Thorough {
		lvl, smallN, genN = 2, 2048, 512
	}
	var specs []spec
	for _, f := range formats() {
		for _, s := range singleSpecs(f, 0) {
			if s.fr == [6]string{} || s.fr[sph] != "" && s.fr[spf] != "" && !s.be {
				specs = append(specs, s)
			}
		}
	}
	r.Extra("configurations", len(specs))
	// field values
	half := new(big.Int).Rsh(vk.P, 1)
	var bnd []*big.Int
	bnd = append(bnd, vk.Around(3, vk.BI(0), half, vk.P, vk.Pow2(254), vk.Pow2(255), vk.Add(vk.P, vk.P), vk.Add(vk.P, half))...)
	bnd = append(bnd, sqDA, fneg(sqDA), vk.Add(sqDA, vk.P), vk.Sub(vk.Pow2(256), vk.BI(1)), vk.Sub(vk.Pow2(256), vk.BI(2)), vk.R)
	bnd = vk.Uniq(bnd, vk.BI(0), vk.Pow2(256))
	var pts []mp
	for _, m := range models(kset(lvl)) {
		if !m.inf() {
			pts = append(pts, m)
		}
	}
	nFlipPts := len(pts)
	pts = append(pts, mk(vk.BI(9), tN), mk(vk.BI(10), tE1))

	// a) neighbours of all valid encodings
	r.Each(len(specs)*len(pts), func(i int) string { return fmt.Sprintf("%v/neighbours of %v", specs[i%len(specs)], pts[i/len(specs)]) }, func(t *vk.T, i int) {
		s, m := specs[i%len(specs)], pts[i/len(specs)]
		if b := baseSpec(s.f); !r.Thorough && (i/len(specs) >= nFlipPts || (i/len(specs)+i%len(specs))%6 != 0 && (s.h1 != b.h1 || s.h2 != b.h2 || s.fr != b.fr || s.be != (s.f%2 == 0) || s.f > fLong && s.subOnly)) {
			return
		}
		sr, ds := s.views()
		seen := map[string]bool{}
		k := i
		try := func(b []byte) {
			if seen[string(b)] {
				return
			}
			seen[string(b)] = true
			k++
			full, sub := []int{xtwF, axtwF, efghF}[k%3], []int{axtwS, efghS, xtwS}[k%3]
			decodeCheck(t, s, sr, ds[k%2], viewNames[k%2], b, full)
			decodeCheck(t, s, sr, ds[1-k%2], viewNames[1-k%2], b, sub)
			t.StateH(vk.Hash64(s.String() + string(b)))
		}
		a := m.aff()
		e, ok := s.point(a.x, a.y)
		if !ok {
			t.Fatalf("oracle: does not fit")
		}
		for typ := 0; typ < nArgTypes; typ++ {
			for vi := range ds {
				decodeCheck(t, s, sr, ds[vi], viewNames[vi], e, typ)
			}
		}
		// bit flips and header bytes
		for bit := 0; bit < 8*len(e); bit++ {
			b := append([]byte{}, e...)
			b[bit/8] ^= 1 << (bit % 8)
			try(b)
		}
		for _, pos := range []int{0, 31, len(e) - 32, len(e) - 1} {
			for v := 0; v < 256; v++ {
				b := append([]byte{}, e...)
				b[pos] = byte(v)
				try(b)
			}
		}
		// coordinates and headers of the same and of related points
		var xs, ys []*big.Int
		for _, q := range []mp{m, m.neg(), m.add(mk(vk.BI(0), tA)), m.add(mk(vk.BI(0), tE1)), m.add(mk(vk.BI(0), tE2)), m.dbl(), mk(vk.BI(0), tN)} {
			if q.inf() {
				continue
			}
			c := q.aff()
			for _, x := range []*big.Int{c.x, fneg(c.x), vk.Add(c.x, vk.P), vk.Add(c.y, vk.P)} {
				xs = append(xs, x)
			}
			for _, y := range []*big.Int{c.y, fneg(c.y), vk.Add(c.y, vk.P)} {
				ys = append(ys, y)
			}
			for _, neg := range [][2]bool{{false, false}, {true, false}, {false, true}, {true, true}} {
				x, y := c.x, c.y
				if neg[0] {
					x = fneg(x)
				}
				if neg[1] {
					y = fneg(y)
				}
				vs, hs := s.elems(x, y)
				for _, h1 := range headersFor(hs[0]) {
					b, ok := s.field(vs[0], h1)
					if !ok {
						continue
					}
					if len(vs) == 1 {
						try(b)
						continue
					}
					for _, h2 := range headersFor(hs[1]) {
						if c, ok := s.field(vs[1], h2); ok {
							try(append(append([]byte{}, b...), c...))
							try(append(append([]byte{}, c...), b...))
						}
					}
				}
			}
		}
		all := vk.Uniq(append(append(append([]*big.Int{}, xs...), ys...), vk.BI(0), vk.BI(1)), vk.BI(0), vk.Pow2(256))
		hs := [2]pfx{s.h1, s.h2}
		if s.plen() == 64 {
			for _, v := range all {
				for _, w := range all {
					b, ok1 := s.field(v, hs[0])
					c, ok2 := s.field(w, hs[1])
					if ok1 && ok2 {
						try(append(append([]byte{}, b...), c...))
					}
				}
			}
		} else {
			for _, v := range all {
				for _, h := range headersFor(pfx{0, 1}) {
					if b, ok := s.field(v, h); ok {
						try(b)
					}
				}
			}
		}
	})

	// b) small, boundary and generic values with all headers
	specsA := specs
	if !r.Thorough {
		specs = nil
		for _, s := range specsA {
			if b := baseSpec(s.f); s.h1 == b.h1 && s.h2 == b.h2 && s.fr == b.fr && (!s.be || s.f > fLong) {
				specs = append(specs, s)
			}
		}
	}
	bset := map[string]bool{}
	for _, v := range bnd {
		bset[v.String()] = true
	}
	var vals []*big.Int
	for i := 0; i < smallN; i++ {
		vals = append(vals, vk.BI(int64(i)), vk.Sub(vk.P, vk.BI(int64(i))))
	}
	for i := 0; i < genN; i++ {
		vals = append(vals, vk.Generic(uint64(5000+i), vk.Pow2(256)))
	}
	vals = append(vals, bnd...)
	vals = vk.Uniq(vals, vk.BI(0), vk.Pow2(256))
	r.Extra("field_values", len(vals))
	r.Each(len(specs)*len(vals), func(i int) string { return fmt.Sprintf("%v/value %#x", specs[i%len(specs)], vals[i/len(specs)]) }, func(t *vk.T, i int) {
		s, v := specs[i%len(specs)], vals[i/len(specs)]
		sr, ds := s.views()
		k := i
		try := func(b []byte) {
			k++
			decodeCheck(t, s, sr, ds[k%2], viewNames[k%2], b, []int{xtwF, axtwF, efghF}[k%3])
			decodeCheck(t, s, sr, ds[1-k%2], viewNames[1-k%2], b, []int{axtwS, efghS, xtwS}[k%3])
			t.StateH(vk.Hash64(s.String() + string(b)))
		}
		// the value as such and with all headers of one or two bits on top
		var es [][]byte
		es = append(es, s.rawField(v))
		for l := uint8(1); l <= 2; l++ {
			for bits := byte(0); bits < 1<<l; bits++ {
				if e, ok := s.field(v, pfx{bits, l}); ok {
					es = append(es, e)
				}
			}
		}
		if s.plen() == 32 {
			for _, e := range es {
				try(e)
			}
			return
		}
		// partners of the value: everything that makes it (nearly) a point, and all boundary values
		partners := append([]*big.Int{}, bnd...)
		if t.Quick() && !bset[v.String()] {
			partners = []*big.Int{vk.BI(0), vk.BI(1), vk.P, vk.Sub(vk.P, vk.BI(1)), half}
		}
		vm := vk.Mod(v, vk.P)
		if y, ok := yFromX(vm); ok {
			partners = append(partners, y, fneg(y), vk.Add(y, vk.P), vk.Add(fneg(y), vk.P))
		}
		if x, ok := xFromY(vm); ok {
			partners = append(partners, x, fneg(x), vk.Add(x, vk.P), vk.Add(fneg(x), vk.P))
		}
		partners = vk.Uniq(partners, vk.BI(0), vk.Pow2(256))
		for _, w := range partners {
			var ws [][]byte
			ws = append(ws, s.rawField(w))
			for _, h := range []pfx{s.h1, s.h2} {
				if e, ok := s.field(w, h); ok && h.l > 0 {
					ws = append(ws, e)
				}
			}
			for _, h := range []pfx{s.h1, s.h2} {
				if e, ok := s.field(v, h); ok {
					for _, c := range ws {
						try(append(append([]byte{}, e...), c...))
						try(append(append([]byte{}, c...), e...))
					}
				}
			}
		}
	})

	specs = specsA

	// c) corrupted single-point framing
	specs = append([]spec{}, specsA...)
	for fi, f := range formats() {
		for k, n := range []int{8, 16, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 1000} {
			s := baseSpec(f)
			s.be = (fi+k)%2 == 0
			s.fr[sph+(fi+k)/2%2] = longFrame(k, n)
			specs = append(specs, s)
			if r.Thorough {
				s.fr[sph], s.fr[spf] = s.fr[spf], s.fr[sph]
				specs = append(specs, s)
			}
		}
	}
	r.Each(len(specs), func(i int) string { return fmt.Sprintf("%.200v (%d bytes)/framing", specs[i], specs[i].singleLen()) }, func(t *vk.T, i int) {
		s := specs[i]
		m := mk(vk.BI(9), tN)
		a := m.aff()
		e := s.single(a.x, a.y)
		_, ds := s.views()
		for pos := range e {
			hd := pos < len(s.fr[sph])
			if !hd && pos < len(e)-len(s.fr[spf]) {
				continue
			}
			long := len(e) > 70
			if long && !hd && len(e)-pos > 3 && pos%64 > 1 && pos%37 != 0 || long && hd && len(s.fr[sph])-pos > 3 && pos%64 > 1 && pos%37 != 0 {
				if !r.Thorough {
					continue
				}
			}
			for v := 1; v < 256; v++ {
				if long && v != 1 && v != 0x80 && v != 0xff {
					continue
				}
				b := append([]byte{}, e...)
				b[pos] ^= byte(v)
				for vi, d := range ds {
					for _, tr := range []common.IsInputTrusted{common.UntrustedInput, common.TrustedInput} {
						typ := (v + pos) % nTypes
						in := filled(typ)
						before := copyRaw(in)
						rd := bytes.NewReader(b)
						n, err := d.DeserializeCurvePoint(rd, tr, in)
						t.Eval(1)
						if err == nil || !errors.Is(err, be.ErrDidNotReadExpectedString) {
							t.Failf("%s %v: %x with corrupted framing: error %v", viewNames[vi], s, b, err)
							continue
						}
						if n != len(b)-rd.Len() || hd && (n != len(s.fr[sph]) || !sameRaw(in, before)) || !hd && n != len(b) {
							t.Failf("%s %v: %x with corrupted framing: %d bytes reported, %d consumed, receiver changed: %v", viewNames[vi], s, b, n, len(b)-rd.Len(), !sameRaw(in, before))
						}
						if bad := badText(err.Error()); bad != "" {
							t.Failf("%s %v: %s", viewNames[vi], s, bad)
						}
						if g := err.GetData_struct(); g.PartialRead != (n < len(b)) || g.IoError {
							t.Failf("%s %v: %x with corrupted framing: error data %+v after %d of %d bytes", viewNames[vi], s, b, g, n, len(b))
						}
					}
				}
				t.StateH(vk.Hash64(s.String() + string(b)))
			}
		}
	})
	// d) hostile slices: length fields, framing and undecodable points, with and without a buffer
	var sl []s04job
	for _, f := range formats() {
		for _, s := range []spec{baseSpec(f), frameSpec(f, 63, 1)} {
			for L := 0; L < 3; L++ {
				sl = append(sl, s04job{s, L})
			}
		}
	}
	r.Each(len(sl), func(i int) string { return "slice/" + sl[i].String() }, func(t *vk.T, i int) { s04hostile(t, sl[i].s, sl[i].n, r.Thorough) })

	// byte strings for slices and batches of points
	s04subset(r, "hostile slice", s04hostile)
	s04subset(r, "slice read", s04read)
	r.Sample("BanderwagonLong: Y slot holds p - Y (wrong sign) and X slot holds X+p below the header bit -> rejected, receiver untouched")
}

// headersFor: all headers of the same length, and neighbours in length
func headersFor(h pfx) (out []pfx) {
	for bits := 0; bits < 1<<h.l; bits++ {
		out = append(out, pfx{byte(bits), h.l})
	}
	if h.l < 2 {
		for bits := 0; bits < 2<<h.l; bits++ {
			out = append(out, pfx{byte(bits), h.l + 1})
		}
	}
	return
}
