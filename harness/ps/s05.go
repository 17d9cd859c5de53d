//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

// cfg is a serializer of a history: the real object and the reference configuration
type cfg struct {
	sr ser  // nil for deserializers
	ds dser // nil for serializers
	s  spec
}

func (c cfg) des() des {
	if c.sr != nil {
		return c.sr
	}
	return c.ds
}

func (c cfg) with(name string, val any) cfg {
	if c.sr != nil {
		return cfg{sr: c.sr.WithParameter(name, val)}
	}
	return cfg{ds: c.ds.WithParameter(name, val)}
}

func (c cfg) withFree(name string, val any) cfg {
	if c.sr != nil {
		return cfg{sr: ps.WithParameter(c.sr, name, val)}
	}
	return cfg{ds: ps.WithParameter(c.ds, name, val)}
}

type op struct {
	name string
	ok   func(c cfg) bool // is it allowed? (if not, it must panic)
	do   func(c cfg) cfg
	ref  func(s *spec)
}

func bitOK(i int) func(c cfg) bool { return func(c cfg) bool { return c.s.hasBits() >= i } }

func always(c cfg) bool { return true }
func never(c cfg) bool  { return false }

// the alphabet
func s05ops(level int) (out []op) {
	add := func(name string, ok func(c cfg) bool, do func(c cfg) cfg, ref func(s *spec)) {
		out = append(out, op{name, ok, do, ref})
	}
	for _, be := range []bool{false, true} {
		be := be
		var o binary.ByteOrder = binary.LittleEndian
		if be {
			o = binary.BigEndian
		}
		ref := func(s *spec) { s.be = be }
		add(fmt.Sprintf("WithEndianness(%v)", o), always, func(c cfg) cfg {
			if c.sr != nil {
				return cfg{sr: c.sr.WithEndianness(o)}
			}
			return cfg{ds: c.ds.WithEndianness(o)}
		}, ref)
		if level > 0 {
			add(fmt.Sprintf("eNDIANNESS=%v", o), always, func(c cfg) cfg { return c.withFree("eNDIANNESS", o) }, ref)
		}
	}
	for _, h := range []pfx{{0, 0}, {0, 1}, {1, 1}} {
		h := h
		bh := func() common.BitHeader { return common.MakeBitHeader(common.PrefixBits(h.bits), h.l) }
		add(fmt.Sprintf("BitHeader=%v", h), bitOK(1), func(c cfg) cfg { return c.with("BitHeader", bh()) }, func(s *spec) { s.h1 = h })
		if level > 0 || h.bits == 0 {
			add(fmt.Sprintf("BitHeader2=%v", h), bitOK(2), func(c cfg) cfg { return c.with("bitheader2", bh()) }, func(s *spec) { s.h2 = h })
		}
	}
	add("SubgroupOnly=true", always, func(c cfg) cfg { return c.with("SubgroupOnly", true) }, func(s *spec) { s.subOnly = true })
	add("SubgroupOnly=false", func(c cfg) bool { return c.s.f > fLong }, func(c cfg) cfg { return c.withFree("SubgroupOnly", false) }, func(s *spec) { s.subOnly = false })
	for i, n := range frNames {
		i, n := i, n
		add(n+"=bytes", always, func(c cfg) cfg {
			b := []byte("\x00" + n)
			r := c.with(n, b)
			for j := range b { // must not matter
				b[j] = 'x'
			}
			return r
		}, func(s *spec) { s.fr[i] = "\x00" + n })
		if level > 0 || i%2 == 0 {
			add(n+"=string", always, func(c cfg) cfg { return c.withFree(strings.ToUpper(n), "q") }, func(s *spec) { s.fr[i] = "q" })
		}
		if level > 0 || i%3 == 0 {
			add(n+"=nil", always, func(c cfg) cfg { return c.with(n, []byte(nil)) }, func(s *spec) { s.fr[i] = "" })
		}
		if level > 0 {
			add(n+"=subslice", always, func(c cfg) cfg {
				b := []byte("abcdef")
				r := c.with(n, b[1:3])
				copy(b, "zzzzzz")
				_ = append(b[1:3], 'y')
				return r
			}, func(s *spec) { s.fr[i] = "bc" })
		}
	}
	add("Clone", always, func(c cfg) cfg {
		if c.sr != nil {
			return cfg{sr: c.sr.Clone()}
		}
		return cfg{ds: c.ds.Clone()}
	}, func(s *spec) {})
	add("AsDeserializer", always, func(c cfg) cfg {
		if c.sr != nil {
			return cfg{ds: c.sr.AsDeserializer()}
		}
		return cfg{ds: c.ds.Clone()}
	}, func(s *spec) {})
	// refused operations
	bad := func(name string, ok func(c cfg) bool, do func(c cfg) cfg) { add(name, ok, do, func(s *spec) {}) }
	bad("unknown parameter", never, func(c cfg) cfg { return c.with("NoSuchParameter", 1) })
	bad("empty parameter name", never, func(c cfg) cfg { return c.with("", "x") })
	bad("parameter name with space", never, func(c cfg) cfg { return c.with("Endianness ", binary.BigEndian) })
	bad("ill-typed Endianness", never, func(c cfg) cfg { return c.with("Endianness", "LittleEndian") })
	bad("nil Endianness", never, func(c cfg) cfg { return c.with("Endianness", nil) })
	bad("other Endianness", never, func(c cfg) cfg { return c.with("Endianness", weirdOrder{}) })
	bad("ill-typed SubgroupOnly", never, func(c cfg) cfg { return c.with("SubgroupOnly", 1) })
	bad("ill-typed BitHeader", never, func(c cfg) cfg { return c.with("BitHeader", []byte{1}) })
	bad("ill-typed BitHeader2", never, func(c cfg) cfg { return c.with("BitHeader2", common.PrefixBits(1)) })
	bad("ill-typed GlobalSliceFooter", never, func(c cfg) cfg { return c.with("GlobalSliceFooter", 5) })
	bad("ill-typed SinglePointHeader", never, func(c cfg) cfg { return c.with("SinglePointHeader", []int{1}) })
	if level > 0 {
		bad("ill-typed PerPointHeader", never, func(c cfg) cfg { return c.withFree("PerPointHeader", [1]byte{1}) })
		bad("unknown parameter (free)", never, func(c cfg) cfg { return c.withFree("NoSuchParameter", 1) })
		bad("ill-typed SubgroupOnly (free)", never, func(c cfg) cfg { return c.withFree("SubgroupOnly", "true") })
		bad("WithEndianness(nil)", never, func(c cfg) cfg {
			if c.sr != nil {
				return cfg{sr: c.sr.WithEndianness(nil)}
			}
			return cfg{ds: c.ds.WithEndianness(nil)}
		})
	}
	return
}

type weirdOrder struct{ binary.ByteOrder }

// ---- observation

type s05exp struct {
	single, slice []byte
}

var (
	s05memo sync.Map
	s05pts  [2]mp
	s05reps [2]*rep
)

func s05expect(s spec) s05exp {
	if v, ok := s05memo.Load(s); ok {
		return v.(s05exp)
	}
	a := s05pts[0].aff()
	e := s05exp{s.single(a.x, a.y), s.slice(s05pts[:])}
	s05memo.Store(s, e)
	return e
}

func frStr(v any) (string, bool) {
	b, ok := v.([]byte)
	if !ok {
		return "", false
	}
	s := string(b)
	for i := range b { // must not matter
		b[i] ^= 0x55
	}
	return s, true
}

func isBE(o binary.ByteOrder) bool { return o.Uint16([]byte{0, 1}) == 1 }

// observe compares a serializer with its reference configuration
func observe(c cfg, deep bool) string {
	s, d := c.s, c.des()
	names := []string{"Endianness", "SubgroupOnly"}
	if s.hasBits() > 0 {
		names = append(names, "BitHeader")
	}
	if s.hasBits() > 1 {
		names = append(names, "BitHeader2")
	}
	names = append(names, frNames...)
	// list of parameters
	got := d.RecognizedParameters()
	seen := map[string]bool{}
	for _, g := range got {
		l := strings.ToLower(g)
		if seen[l] {
			return fmt.Sprintf("RecognizedParameters contains %q twice", g)
		}
		seen[l] = true
	}
	for _, n := range names {
		if !seen[strings.ToLower(n)] {
			return fmt.Sprintf("RecognizedParameters lacks %q", n)
		}
	}
	if len(seen) != len(names) {
		return fmt.Sprintf("RecognizedParameters is %q, expected %q", got, names)
	}
	for i := range got {
		got[i] = "overwritten"
	}
	for _, n := range names {
		if !d.HasParameter(n) || !d.HasParameter(strings.ToUpper(n)) {
			return fmt.Sprintf("HasParameter(%q) is false", n)
		}
	}
	for i, n := range []string{"BitHeader", "BitHeader2"} {
		if s.hasBits() < i+1 {
			if d.HasParameter(n) {
				return fmt.Sprintf("HasParameter(%q) is true", n)
			}
			if did, _ := vk.Panics(func() { d.GetParameter(n) }); !did {
				return fmt.Sprintf("GetParameter(%q) does not panic", n)
			}
			continue
		}
		h := []pfx{s.h1, s.h2}[i]
		if g, ok := d.GetParameter(n).(common.BitHeader); !ok || g != common.MakeBitHeader(common.PrefixBits(h.bits), h.l) {
			return fmt.Sprintf("%s is %v, expected %v", n, g, h)
		}
	}
	if d.HasParameter("NoSuchParameter") || d.HasParameter("") {
		return "HasParameter is true for an unknown parameter"
	}
	e, ok := d.GetParameter("endianness").(common.FieldElementEndianness)
	if !ok || isBE(e) != s.be || isBE(d.GetFieldElementEndianness()) != s.be {
		return fmt.Sprintf("endianness is %v / %v, expected big endian: %v", e, d.GetFieldElementEndianness(), s.be)
	}
	if g, ok := d.GetParameter("SubgroupOnly").(bool); !ok || g != s.subOnly || d.IsSubgroupOnly() != s.subOnly {
		return fmt.Sprintf("SubgroupOnly is %v / %v, expected %v", g, d.IsSubgroupOnly(), s.subOnly)
	}
	for i, n := range frNames {
		for k := 0; k < 2; k++ { // the second time after changing what was returned the first time
			if g, ok := frStr(d.GetParameter(n)); !ok || g != s.fr[i] {
				return fmt.Sprintf("%s is %q, expected %q", n, g, s.fr[i])
			}
		}
	}
	if int(d.OutputLength()) != s.singleLen() {
		return fmt.Sprintf("OutputLength is %d, expected %d", d.OutputLength(), s.singleLen())
	}
	if l, err := d.SliceOutputLength(3); err != nil || int(l) != s.sliceLen(3) {
		return fmt.Sprintf("SliceOutputLength(3) is %d, %v, expected %d", l, err, s.sliceLen(3))
	}
	if did, v := vk.Panics(d.Validate); did {
		return fmt.Sprintf("Validate panics: %v", v)
	}
	if !deep {
		return ""
	}
	want := s05expect(s)
	if c.sr != nil {
		p, _ := s05reps[0].get()
		var w bytes.Buffer
		if n, err := c.sr.SerializeCurvePoint(&w, p); err != nil || n != w.Len() || !bytes.Equal(w.Bytes(), want.single) {
			return fmt.Sprintf("serializes %v to %x (%v), expected %x", s05pts[0], w.Bytes(), err, want.single)
		}
		w.Reset()
		p2, _ := s05reps[0].get()
		q2, _ := s05reps[1].get()
		if n, err := c.sr.(sliceSerializer).SerializeSlice(&w, cp.GenericPointSlice{p2, q2}); err != nil || n != w.Len() || !bytes.Equal(w.Bytes(), want.slice) {
			return fmt.Sprintf("serializes a slice to %x (%v), expected %x", w.Bytes(), err, want.slice)
		}
	}
	p := new(cp.Point_xtw_full)
	if n, err := d.DeserializeCurvePoint(bytes.NewReader(want.single), common.UntrustedInput, p); err != nil || n != len(want.single) {
		return fmt.Sprintf("deserializing %x: %d, %v", want.single, n, err)
	}
	if bad := shows(p, s05pts[0]); bad != "" {
		return "deserialized " + bad
	}
	var v [2]cp.Point_axtw_full
	if _, n, err := d.DeserializeSlice(bytes.NewReader(want.slice), common.TrustedInput, ps.UseExistingSlice[cp.Point_axtw_full](v[:])); err != nil || n != len(want.slice) {
		return fmt.Sprintf("deserializing slice %x: %d, %v", want.slice, n, err)
	}
	for i := range v {
		if bad := shows(&v[i], s05pts[i]); bad != "" {
			return "deserialized slice: " + bad
		}
	}
	return ""
}

func s05base(f int) []cfg {
	return []cfg{{sr: baseSerializer(f), s: baseSpec(f)}}
}

type s05step struct{ src, op int }

func s05(r *vk.Run) {
	quietNaPs()
	// points whose coordinates leave room for the bit headers
	s05pts = [2]mp{mk(vk.BI(1), tN), mk(vk.Generic(31, vk.R), tN)}
	for i := range s05pts {
		s05reps[i] = reps(xtwF, s05pts[i], 0)[0]
	}
	level, depth := 0, 3
	if r.Thorough {
		level, depth = 1, 3
	}
	ops := s05ops(level)
	r.Extra("operations", len(ops))
	r.Extra("depth", depth)
	fs := formats()
	// one case per (format, first operation, second operation incl. its source)
	n1, n2 := len(ops), 2*len(ops)
	r.Each(len(fs)*n1*n2, func(i int) string {
		return fmt.Sprintf("%s/%s;%d:%s", fmtNames[fs[i/(n1*n2)]], ops[i/n2%n1].name, i%2, ops[i%n2/2].name)
	}, func(t *vk.T, i int) {
		hist := s05base(fs[i/(n1*n2)])
		var trace []string
		ok := true
		if ok = s05apply(t, &hist, &trace, 0, ops[i/n2%n1]); ok {
			src := i % 2
			if src >= len(hist) {
				src = 0
			}
			ok = s05apply(t, &hist, &trace, src, ops[i%n2/2])
		}
		if !ok {
			return
		}
		s05all(t, hist, trace, true)
		for src := range hist {
			if !r.Thorough && src < len(hist)-1 && i%3 != src {
				continue
			}
			for j, o := range ops {
				if !r.Thorough && (i+j)%3 != 0 {
					continue
				}
				h := append([]cfg{}, hist...)
				tr := append([]string{}, trace...)
				if s05apply(t, &h, &tr, src, o) {
					s05all(t, h, tr, r.Thorough)
				}
				t.Trace(1)
			}
		}
	})
	// long chains: every parameter set in sequence, every pair of derived serializers kept alive
	r.Each(len(fs)*len(ops), func(i int) string {
		return fmt.Sprintf("chain/%s/starting with %s", fmtNames[fs[i/len(ops)]], ops[i%len(ops)].name)
	}, func(t *vk.T, i int) {
		hist := s05base(fs[i/len(ops)])
		var trace []string
		for j := range ops {
			o := ops[(i%len(ops)+j*7)%len(ops)]
			if len(ops)%7 == 0 {
				o = ops[(i+j)%len(ops)]
			}
			if o.name == "AsDeserializer" && j < len(ops)-3 {
				continue
			}
			if !s05apply(t, &hist, &trace, len(hist)-1, o) {
				return
			}
		}
		s05all(t, hist, trace, true)
		t.Trace(1)
	})
	s05errors(r)
	// the global serializers are still what they were
	r.Case("package globals", func(t *vk.T) {
		for _, f := range fs {
			if bad := observe(s05base(f)[0], true); bad != "" {
				t.Failf("%s: %s", fmtNames[f], bad)
			}
			t.Eval(1)
		}
	})
	r.Sample("XY: GlobalSliceHeader=bytes; 0:BitHeader2=(0,1); 1:SubgroupOnly=true; all four serializers observed")
}

// s05apply performs the operation on hist[src] and appends the result
func s05apply(t *vk.T, hist *[]cfg, trace *[]string, src int, o op) bool {
	c := (*hist)[src]
	*trace = append(*trace, fmt.Sprintf("%d:%s", src, o.name))
	var n cfg
	did, v := vk.Panics(func() { n = o.do(c) })
	t.Trans(1)
	if !o.ok(c) {
		if !did {
			t.Failf("%s after %v: was not refused on %v", o.name, *trace, c.s)
			return false
		}
		return true // history unchanged
	}
	if did {
		t.Failf("%v: panic %v on %v", *trace, v, c.s)
		return false
	}
	if c.sr != nil && n.sr == nil && n.ds == nil || n.sr != nil && isNilIface(n.sr) || n.ds != nil && isNilIface(n.ds) {
		t.Failf("%v: no serializer returned", *trace)
		return false
	}
	n.s = c.s
	o.ref(&n.s)
	*hist = append(*hist, n)
	return true
}

func isNilIface(x any) bool {
	v := reflect.ValueOf(x)
	return v.Kind() == reflect.Pointer && v.IsNil()
}

func s05all(t *vk.T, hist []cfg, trace []string, deep bool) {
	key := ""
	for i, c := range hist {
		if bad := observe(c, deep || i == len(hist)-1); bad != "" {
			t.Failf("after %v: serializer %d (%v): %s", trace, i, c.s, bad)
		}
		t.Eval(1)
		key += c.s.String() + ";"
		if c.sr == nil {
			key += "d"
		}
	}
	t.StateH(vk.Hash64(key))
}

// s05errors: errors belong to whoever receives them. For every configuration of a list, every way to make an operation fail
// (a wrong byte or the end of the input at every position, a failing writer at every position, unserializable points),
// the contents of the error are recorded; they must not change by later operations. Then they are overwritten,
// and all serializers must still be what they were.
func s05errors(r *vk.Run) {
	type job struct {
		s    spec
		view int
	}
	var jobs []job
	for _, f := range formats() {
		for k := 0; k < 4; k++ {
			s := baseSpec(f)
			s.be = k == 1
			for i := range s.fr {
				switch k {
				case 0:
					s.fr[i] = "<" + frNames[i][:6] + ">"
				case 1:
					s.fr[i] = string([]byte{byte(i), 0xff, 0})
				case 2:
					if i%2 == 0 {
						s.fr[i] = "h"
					}
				}
			}
			for v := 0; v < 3; v++ { // the serializer, its deserializer view, a clone
				jobs = append(jobs, job{s, v})
			}
		}
	}
	r.Each(len(jobs), func(i int) string { return fmt.Sprintf("errors/%v/%d", jobs[i].s, jobs[i].view) }, func(t *vk.T, i int) {
		s := jobs[i].s
		parent := cfg{sr: s.build(), s: s}
		c := parent
		switch jobs[i].view {
		case 1:
			c = cfg{ds: parent.sr.AsDeserializer(), s: s}
		case 2:
			c = cfg{sr: parent.sr.Clone(), s: s}
		}
		child := c.with("SinglePointFooter", []byte("other"))
		child.s = s
		child.s.fr[spf] = "other"
		all := []cfg{parent, c, child, s05base(s.f)[0]}
		names := []string{"the serializer it comes from", "the serializer", "a serializer derived from it", "the package's serializer"}
		type seen struct {
			what   string
			err    error
			before string
			vals   map[string]any
		}
		var errs []seen
		note := func(what string, err error) {
			if err == nil || isNilIface(err) {
				return
			}
			e := seen{what: what, err: err, vals: errorsWithData.GetData_map(err)}
			e.before = err.Error() + "|" + showData(e.vals)
			errs = append(errs, e)
			t.Trans(1)
		}
		single := s05expect(s).single
		slice := s05expect(s).slice
		d := c.des()
		for pos := 0; pos <= len(single); pos++ {
			p := new(cp.Point_xtw_full)
			if pos < len(single) {
				b := append([]byte{}, single...)
				b[pos] ^= 1
				_, err := d.DeserializeCurvePoint(bytes.NewReader(b), common.UntrustedInput, p)
				note(fmt.Sprintf("reading a point with a wrong byte %d", pos), err)
				_, err = d.DeserializeCurvePoint(bytes.NewReader(single[:pos]), common.UntrustedInput, p)
				note(fmt.Sprintf("reading a point of %d bytes", pos), err)
				_, err = d.DeserializeCurvePoint(&faultReader{data: single, k: pos, chunk: 5, err: designated}, common.UntrustedInput, p)
				note(fmt.Sprintf("reading a point with a fault after %d bytes", pos), err)
			}
			if c.sr != nil {
				q, _ := s05reps[0].get()
				_, err := c.sr.SerializeCurvePoint(&faultWriter{k: pos, err: designated}, q)
				note(fmt.Sprintf("writing a point with a fault after %d bytes", pos), err)
			}
		}
		for pos := 0; pos <= len(slice); pos++ {
			var v [2]cp.Point_axtw_full
			if pos < len(slice) {
				b := append([]byte{}, slice...)
				b[pos] ^= 1
				_, _, err := d.DeserializeSlice(bytes.NewReader(b), common.UntrustedInput, ps.UseExistingSlice[cp.Point_axtw_full](v[:]))
				note(fmt.Sprintf("reading a slice with a wrong byte %d", pos), err)
				_, _, err = d.DeserializeSlice(bytes.NewReader(slice[:pos]), common.UntrustedInput, ps.UseExistingSlice[cp.Point_axtw_full](v[:]))
				note(fmt.Sprintf("reading a slice of %d bytes", pos), err)
			}
			if c.sr != nil {
				p2, _ := s05reps[0].get()
				q2, _ := s05reps[1].get()
				_, err := c.sr.(sliceSerializer).SerializeSlice(&faultWriter{k: pos, err: designated}, cp.GenericPointSlice{p2, q2})
				note(fmt.Sprintf("writing a slice with a fault after %d bytes", pos), err)
			}
		}
		if c.sr != nil {
			var w bytes.Buffer
			_, err := c.sr.SerializeCurvePoint(&w, new(cp.Point_xtw_full))
			note("writing an invalid point", err)
			p2, _ := s05reps[0].get()
			_, err2 := c.sr.(sliceSerializer).SerializeSlice(&w, cp.GenericPointSlice{p2, new(cp.Point_efgh_full)})
			note("writing a slice with an invalid point", err2)
		}
		var v [1]cp.Point_axtw_full
		_, _, err := d.DeserializeSlice(bytes.NewReader(slice), common.UntrustedInput, ps.UseExistingSlice[cp.Point_axtw_full](v[:]))
		note("reading a slice into a buffer that is too small", err)
		for _, e := range errs {
			if now := e.err.Error() + "|" + showData(errorsWithData.GetData_map(e.err)); now != e.before {
				t.Fatalf("%s: the error from %s was %s and became %s by later operations", s, e.what, e.before, now)
			}
			t.Eval(1)
		}
		for k := len(errs) - 1; k >= 0; k-- {
			e := errs[k]
			clobber(e.vals)
			if k%8 == 0 || k > len(errs)-6 {
				for j, o := range all {
					if bad := observe(o, false); bad != "" {
						t.Fatalf("%s: after overwriting the contents of the error from %s (and later ones): %s: %s", s, e.what, names[j], bad)
					}
				}
			}
			t.Eval(1)
		}
		for j, o := range all {
			if bad := observe(o, true); bad != "" {
				t.Fatalf("%s: after overwriting the contents of all errors: %s: %s", s, names[j], bad)
			}
		}
		t.State("errors", s.String(), fmt.Sprint(jobs[i].view))
		t.Trace(1)
	})
}

// showData describes the values of an error
func showData(m map[string]any) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		switch v := m[k].(type) {
		case []byte:
			s += fmt.Sprintf("%s=%x ", k, v)
		case bool, int, int32, int64, string:
			s += fmt.Sprintf("%s=%v ", k, v)
		}
	}
	return s
}

// clobber overwrites everything that can be overwritten through the values
func clobber(m map[string]any) {
	for k, x := range m {
		v := reflect.ValueOf(x)
		switch {
		case !v.IsValid():
		case v.Kind() == reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				if e := v.Index(i); e.CanSet() && e.Kind() == reflect.Uint8 {
					e.SetUint(0x58)
				}
			}
			if v.Kind() == reflect.Slice && v.Cap() > v.Len() && v.Type().Elem().Kind() == reflect.Uint8 {
				f := v.Slice(0, v.Cap())
				for i := v.Len(); i < f.Len(); i++ {
					f.Index(i).SetUint(0x58)
				}
			}
		}
		delete(m, k)
	}
}
