//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"sort"
	"sync"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

// ---- slices of the six point types

type slTyp struct {
	create ps.DeserializeSliceMaker
	out    func(o any) (at func(int) PI, n int, ok bool)                                                     // view of the output of create
	buf    func(n, c int) (mk ps.DeserializeSliceMaker, at func(int) PI, sl cp.CurvePointSlice, ptrs []PI)   // buffer of length n, capacity c, filled with points
	vari   func(d des, rd io.Reader, tr common.IsInputTrusted, pts []PI) (int, ps.BatchDeserializationError) // DeserializeCurvePoints_Variadic
}

func mkSlTyp[T any, P interface {
	*T
	PI
}](typ int) slTyp {
	return slTyp{
		create: ps.CreateNewSlice[T, P],
		out: func(o any) (func(int) PI, int, bool) {
			v, ok := o.([]T)
			return func(i int) PI { return P(&v[i]) }, len(v), ok
		},
		buf: func(n, c int) (ps.DeserializeSliceMaker, func(int) PI, cp.CurvePointSlice, []PI) {
			v := make([]T, c)
			ptrs := make([]PI, c)
			for i := range v {
				v[i] = *(filled(typ).(P))
				ptrs[i] = P(&v[i])
			}
			return ps.UseExistingSlice[T, P](v[:n]), func(i int) PI { return P(&v[i]) }, cp.AsCurvePointSlice[T, P](v[:n]), ptrs
		},
		vari: func(d des, rd io.Reader, tr common.IsInputTrusted, pts []PI) (int, ps.BatchDeserializationError) {
			x := make([]P, len(pts))
			for i := range pts {
				x[i] = pts[i].(P)
			}
			return ps.DeserializeCurvePoints_Variadic[P](d.(ps.CurvePointDeserializer), rd, tr, x...)
		},
	}
}

var slTyps = [nTypes]slTyp{
	xtwF:  mkSlTyp[cp.Point_xtw_full](xtwF),
	xtwS:  mkSlTyp[cp.Point_xtw_subgroup](xtwS),
	axtwF: mkSlTyp[cp.Point_axtw_full](axtwF),
	axtwS: mkSlTyp[cp.Point_axtw_subgroup](axtwS),
	efghF: mkSlTyp[cp.Point_efgh_full](efghF),
	efghS: mkSlTyp[cp.Point_efgh_subgroup](efghS),
}

// ---- reference reader

const (
	kOK     = "ok"
	kIO     = "stream"          // the stream ended or failed
	kFrame  = "framing"         // header/footer/separator differs
	kPoint  = "point"           // undecodable point
	kSize   = "size"            // length field > MaxInt32
	kOver   = "overflow"        // total length > MaxInt32
	kBuffer = "buffer"          // buffer too small
	kAny    = "stream or point" // truncated point whose first byte already shows that it is wrong
	any01   = 2                 // PartialRead not determined by the documentation
)

type refRes struct {
	kind    string
	n, nMin int // bytes read (n), at least nMin if the format may be recognized as wrong earlier
	size    int64
	calls   []int32 // arguments of the slice maker
	count   int
	partial int
	changed int // index of an element that may be changed although it is not counted (-1: none)
	pts     []refPt
}

type refPt struct{ x, y *big.Int }

type memoVal struct {
	x, y *big.Int
	why  string
	used int
}

var memo sync.Map

func (s spec) decodeMemo(b []byte, sub bool) (*big.Int, *big.Int, string, int) {
	k := string(b) + fmt.Sprint(s.f, s.be, s.h1, s.h2, sub || s.subOnly)
	if v, ok := memo.Load(k); ok {
		v := v.(memoVal)
		return v.x, v.y, v.why, v.used
	}
	x, y, why, used := s.decode(b, sub)
	memo.Store(k, memoVal{x, y, why, used})
	return x, y, why, used
}

// refRead says what must happen if a slice is read from the bytes b (followed by an error) with a buffer for up to bufLen points (-1: unlimited)
func (s spec) refRead(b []byte, bufLen int, sub bool) (r refRes) {
	r.changed = -1
	fail := func(kind string, partial bool) refRes {
		r.kind, r.nMin = kind, r.n
		r.partial = 0
		if partial {
			r.partial = 1
		}
		return r
	}
	frame := func(f string) (string, bool) { // kind, true if fine
		rest := b[r.n:]
		if len(rest) < len(f) {
			r.n = len(b)
			return kIO, false
		}
		r.n += len(f)
		if string(rest[:len(f)]) != f {
			return kFrame, false
		}
		return "", true
	}
	r.calls = []int32{-1}
	if k, ok := frame(s.fr[gsh]); !ok {
		return fail(k, r.n > 0)
	}
	if len(b)-r.n < 4 {
		r.n = len(b)
		return fail(kIO, r.n > 0)
	}
	r.size = int64(binary.LittleEndian.Uint32(b[r.n:]))
	r.n += 4
	if r.size > math.MaxInt32 {
		return fail(kSize, true)
	}
	per := int64(s.plen() + len(s.fr[pph]) + len(s.fr[ppf]))
	if int64(len(s.fr[gsh])+4+len(s.fr[gsf]))+r.size*per > math.MaxInt32 {
		return fail(kOver, true)
	}
	r.calls = []int32{int32(r.size)}
	if bufLen >= 0 && r.size > int64(bufLen) {
		return fail(kBuffer, true)
	}
	total := int(int64(len(s.fr[gsh])+4+len(s.fr[gsf])) + r.size*per)
	for i := 0; i < int(r.size); i++ {
		r.count = i
		if k, ok := frame(s.fr[pph]); !ok {
			return fail(k, true)
		}
		rest := b[r.n:]
		pad := append(append([]byte{}, rest[:min(len(rest), s.plen())]...), make([]byte, s.plen())...)[:s.plen()]
		x, y, why, used := s.decodeMemo(pad, sub)
		if len(rest) < s.plen() && (why == "" || used > len(rest)) {
			n0 := r.n
			r.n = len(b)
			fail(kIO, true)
			for slot, h := range s.prefixes() {
				if o := 32 * slot; s.be && h.l > 0 && o < len(rest) && o+32 > len(rest) && rest[o]>>(8-h.l) != h.bits {
					r.kind, r.nMin = kAny, n0+o+1
				}
			}
			return
		}
		if why != "" {
			n0 := r.n
			r.n += used
			fail(kPoint, r.n < total)
			if why == "wrong prefix bits" { // may be noticed after the first byte of the field element
				r.nMin = n0 + used - 31
				r.partial = any01
			}
			return
		}
		r.pts = append(r.pts, refPt{x, y})
		r.count, r.changed = i+1, -1
		r.n += s.plen()
		if k, ok := frame(s.fr[ppf]); !ok {
			fail(k, true)
			if k == kFrame && r.n == total {
				r.partial = any01
			}
			return
		}
	}
	if k, ok := frame(s.fr[gsf]); !ok {
		fail(k, true)
		if k == kFrame {
			r.partial = any01
		}
		return
	}
	r.kind, r.nMin = kOK, r.n
	return
}

// readCheck runs DeserializeSlice and compares with the reference. bufLen -1: CreateNewSlice
func readCheck(t *vk.T, s spec, d des, vname string, b []byte, kd streamErr, chunk int, tail bool, typ, bufLen, bufCap int, tr common.IsInputTrusted, what string) {
	want := s.refRead(b, bufLen, isSub(typ))
	if want.kind == kPoint && tr.Bool() {
		return // undefined
	}
	var mk ps.DeserializeSliceMaker
	var at func(int) PI
	var ptrs []PI
	if bufLen < 0 {
		if want.kind != kSize && want.kind != kOver && want.size > 1000 {
			return // would allocate a lot
		}
		mk = slTyps[typ].create
	} else {
		mk, at, _, ptrs = slTyps[typ].buf(bufLen, bufCap)
	}
	var calls []int32
	counted := func(l int32) (any, cp.CurvePointSlice, error) {
		calls = append(calls, l)
		return mk(l)
	}
	fr := &faultReader{data: b, k: len(b), chunk: chunk, err: kd.err, tail: tail}
	out, n, err := d.DeserializeSlice(fr, tr, counted)
	t.Eval(1)
	desc := func() string {
		return fmt.Sprintf("%s: DeserializeSlice by %s (trusted %v) into %s (buffer %d/%d) from %x, then %s (chunks of %d, error with last bytes %v)", what, vname, tr.Bool(), typeNames[typ], bufLen, bufCap, b, kd.name, chunk, tail)
	}
	if n != fr.pos {
		t.Failf("%s: %d bytes reported, %d delivered", desc(), n, fr.pos)
	}
	if n > want.n || n < want.nMin {
		t.Failf("%s: %d bytes read, expected %d (%s)", desc(), n, want.n, want.kind)
	}
	if len(calls) != 1 || calls[0] != want.calls[0] {
		t.Failf("%s: slice maker called with %v, expected %v", desc(), calls, want.calls)
	}
	var outN int
	ok := false
	if bufLen < 0 {
		at, outN, ok = slTyps[typ].out(out)
	} else {
		outN, ok = out.(int)
	}
	if !ok {
		t.Failf("%s: output has type %T", desc(), out)
		return
	}
	if want.kind == kOK {
		if err != nil {
			t.Failf("%s: error %v", desc(), err)
			return
		}
		if int64(outN) != want.size {
			t.Failf("%s: output tells %d points, expected %d", desc(), outN, want.size)
			return
		}
	} else {
		if err == nil {
			t.Failf("%s: no error, expected failure (%s)", desc(), want.kind)
			return
		}
		g := err.GetData_struct()
		if g.PointsDeserialized != want.count {
			t.Failf("%s: PointsDeserialized is %d, expected %d (%s); error %v", desc(), g.PointsDeserialized, want.count, want.kind, err)
		}
		if want.partial != any01 && g.PartialRead != (want.partial == 1) {
			t.Failf("%s: PartialRead is %v after %d bytes (%s); error %v", desc(), g.PartialRead, n, want.kind, err)
		}
		if bad := badText(err.Error()); bad != "" {
			t.Failf("%s: %s", desc(), bad)
		}
		switch want.kind {
		case kIO:
			k := kd.err
			if k == io.EOF && n == 0 && errors.Is(err, io.ErrUnexpectedEOF) {
				k = io.ErrUnexpectedEOF // nothing read although a size is always expected: both are fine
			}
			if bad := wrapsRead(err, k, n); bad != "" {
				t.Failf("%s: %s", desc(), bad)
			}
		case kFrame:
			if !errors.Is(err, be.ErrDidNotReadExpectedString) {
				t.Failf("%s: error %v does not wrap ErrDidNotReadExpectedString", desc(), err)
			}
		case kSize:
			if !errors.Is(err, be.ErrSizeDoesNotFitInt32) {
				t.Failf("%s: error %v does not wrap ErrSizeDoesNotFitInt32", desc(), err)
			}
		case kBuffer:
			if !errors.Is(err, ps.ErrInsufficientBufferForDeserialization) {
				t.Failf("%s: error %v does not wrap ErrInsufficientBufferForDeserialization", desc(), err)
			}
		}
		if want.kind != kIO && want.kind != kAny && (errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF)) {
			t.Failf("%s: error %v claims that the stream ended", desc(), err)
		}
	}
	if bufLen < 0 && want.kind != kOK {
		return // output is meaningless
	}
	for i := 0; i < want.count; i++ {
		if i >= bufCap && bufLen >= 0 || bufLen < 0 && i >= outN {
			break
		}
		if bad := showsXY(at(i), want.pts[i].x, want.pts[i].y); bad != "" {
			t.Failf("%s: element %d: %s", desc(), i, bad)
		}
	}
	if bufLen >= 0 {
		for i := want.count; i < bufCap; i++ {
			if !sameRaw(ptrs[i], filled(typ)) {
				t.Failf("%s: element %d was modified, only %d points were read (%s)", desc(), i, want.count, want.kind)
			}
		}
	}
}

// ---- configurations

// prefixes: fixed prefix bits of the field elements of a point
func (s spec) prefixes() []pfx {
	switch s.f {
	case fShort:
		return []pfx{s.h1}
	case fLong, fXY:
		return []pfx{s.h1, s.h2}
	}
	return nil
}

func frameSpec(f, mask, style int) spec {
	s := baseSpec(f)
	fr := [2][4]string{{"[[[", "]\x00", "<", ";,"}, {"\x00", "\xff\xff\xff\xff\xff", "pp", "\x00"}}[style]
	for i := 0; i < 4; i++ {
		if mask>>uint(i)&1 == 1 {
			s.fr[i] = fr[i]
		}
	}
	// framing of single points must not matter for slices
	s.fr[sph], s.fr[spf] = "SS", "T"
	return s
}

func s04specs(thorough bool) (out []spec) {
	for _, f := range formats() {
		for mask := 0; mask < 16; mask++ {
			s := frameSpec(f, mask, 0)
			s.be = mask&1 == f&1
			// every combination of header and footer of single points
			if (mask>>2^mask)&1 == 0 {
				s.fr[sph] = ""
			}
			if (mask>>3^mask>>1)&1 == 0 {
				s.fr[spf] = ""
			}
			if f > fLong {
				s.subOnly = mask>>1&1 == f&1
			}
			out = append(out, s)
			if thorough {
				s2 := frameSpec(f, mask, 1)
				s2.be = !s.be
				if f > fLong {
					s2.subOnly = !s.subOnly
				}
				out = append(out, s2)
			}
		}
	}
	return
}

// s04subset runs one of the enumerations of S04 on short slices, for properties whose statement includes slices
func s04subset(r *vk.Run, what string, f func(*vk.T, spec, int, bool)) {
	var jobs []s04job
	for i, s := range s04specs(r.Thorough) {
		for n := 0; n <= 2; n++ {
			if r.Thorough || n != (i+i/16)%3 {
				jobs = append(jobs, s04job{s, n})
			}
		}
	}
	r.Each(len(jobs), func(i int) string { return what + "/" + jobs[i].String() }, func(t *vk.T, i int) { f(t, jobs[i].s, jobs[i].n, r.Thorough) })
}

// the points of the test slices
func s04points(s spec, typ, n, variant int) (ms []mp) {
	pool := []mp{mk(vk.BI(1), tN), mk(vk.BI(0), tN), mk(vk.Generic(31, vk.R), tN), mk(vk.BI(2), tN)}
	if !s.subOnly && !isSub(typ) {
		pool = []mp{mk(vk.BI(1), tN), mk(vk.BI(5), tA), mk(vk.BI(0), tN), mk(vk.BI(3), tE1)}
	}
	for i := 0; i < n; i++ {
		ms = append(ms, pool[(i+variant)%len(pool)])
	}
	return
}

type s04job struct {
	s spec
	n int
}

func (j s04job) String() string { return fmt.Sprintf("%v/length %d", j.s, j.n) }

func s04(r *vk.Run) {
	quietNaPs()
	maxN := 3
	if r.Thorough {
		maxN = 4
	}
	specs := s04specs(r.Thorough)
	var jobs []s04job
	for _, s := range specs {
		for n := 0; n <= maxN; n++ {
			jobs = append(jobs, s04job{s, n})
		}
	}
	r.Extra("configurations", len(specs))
	key := func(what string) func(i int) string {
		return func(i int) string { return what + "/" + jobs[i].String() }
	}
	r.Each(len(jobs), key("write"), func(t *vk.T, i int) { s04write(t, jobs[i].s, jobs[i].n, r.Thorough) })
	napsAnswer(true)
	r.Each(len(jobs), key("write invalid points, handler answers true"), func(t *vk.T, i int) { s04writing(t, jobs[i].s, jobs[i].n, r.Thorough, true) })
	quietNaPs()
	r.Each(len(jobs), key("read"), func(t *vk.T, i int) { s04read(t, jobs[i].s, jobs[i].n, r.Thorough) })
	r.Each(len(jobs), key("hostile"), func(t *vk.T, i int) { s04hostile(t, jobs[i].s, jobs[i].n, r.Thorough) })
	r.Each(len(jobs), key("batch"), func(t *vk.T, i int) { s04batch(t, jobs[i].s, jobs[i].n, r.Thorough) })
	r.Each(len(specs), func(i int) string { return "sizes/" + specs[i].String() }, func(t *vk.T, i int) { s04sizes(t, specs[i]) })
	// long slices
	type longJob struct {
		s   spec
		typ int
		n   int
	}
	lens := []int{17, 64, 129, 257, 513, 1025}
	if r.Thorough {
		lens = append(lens, 8, 16, 33, 65, 100, 127, 128, 255, 256, 300, 513, 1025)
	}
	var long []longJob
	for _, f := range formats() {
		for style := 0; style < 3; style++ {
			s := frameSpec(f, []int{0, 15, 15}[style], 0)
			s.be = (style+f)%2 == 0
			if f > fLong {
				s.subOnly = style == 1
			}
			if style == 2 { // long framing strings
				for i := 0; i < 4; i++ {
					s.fr[i] = longFrame(i, []int{300, 257, 65, 129}[(i+f)%4])
				}
			}
			for i, n := range lens {
				for typ := 0; typ < nTypes; typ++ {
					if r.Thorough || (i+style+typ+f)%3 == 0 {
						long = append(long, longJob{s, typ, n})
					}
				}
			}
		}
	}
	s04pool(1025)
	r.Extra("long_slice_lengths", lens)
	r.Each(len(long), func(i int) string {
		return fmt.Sprintf("long/%.200v/%v/length %d", long[i].s, typeNames[long[i].typ], long[i].n)
	}, func(t *vk.T, i int) { s04long(t, long[i].s, long[i].typ, long[i].n, r.Thorough) })
	huge := []int{65537}
	if r.Thorough {
		huge = append(huge, 32767, 32768, 65535, 65536, 70000, 131073)
	}
	r.Extra("huge_slice_lengths", huge)
	r.Each(len(huge)*2, func(i int) string { return fmt.Sprintf("huge/%d/%d", i%2, huge[i/2]) }, func(t *vk.T, i int) {
		s := baseSpec(fLong)
		if i%2 == 1 {
			s = frameSpec(fLong, 15, 0)
		}
		s04huge(t, s, []int{axtwS, axtwF}[i%2], huge[i/2])
	})
	// framing strings of many lengths
	type frameJob struct {
		s          spec
		slot, flen int
	}
	flens := []int{8, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 1000, 4097}
	if r.Thorough {
		flens = append(flens, 4, 12, 20, 24, 40, 48, 80, 96, 160, 192, 320, 400, 511, 512, 513, 600, 1023, 1024, 1025, 2048, 65535, 65536, 65537)
	}
	r.Extra("framing_lengths", flens)
	var fjobs []frameJob
	for fi, f := range formats() {
		for k, n := range flens {
			for slot := 0; slot < 4; slot++ {
				if !r.Thorough && (fi+k+slot)%2 == 1 {
					continue
				}
				s := baseSpec(f)
				s.be = (k+fi+slot)/2%2 == 0
				fjobs = append(fjobs, frameJob{s, slot, n})
			}
		}
	}
	r.Each(len(fjobs), func(i int) string {
		return fmt.Sprintf("framing/%v/%s of length %d", fjobs[i].s, frNames[fjobs[i].slot], fjobs[i].flen)
	}, func(t *vk.T, i int) { s04frames(t, fjobs[i].s, fjobs[i].slot, fjobs[i].flen, r.Thorough) })
	r.Sample("XY,BE,GlobalSliceHeader=\"[[[\",PerPointFooter=\";,\", three points, stream fails after 73 bytes, read into a buffer of 5")
}

func longFrame(i, n int) string {
	b := make([]byte, n)
	for k := range b {
		b[k] = byte(vk.Hash64(fmt.Sprint(i, k)))
	}
	return string(b)
}

var longPool [2][]mp

// s04pool prepares n distinct points, inside the subgroup and anywhere
func s04pool(n int) {
	for i := len(longPool[0]); i < n; i++ {
		longPool[0] = append(longPool[0], mk(vk.Generic(uint64(7000+i), vk.R), tN))
		longPool[1] = append(longPool[1], mk(vk.Generic(uint64(9000+i), vk.R), i%2*tA))
	}
}

// s04long: long slices of distinct points, streams that fail where a blockwise treatment would change over, undecodable points there
func s04long(t *vk.T, s spec, typ, L int, thorough bool) {
	ms := longPool[1][:L]
	if s.subOnly || isSub(typ) {
		ms = longPool[0][:L]
	}
	sr, ds := s.views()
	w0, ok := sr.(sliceSerializer)
	if !ok {
		t.Failf("serializer does not support SerializeSlice")
		return
	}
	idx := map[int]bool{}
	for _, i := range []int{0, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, L / 2, L - 2, L - 1} {
		if i >= 0 && i < L && (thorough || i > L/2 || i%64 == 0) {
			idx[i] = true
		}
	}
	per := s.plen() + len(s.fr[pph]) + len(s.fr[ppf])
	total, pl := s.sliceLen(L), s.singleLen()
	e := s.slice(ms)
	var e1 []byte
	for _, m := range ms {
		a := m.aff()
		e1 = append(e1, s.single(a.x, a.y)...)
	}
	if len(e) != total || len(e1) != L*pl {
		panic("length of reference encoding")
	}
	// writing
	cuts, cuts1 := []int{total}, []int{len(e1)}
	for i := range idx {
		end := len(s.fr[gsh]) + 4 + i*per + len(s.fr[pph]) + s.plen()
		cuts = append(cuts, end-1, end, end+len(s.fr[ppf]))
		cuts1 = append(cuts1, (i+1)*pl-1, i*pl, i*pl+1)
	}
	sort.Ints(cuts)
	sort.Ints(cuts1)
	for ci, k := range cuts {
		kd := streamErrs[ci%len(streamErrs)]
		sl, at := pointSlices(typ, ms, ci)
		w := &faultWriter{k: k, err: kd.err}
		n, err := w0.SerializeSlice(w, sl)
		t.Eval(1)
		desc := fmt.Sprintf("SerializeSlice of %d distinct points as %s, %s after %d of %d bytes", L, typeNames[typ], kd.name, k, total)
		if n != len(w.got) || n != k || !bytes.Equal(w.got, e[:k]) {
			t.Failf("%s: %d bytes reported, %d written", desc, n, len(w.got))
			continue
		}
		for i, m := range ms {
			if idx[i] || ci == 0 {
				if bad := shows(copyAny(at(i)), m); bad != "" {
					t.Failf("%s: element %d was changed: %s", desc, i, bad)
				}
			}
		}
		if k == total {
			if err != nil {
				t.Failf("%s: %v", desc, err)
			}
			continue
		}
		if err == nil {
			t.Failf("%s: no error", desc)
			continue
		}
		c, _ := s.complete(n, L)
		if g := err.GetData_struct(); g.PointsSerialized != c || g.PartialWrite != (n > 0) {
			t.Failf("%s: error data %+v, expected %d points", desc, g, c)
		}
		if bad := wrapsWrite(err, kd.err); bad != "" {
			t.Failf("%s: %s", desc, bad)
		}
		t.StateH(vk.Hash64(fmt.Sprint("lw", s, L, typ, k)))
	}
	for ci, k := range cuts1 {
		kd := streamErrs[ci%len(streamErrs)]
		sl, _ := pointSlices(typ, ms, ci)
		w := &faultWriter{k: k, err: kd.err}
		n, err := sr.SerializeCurvePoints(w, sl)
		t.Eval(1)
		desc := fmt.Sprintf("SerializeCurvePoints of %d distinct points as %s, %s after %d of %d bytes", L, typeNames[typ], kd.name, k, len(e1))
		if n != len(w.got) || n != k || !bytes.Equal(w.got, e1[:k]) {
			t.Failf("%s: %d bytes reported, %d written", desc, n, len(w.got))
			continue
		}
		if (err == nil) != (k == len(e1)) {
			t.Failf("%s: error %v", desc, err)
		} else if err != nil {
			if g := err.GetData_struct(); g.PointsSerialized != n/pl || g.PartialWrite != (n%pl != 0) {
				t.Failf("%s: error data %+v", desc, g)
			}
		}
	}
	// reading
	tail := []byte("trailing")
	for vi, d := range ds {
		for ci, k := range cuts {
			b := e[:k]
			if k == total {
				b = append(append([]byte{}, e...), tail...)
			}
			kd := streamErrs[(ci+vi)%len(streamErrs)]
			c := ci + vi + typ
			tr := trusts[(c+1)%2]
			chunk := []int{4096, 1000, 61, 127}[c%4]
			if !thorough && k != total && (ci+vi)%3 != 0 {
				continue
			}
			readCheck(t, s, d, viewNames[vi], b, kd, chunk, c/2%2 == 1, typ, -1, 0, tr, "")
			readCheck(t, s, d, viewNames[vi], b, kd, chunk, c/2%2 == 1, typ, L+ci%2, L+2*(ci%2), tr, "")
			if k == total {
				readCheck(t, s, d, viewNames[vi], b, kd, chunk, false, typ, L-1, L+2, tr, "")
			}
			t.StateH(vk.Hash64(fmt.Sprint("lr", s, L, typ, k, vi)))
		}
		for ci, k := range cuts1 {
			if !thorough && k != len(e1) && (ci+vi)%3 != 0 {
				continue
			}
			s04longBatch(t, s, d, viewNames[vi], typ, ms, e1, k, ci)
		}
		// an undecodable point
		for i := range idx {
			a := ms[i].aff()
			_, hs := s.elems(a.x, a.y)
			slot := len(hs) - 1
			f, ok := s.field(vk.P, hs[slot])
			if !ok {
				f = bytes.Repeat([]byte{0xff}, 32)
			}
			if thorough || (i+vi)%2 == 0 {
				c := append([]byte{}, e...)
				copy(c[len(s.fr[gsh])+4+i*per+len(s.fr[pph])+32*slot:], f)
				readCheck(t, s, d, viewNames[vi], c, streamErrs[0], 1000, false, typ, L, L+1, common.UntrustedInput, fmt.Sprintf("point %d undecodable", i))
			}
		}
	}
}

// s04longBatch reads a sequence of single points e of which only k bytes can be read
func s04longBatch(t *vk.T, s spec, d des, vname string, typ int, ms []mp, e []byte, k, variant int) {
	L, pl := len(ms), s.singleLen()
	for entry := 0; entry < 3; entry++ {
		kd := streamErrs[(variant+entry)%len(streamErrs)]
		tr := trusts[(variant/2+entry)%2]
		_, _, sl, ptrs := slTyps[typ].buf(L, L)
		fr := &faultReader{data: e, k: k, chunk: []int{4096, 1000, 61, 127}[(variant+entry)%4], err: kd.err, tail: variant%3 == 0}
		var n, pw int
		var err ps.BatchDeserializationError
		switch entry {
		case 0:
			n, err = d.DeserializeCurvePoints(fr, tr, sl)
		case 1:
			n, pw, err = ps.DeserializeCurvePoints_Bounded(d.(ps.CurvePointDeserializer), fr, tr, sl)
		case 2:
			n, err = slTyps[typ].vari(d, fr, tr, ptrs)
		}
		t.Eval(1)
		desc := fmt.Sprintf("%s (%s, trusted %v) into %d x %s, %s after %d of %d bytes", [3]string{"DeserializeCurvePoints", "DeserializeCurvePoints_Bounded", "DeserializeCurvePoints_Variadic"}[entry], vname, tr.Bool(), L, typeNames[typ], kd.name, k, len(e))
		if n != fr.pos || n != k {
			t.Failf("%s: %d bytes reported, %d delivered", desc, n, fr.pos)
		}
		cnt := n / pl
		if entry == 1 && pw != cnt {
			t.Failf("%s: %d points reported", desc, pw)
		}
		isEOF := errors.Is(kd.err, io.EOF) || kd.err == io.ErrUnexpectedEOF
		switch {
		case k == len(e), entry == 1 && isEOF && k%pl == 0:
			if err != nil {
				t.Failf("%s: error %v", desc, err)
			}
		case err == nil:
			t.Failf("%s: no error", desc)
		default:
			if bad := wrapsRead(err, kd.err, n); bad != "" {
				t.Failf("%s: %s", desc, bad)
			}
			if g := err.GetData_struct(); g.PointsDeserialized != cnt || g.PartialRead != (n%pl != 0) {
				t.Failf("%s: error data %+v", desc, g)
			}
		}
		for i := 0; i < L; i++ {
			if i < cnt {
				a := ms[i].aff()
				if bad := showsXY(ptrs[i], a.x, a.y); bad != "" {
					t.Failf("%s: element %d: %s", desc, i, bad)
				}
			} else if !(i == cnt && k%pl >= len(s.fr[sph])+s.plen()) && !sameRaw(ptrs[i], filled(typ)) {
				t.Failf("%s: element %d was modified", desc, i)
			}
		}
	}
	t.StateH(vk.Hash64(fmt.Sprint("lb", s, L, typ, k, vname)))
}

// s04huge: more points than fit into 16 bits
func s04huge(t *vk.T, s spec, typ, L int) {
	pool := longPool[0][:61] // 61 does not divide any power of two
	var vals []PI
	var xy []refPt
	var encs, encs1 [][]byte
	for _, m := range pool {
		a := m.aff()
		xy = append(xy, refPt{a.x, a.y})
		p, _ := s.point(a.x, a.y)
		encs = append(encs, []byte(s.fr[pph]+string(p)+s.fr[ppf]))
		encs1 = append(encs1, s.single(a.x, a.y))
		vals = append(vals, repsM(typ, m)[0].p)
	}
	pts := make([]PI, L)
	var e, e1 []byte
	e = append(e, s.fr[gsh]...)
	e = binary.LittleEndian.AppendUint32(e, uint32(L))
	for i := range pts {
		pts[i] = vals[i%61]
		e = append(e, encs[i%61]...)
		e1 = append(e1, encs1[i%61]...)
	}
	e = append(e, s.fr[gsf]...)
	sl, _ := mkSlice(typ, pts)
	sr, ds := s.views()
	var w, w1 bytes.Buffer
	n, err := sr.(sliceSerializer).SerializeSlice(&w, sl)
	n1, err1 := sr.SerializeCurvePoints(&w1, sl)
	t.Eval(2)
	if err != nil || n != len(e) || !bytes.Equal(w.Bytes(), e) {
		t.Failf("SerializeSlice of %d points: n=%d (expected %d), err=%v, first difference at byte %d", L, n, len(e), err, firstDiff(w.Bytes(), e))
	}
	if err1 != nil || n1 != len(e1) || !bytes.Equal(w1.Bytes(), e1) {
		t.Failf("SerializeCurvePoints of %d points: n=%d (expected %d), err=%v, first difference at byte %d", L, n1, len(e1), err1, firstDiff(w1.Bytes(), e1))
	}
	l, err2 := ds[1].SliceOutputLength(int32(L))
	if err2 != nil || int(l) != len(e) {
		t.Failf("SliceOutputLength(%d) = %d, %v", L, l, err2)
	}
	for vi, d := range ds {
		for cut := 0; cut < 2; cut++ {
			b, b1, cnt := e, e1, L
			if cut == 1 { // lacks the last byte
				b, b1, cnt = e[:len(e)-len(s.fr[gsf])-len(s.fr[ppf])-1], e1[:len(e1)-len(s.fr[spf])-1], L-1
			}
			var calls []int32
			rd := bytes.NewReader(b)
			mk, at, _, _ := slTyps[typ].buf(L, L)
			out, n, err := d.DeserializeSlice(rd, common.TrustedInput, func(l int32) (any, cp.CurvePointSlice, error) {
				calls = append(calls, l)
				return mk(l)
			})
			t.Eval(1)
			desc := fmt.Sprintf("DeserializeSlice of %d points by %s, last byte missing: %v", L, viewNames[vi], cut == 1)
			if n != len(b) || rd.Len() != 0 || len(calls) != 1 || int(calls[0]) != L || out != any(L) || (err != nil) != (cut == 1) {
				t.Failf("%s: n=%d (expected %d), slice maker called with %v, output %v, error %v", desc, n, len(b), calls, out, err)
			} else if err != nil {
				if g := err.GetData_struct(); g.PointsDeserialized != cnt || !g.PartialRead {
					t.Failf("%s: error data %+v", desc, g)
				}
			}
			for i := 0; i < cnt; i++ {
				if bad := showsXY(at(i), xy[i%61].x, xy[i%61].y); bad != "" {
					t.Fatalf("%s: element %d: %s", desc, i, bad)
				}
			}
			for entry := 0; entry < 2; entry++ {
				_, at, sl, _ := slTyps[typ].buf(L, L)
				rd := bytes.NewReader(b1)
				pw := cnt
				var err ps.BatchDeserializationError
				if entry == 0 {
					n, err = d.DeserializeCurvePoints(rd, common.TrustedInput, sl)
				} else {
					n, pw, err = ps.DeserializeCurvePoints_Bounded(d.(ps.CurvePointDeserializer), rd, common.TrustedInput, sl)
				}
				t.Eval(1)
				desc := fmt.Sprintf("batch of %d points (entry %d) by %s, last byte missing: %v", L, entry, viewNames[vi], cut == 1)
				if n != len(b1) || rd.Len() != 0 || pw != cnt || (err != nil) != (cut == 1) {
					t.Failf("%s: n=%d (expected %d), %d points, error %v", desc, n, len(b1), pw, err)
				} else if err != nil {
					if g := err.GetData_struct(); g.PointsDeserialized != cnt || !g.PartialRead {
						t.Failf("%s: error data %+v", desc, g)
					}
				}
				for i := 0; i < cnt; i++ {
					if bad := showsXY(at(i), xy[i%61].x, xy[i%61].y); bad != "" {
						t.Fatalf("%s: element %d: %s", desc, i, bad)
					}
				}
			}
			t.StateH(vk.Hash64(fmt.Sprint("huge", s, L, vi, cut)))
		}
	}
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// complete tells how many points are complete after n bytes of the slice, and whether n is the end of a point
func (s spec) complete(n, L int) (c int, atEnd bool) {
	for i := 0; i < L; i++ {
		end := len(s.fr[gsh]) + 4 + i*(s.plen()+len(s.fr[pph])+len(s.fr[ppf])) + len(s.fr[pph]) + s.plen()
		if end <= n {
			c = i + 1
		}
		atEnd = atEnd || end == n
	}
	return
}

var repMemo sync.Map

// repsM is reps with level 1, cached; the result must not be modified
func repsM(typ int, m mp) []*rep {
	k := fmt.Sprint(typ, m.key())
	if v, ok := repMemo.Load(k); ok {
		return v.([]*rep)
	}
	v := reps(typ, m, 1)
	repMemo.Store(k, v)
	return v
}

func pointSlices(typ int, ms []mp, variant int) (s cp.CurvePointSlice, at func(int) PI) {
	var p []PI
	for i, m := range ms {
		rs := repsM(typ, m)
		p = append(p, copyRaw(rs[(i+variant)%len(rs)].p))
	}
	s, at = mkSlice(typ, p)
	if variant%2 == 1 { // unspecific slice type
		var q []PI
		for i := range ms {
			q = append(q, at(i))
		}
		s = cp.GenericPointSlice(q)
	}
	return
}

func s04write(t *vk.T, s spec, L int, thorough bool) { s04writing(t, s, L, thorough, false) }

// onlyBad: only slices with points that cannot be serialized
func s04writing(t *vk.T, s spec, L int, thorough, onlyBad bool) {
	sr := s.build()
	total := s.sliceLen(L)
	w0, ok := sr.(sliceSerializer)
	if !ok {
		t.Failf("serializer does not support SerializeSlice")
		return
	}
	for typ := 0; typ < nTypes; typ++ {
		for v := 0; v < 4; v++ {
			ms := s04points(s, typ, L, v)
			want := s.slice(ms)
			if len(want) != total {
				panic("length of reference encoding")
			}
			check := func(k int, kd streamErr, eager bool) {
				sl, at := pointSlices(typ, ms, v)
				w := &faultWriter{k: k, err: kd.err, eager: eager}
				n, err := w0.SerializeSlice(w, sl)
				t.Eval(1)
				t.StateH(vk.Hash64(fmt.Sprint("w", s, L, k, kd.name, eager)))
				desc := fmt.Sprintf("SerializeSlice of %v as %s (variant %d), %s after %d of %d bytes (eager %v)", ms, typeNames[typ], v, kd.name, k, total, eager)
				if n != len(w.got) || n > total || !bytes.Equal(w.got, want[:n]) {
					t.Failf("%s: %d bytes reported, got\n %x, expected\n %x", desc, n, w.got, want)
				}
				for i, m := range ms {
					if bad := shows(copyAny(at(i)), m); bad != "" {
						t.Failf("%s: element %d was changed: %s", desc, i, bad)
					}
				}
				if k > total || k == total && !eager {
					if err != nil || n != total {
						t.Failf("%s: n=%d err=%v", desc, n, err)
					}
					return
				}
				if err == nil {
					t.Failf("%s: no error", desc)
					return
				}
				if n != k {
					t.Failf("%s: %d bytes written", desc, n)
				}
				if bad := wrapsWrite(err, kd.err); bad != "" {
					t.Failf("%s: %s", desc, bad)
				}
				if bad := badText(err.Error()); bad != "" {
					t.Failf("%s: %s", desc, bad)
				}
				g := err.GetData_struct()
				c, atEnd := s.complete(n, L)
				if g.PointsSerialized != c && !(eager && atEnd && g.PointsSerialized == c-1) {
					t.Failf("%s: PointsSerialized is %d, expected %d", desc, g.PointsSerialized, c)
				}
				if n < total && g.PartialWrite != (n > 0) {
					t.Failf("%s: PartialWrite is %v", desc, g.PartialWrite)
				}
			}
			if !onlyBad {
				check(total+1, streamErrs[1], false)
			}
			for k := 0; k <= total && !onlyBad; k++ {
				if !thorough && (k+typ+v)%4 != 0 {
					if _, e := s.complete(k, L); !e && !s.boundary(k, L) {
						continue
					}
				}
				for ki, kd := range streamErrs {
					if thorough || (ki+k+v)%2 == 0 {
						check(k, kd, false)
						check(k, kd, true)
					}
				}
			}
			// points that cannot be serialized
			for bad := 0; bad < L; bad++ {
				type bc struct {
					p    PI
					err  error
					name string
				}
				bcs := []bc{{fresh(typ), be.ErrCannotSerializeNaP, "NaP"}}
				if hasInf(typ) {
					bcs = append(bcs, bc{copyRaw(reps(typ, mk(vk.BI(0), tE1), 1)[0].p), be.ErrCannotSerializePointAtInfinity, "infinity"})
				}
				if s.subOnly && !isSub(typ) {
					bcs = append(bcs, bc{copyRaw(reps(typ, mk(vk.BI(2), tA), 1)[0].p), be.ErrWillNotSerializePointOutsideSubgroup, "outside subgroup"})
				}
				for _, c := range bcs {
					p := make([]PI, L)
					for i, m := range ms {
						rs := repsM(typ, m)
						p[i] = copyRaw(rs[(i+v)%len(rs)].p)
					}
					p[bad] = c.p
					sl, _ := mkSlice(typ, p)
					var w bytes.Buffer
					n, err := w0.SerializeSlice(&w, sl)
					t.Eval(1)
					at := len(s.fr[gsh]) + 4 + bad*(s.plen()+len(s.fr[pph])+len(s.fr[ppf])) + len(s.fr[pph])
					desc := fmt.Sprintf("SerializeSlice of %v as %s with %s at index %d", ms, typeNames[typ], c.name, bad)
					if err == nil || !errors.Is(err, c.err) {
						t.Failf("%s: error is %v", desc, err)
						continue
					}
					if n != w.Len() || n != at || !bytes.Equal(w.Bytes(), want[:at]) {
						t.Failf("%s: n=%d, expected %d; got %x", desc, n, at, w.Bytes())
					}
					if g := err.GetData_struct(); g.PointsSerialized != bad || !g.PartialWrite {
						t.Failf("%s: error data %+v", desc, g)
					}
					if b := badText(err.Error()); b != "" {
						t.Failf("%s: %s", desc, b)
					}
				}
			}
		}
	}
}

// boundary: is byte offset k next to a segment boundary?
func (s spec) boundary(k, L int) bool {
	pos := 0
	near := func(l int) bool {
		pos += l
		return k >= pos-1 && k <= pos+1
	}
	if k <= 1 || near(len(s.fr[gsh])) || near(4) {
		return true
	}
	for i := 0; i < L; i++ {
		if near(len(s.fr[pph])) || s.plen() == 64 && (k >= pos+31 && k <= pos+33) || near(s.plen()) || near(len(s.fr[ppf])) {
			return true
		}
	}
	return near(len(s.fr[gsf]))
}

func s04read(t *vk.T, s spec, L int, thorough bool) {
	_, ds := s.views()
	total := s.sliceLen(L)
	tail := []byte("trailing")
	for v := 0; v < 2; v++ {
		for typ := 0; typ < nTypes; typ++ {
			e := s.slice(s04points(s, typ, L, v))
			for k := 0; k <= total+1; k++ {
				b := e[:min(k, total)]
				if k == total+1 {
					b = append(append([]byte{}, e...), tail...)
				}
				bound := s.boundary(k, L) || k > total
				if !thorough && !bound && (k+typ+v)%3 != 0 {
					continue
				}
				for ki, kd := range streamErrs {
					for vi, d := range ds {
						if !thorough && !bound && (ki+vi+k)%3 != 0 {
							continue
						}
						c := k + ki + vi + typ + v
						chunk := []int{1, 1000, 31, 7}[c%4]
						tr := trusts[c/4%2]
						readCheck(t, s, d, viewNames[vi], b, kd, chunk, c/8%2 == 1, typ, -1, 0, tr, "")
						for extra := 0; extra < 3; extra += 2 {
							readCheck(t, s, d, viewNames[vi], b, kd, chunk, c/8%2 == 1, typ, L+extra, L+2*extra, tr, "")
						}
					}
					t.StateH(vk.Hash64(fmt.Sprint("r", s, L, k, kd.name)))
				}
			}
			// all (small) buffer lengths and capacities
			for bl := 0; bl <= L+1; bl++ {
				for bc := bl; bc <= L+2; bc++ {
					for vi, d := range ds {
						readCheck(t, s, d, viewNames[vi], append(append([]byte{}, e...), tail...), streamErrs[0], 1000, false, typ, bl, bc, trusts[bl%2], "")
						t.StateH(vk.Hash64(fmt.Sprint("b", s, L, bl, bc)))
					}
				}
			}
			// a slice maker that fails
			for vi, d := range ds {
				my := &faultErr{"no memory"}
				n0 := len(s.fr[gsh]) + 4
				var calls []int32
				out, n, err := d.DeserializeSlice(bytes.NewReader(e), common.UntrustedInput, func(l int32) (any, cp.CurvePointSlice, error) {
					calls = append(calls, l)
					return "my output", nil, my
				})
				t.Eval(1)
				if err == nil || !errors.Is(err, my) || n != n0 || out != any("my output") || len(calls) != 1 || int(calls[0]) != L {
					t.Failf("%s: failing slice maker: out=%v n=%d err=%v calls=%v", viewNames[vi], out, n, err, calls)
				} else if g := err.GetData_struct(); g.PointsDeserialized != 0 || !g.PartialRead {
					t.Failf("%s: failing slice maker: error data %+v", viewNames[vi], g)
				}
			}
		}
	}
}

// corrupted slices
func s04hostile(t *vk.T, s spec, L int, thorough bool) {
	_, ds := s.views()
	total := s.sliceLen(L)
	for typ := 0; typ < nTypes; typ++ {
		for v := 0; v < 2; v++ {
			if !thorough && (typ+v+L+len(s.fr[gsh])+len(s.fr[gsf])+s.f)%4 != 0 {
				continue
			}
			ms := s04points(s, typ, L, v)
			e := s.slice(ms)
			try := func(what string, b []byte) {
				t.StateH(vk.Hash64(fmt.Sprint("h", s) + string(b)))
				for vi, d := range ds {
					for ki, kd := range streamErrs[:2] {
						if !thorough && (ki+vi)%2 == 0 {
							continue
						}
						for _, tr := range trusts {
							readCheck(t, s, d, viewNames[vi], b, kd, []int{1, 1000}[ki], false, typ, L+2, L+3, tr, what)
						}
						readCheck(t, s, d, viewNames[vi], b, kd, 1000, false, typ, -1, 0, common.UntrustedInput, what)
					}
				}
			}
			// every framing byte
			pos := 0
			frame := func(f string) {
				for i := range f {
					for _, x := range []byte{1, 0x80, 0xff} {
						c := append([]byte{}, e...)
						c[pos+i] ^= x
						try(fmt.Sprintf("byte %d corrupted", pos+i), c)
						if thorough {
							try(fmt.Sprintf("byte %d corrupted, with trailing data", pos+i), append(c, e...))
						}
					}
				}
				pos += len(f)
			}
			frame(s.fr[gsh])
			lenPos := pos
			pos += 4
			for i := 0; i < L; i++ {
				frame(s.fr[pph])
				pos += s.plen()
				frame(s.fr[ppf])
			}
			frame(s.fr[gsf])
			if pos != total {
				panic("total")
			}
			// length field
			per := int64(s.plen() + len(s.fr[pph]) + len(s.fr[ppf]))
			fits := (math.MaxInt32 - int64(len(s.fr[gsh])+4+len(s.fr[gsf]))) / per
			vals := []int64{0, 1, 2, 3, 4, 5, int64(L) << 8, int64(L) << 24, 256, 65536, fits, fits + 1, math.MaxInt32 - 1, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, int64(L) + 1<<31}
			for _, x := range vals {
				if x > math.MaxUint32 {
					continue
				}
				c := append([]byte{}, e...)
				binary.LittleEndian.PutUint32(c[lenPos:], uint32(x))
				try(fmt.Sprintf("length field %d", x), c)
				try(fmt.Sprintf("length field %d with trailing zeros", x), append(c, make([]byte, 200)...))
			}
			// undecodable points
			for i := 0; i < L; i++ {
				at := lenPos + 4 + i*int(per) + len(s.fr[pph])
				a := ms[i].aff()
				_, hs := s.elems(a.x, a.y)
				bad := func(what string, slot int, x *big.Int) {
					f, ok := s.field(x, hs[slot])
					if !ok {
						return
					}
					c := append([]byte{}, e...)
					copy(c[at+32*slot:], f)
					try(fmt.Sprintf("point %d: slot %d is %s", i, slot, what), c)
				}
				for slot := range hs {
					bad("p", slot, vk.P)
					for q := int64(2); q < 8; q++ {
						bad(fmt.Sprint(q), slot, vk.BI(q))
					}
				}
				// a point outside of the subgroup
				if o := mk(vk.BI(9), tE1).aff(); o != nil {
					if p, ok := s.point(o.x, o.y); ok {
						c := append([]byte{}, e...)
						copy(c[at:], p)
						try(fmt.Sprintf("point %d: outside of the subgroup", i), c)
					}
				}
			}
		}
	}
}

// ---- batches: sequences of single points

type hugeSlice int

func (h hugeSlice) Len() int            { return int(h) }
func (h hugeSlice) GetByIndex(i int) PI { panic("element access") }

func s04batch(t *vk.T, s spec, L int, thorough bool) {
	sr, ds := s.views()
	pl := s.singleLen()
	total := L * pl
	for typ := 0; typ < nTypes; typ++ {
		for v := 0; v < 2; v++ {
			ms := s04points(s, typ, L, v)
			var e []byte
			for _, m := range ms {
				a := m.aff()
				e = append(e, s.single(a.x, a.y)...)
			}
			for k := 0; k <= total; k++ {
				if !thorough && (k+typ+v)%8 != 0 && !(k%pl <= 2 || k%pl >= pl-2) {
					continue
				}
				for ki, kd := range streamErrs {
					t.StateH(vk.Hash64(fmt.Sprint("batch", s, L, k, kd.name)))
					// writing
					for eager := 0; eager < 2; eager++ {
						sl, at := pointSlices(typ, ms, v+ki)
						w := &faultWriter{k: k, err: kd.err, eager: eager == 1}
						n, err := sr.SerializeCurvePoints(w, sl)
						t.Eval(1)
						desc := fmt.Sprintf("SerializeCurvePoints of %v as %s, %s after %d of %d bytes (eager %v)", ms, typeNames[typ], kd.name, k, total, eager)
						if n != len(w.got) || n > total || !bytes.Equal(w.got, e[:n]) {
							t.Failf("%s: %d bytes reported, got %x", desc, n, w.got)
						}
						for i, m := range ms {
							if bad := shows(copyAny(at(i)), m); bad != "" {
								t.Failf("%s: element %d was changed: %s", desc, i, bad)
							}
						}
						if k == total && (eager == 0 || L == 0) {
							if err != nil {
								t.Failf("%s: err=%v", desc, err)
							}
						} else if err == nil {
							t.Failf("%s: no error", desc)
						} else {
							if n != k {
								t.Failf("%s: %d bytes written", desc, n)
							}
							if bad := wrapsWrite(err, kd.err); bad != "" {
								t.Failf("%s: %s", desc, bad)
							}
							if bad := badText(err.Error()); bad != "" {
								t.Failf("%s: %s", desc, bad)
							}
							g := err.GetData_struct()
							if g.PointsSerialized != n/pl && !(eager == 1 && n%pl == 0 && g.PointsSerialized == n/pl-1) {
								t.Failf("%s: PointsSerialized is %d", desc, g.PointsSerialized)
							}
							if g.PartialWrite != (n%pl != 0) {
								t.Failf("%s: PartialWrite is %v", desc, g.PartialWrite)
							}
						}
					}
					// reading
					for vi, d := range ds {
						for entry := 0; entry < 3; entry++ {
							c := k + ki + vi + typ + v + entry
							tr := trusts[c/4%2]
							_, _, sl, ptrs := slTyps[typ].buf(L, L)
							fr := &faultReader{data: e, k: k, chunk: []int{1, 1000, 31, 7}[c%4], err: kd.err, tail: c/8%2 == 1}
							var n, pw int
							var err ps.BatchDeserializationError
							switch entry {
							case 0:
								n, err = d.DeserializeCurvePoints(fr, tr, sl)
							case 1:
								n, pw, err = ps.DeserializeCurvePoints_Bounded(d.(ps.CurvePointDeserializer), fr, tr, sl)
							case 2:
								n, err = slTyps[typ].vari(d, fr, tr, ptrs)
							}
							t.Eval(1)
							desc := fmt.Sprintf("%s (%s, trusted %v) into %d x %s, %s after %d of %d bytes", [3]string{"DeserializeCurvePoints", "DeserializeCurvePoints_Bounded", "DeserializeCurvePoints_Variadic"}[entry], viewNames[vi], tr.Bool(), L, typeNames[typ], kd.name, k, total)
							if n != fr.pos || n != k {
								t.Failf("%s: %d bytes reported, %d delivered", desc, n, fr.pos)
							}
							cnt := n / pl
							if entry == 1 && pw != cnt {
								t.Failf("%s: %d points reported", desc, pw)
							}
							isEOF := errors.Is(kd.err, io.EOF) || kd.err == io.ErrUnexpectedEOF
							switch {
							case k == total, entry == 1 && isEOF && k%pl == 0:
								if err != nil {
									t.Failf("%s: error %v", desc, err)
								}
							case err == nil:
								t.Failf("%s: no error", desc)
							default:
								if bad := wrapsRead(err, kd.err, n); bad != "" {
									t.Failf("%s: %s", desc, bad)
								}
								if bad := badText(err.Error()); bad != "" {
									t.Failf("%s: %s", desc, bad)
								}
								if g := err.GetData_struct(); g.PointsDeserialized != cnt || g.PartialRead != (n%pl != 0) {
									t.Failf("%s: error data %+v", desc, g)
								}
							}
							for i := 0; i < L; i++ {
								if i < cnt {
									if bad := shows(copyAny(ptrs[i]), ms[i]); bad != "" {
										t.Failf("%s: element %d: %s", desc, i, bad)
									}
								} else if !(i == cnt && k%pl >= len(s.fr[sph])+s.plen()) && !sameRaw(ptrs[i], filled(typ)) {
									t.Failf("%s: element %d was modified", desc, i)
								}
							}
						}
					}
				}
			}
			// undecodable point
			for i := 0; i < L; i++ {
				at := i*pl + len(s.fr[sph])
				for q := int64(2); q < 7; q++ {
					a := ms[i].aff()
					_, hs := s.elems(a.x, a.y)
					slot := len(hs) - 1
					x := vk.BI(q)
					if q == 2 {
						x = vk.P
					}
					f, ok := s.field(x, hs[slot])
					if !ok {
						continue
					}
					b := append([]byte{}, e...)
					copy(b[at+32*slot:], f)
					x2, y2, why, used := s.decode(b[at:at+s.plen()], isSub(typ))
					_, _ = x2, y2
					if why == "" {
						continue
					}
					for vi, d := range ds {
						for entry := 0; entry < 2; entry++ {
							_, _, sl, ptrs := slTyps[typ].buf(L, L)
							rd := bytes.NewReader(b)
							var n, pw int
							var err ps.BatchDeserializationError
							if entry == 0 {
								n, err = d.DeserializeCurvePoints(rd, common.UntrustedInput, sl)
							} else {
								n, pw, err = ps.DeserializeCurvePoints_Bounded(d.(ps.CurvePointDeserializer), rd, common.UntrustedInput, sl)
							}
							t.Eval(1)
							desc := fmt.Sprintf("batch (entry %d, %s) with undecodable point (%s) at index %d into %s", entry, viewNames[vi], why, i, typeNames[typ])
							if n != len(b)-rd.Len() || n != at+used {
								t.Failf("%s: %d bytes reported, %d read, expected %d", desc, n, len(b)-rd.Len(), at+used)
							}
							if err == nil || errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
								t.Failf("%s: error %v", desc, err)
								continue
							}
							if g := err.GetData_struct(); g.PointsDeserialized != i || g.PartialRead != (n%pl != 0) {
								t.Failf("%s: error data %+v after %d bytes", desc, g, n)
							}
							if entry == 1 && pw != i {
								t.Failf("%s: %d points reported", desc, pw)
							}
							for j := 0; j < L; j++ {
								if j < i {
									if bad := shows(copyAny(ptrs[j]), ms[j]); bad != "" {
										t.Failf("%s: element %d: %s", desc, j, bad)
									}
								} else if !sameRaw(ptrs[j], filled(typ)) {
									t.Failf("%s: element %d was modified", desc, j)
								}
							}
						}
					}
				}
			}
		}
	}
}

func s04sizes(t *vk.T, s spec) {
	sr, ds := s.views()
	type sized interface{ SliceOutputLength(int32) (int32, error) }
	variants := []spec{s}
	if s.fr[pph] != "" { // overflow by framing alone
		b := s
		b.fr[pph] = string(make([]byte, 5000))
		variants = append(variants, b)
	}
	for _, s := range variants {
		sr, ds = s.views()
		per := int64(s.plen() + len(s.fr[pph]) + len(s.fr[ppf]))
		fix := int64(len(s.fr[gsh]) + 4 + len(s.fr[gsf]))
		fits := (math.MaxInt32 - fix) / per
		fr := int64(len(s.fr[pph]) + len(s.fr[ppf]))
		vals := []int64{0, 1, 2, 3, 7, 1000, fits - 1, fits, fits + 1, fits + 2, math.MaxInt32 / 2, math.MaxInt32 - 1, math.MaxInt32}
		if fr > 0 {
			f2 := (math.MaxInt32 - fix) / fr
			vals = append(vals, f2-1, f2, f2+1)
		}
		for _, n := range vals {
			if n > math.MaxInt32 {
				continue
			}
			for vi, d := range []sized{ds[0], ds[1]} {
				l, err := d.SliceOutputLength(int32(n))
				t.Eval(1)
				want := fix + n*per
				if want <= math.MaxInt32 {
					if err != nil || int64(l) != want {
						t.Failf("%s: SliceOutputLength(%d) = %d, %v, expected %d", viewNames[vi], n, l, err, want)
					}
				} else if err == nil || l != -1 {
					t.Failf("%s: SliceOutputLength(%d) = %d, %v, expected overflow (%d)", viewNames[vi], n, l, err, want)
				} else if bad := badText(err.Error()); bad != "" {
					t.Failf("%s: SliceOutputLength(%d): %s", viewNames[vi], n, bad)
				}
			}
		}
		for _, n := range []int32{-1, -2, math.MinInt32} {
			for vi, d := range []sized{ds[0], ds[1]} {
				if did, _ := vk.Panics(func() { d.SliceOutputLength(n) }); !did {
					t.Failf("%s: SliceOutputLength(%d) does not panic", viewNames[vi], n)
				}
			}
		}
		// documented: batches of more than MaxInt32 bytes panic
		lim := math.MaxInt32/int64(s.singleLen()) + 1
		for _, h := range []hugeSlice{hugeSlice(lim), hugeSlice(math.MaxInt32), hugeSlice(math.MaxInt32 + 1), hugeSlice(math.MaxInt64)} {
			var w bytes.Buffer
			if did, v := vk.Panics(func() { sr.SerializeCurvePoints(&w, h) }); !did || fmt.Sprint(v) == "element access" || w.Len() != 0 {
				t.Failf("SerializeCurvePoints of %d points: panic %v (%v), %d bytes written", h, did, v, w.Len())
			}
			for vi, d := range ds {
				rd := bytes.NewReader(make([]byte, 1000))
				if did, v := vk.Panics(func() { d.DeserializeCurvePoints(rd, common.UntrustedInput, h) }); !did || fmt.Sprint(v) == "element access" || rd.Len() != 1000 {
					t.Failf("%s: DeserializeCurvePoints of %d points: panic %v (%v), %d bytes left", viewNames[vi], h, did, v, rd.Len())
				}
			}
			if ss, ok := sr.(sliceSerializer); ok && int64(h) > math.MaxInt32 {
				if did, v := vk.Panics(func() { ss.SerializeSlice(&w, h) }); !did || fmt.Sprint(v) == "element access" || w.Len() != 0 {
					t.Failf("SerializeSlice of %d points: panic %v (%v), %d bytes written", h, did, v, w.Len())
				}
			} else if ok && fix+int64(h)*per > math.MaxInt32 {
				n, err := ss.SerializeSlice(&w, h)
				if err == nil || !errors.Is(err, be.ErrSizeDoesNotFitInt32) || n != 0 || w.Len() != 0 {
					t.Failf("SerializeSlice of %d points: n=%d err=%v", h, n, err)
				} else if g := err.GetData_struct(); g.PointsSerialized != 0 || g.PartialWrite {
					t.Failf("SerializeSlice of %d points: error data %+v", h, g)
				}
			}
			t.Eval(1)
		}
		t.StateH(vk.Hash64("sizes" + s.String()[:min(len(s.String()), 200)] + fmt.Sprint(per)))
	}
}

// s04frames: framing strings of many lengths, one at a time. Every byte of the string is corrupted, the stream fails after every byte.
func s04frames(t *vk.T, s spec, slot, flen int, thorough bool) {
	const L = 2
	s.fr[slot] = longFrame(slot, flen)
	sr, ds := s.views()
	w0, ok := sr.(sliceSerializer)
	if !ok {
		t.Failf("serializer does not support SerializeSlice")
		return
	}
	typ := (flen + slot + s.f) % nTypes
	ms := s04points(s, typ, L, flen%2)
	e := s.slice(ms)
	start := map[int][]int{gsh: {0}, pph: {4, 4 + flen + s.plen()}, ppf: {4 + s.plen(), 4 + flen + 2*s.plen()}, gsf: {4 + 2*s.plen()}}[slot]
	for _, st := range start {
		if string(e[st:st+flen]) != s.fr[slot] {
			panic("layout of the reference encoding")
		}
		for i := 0; i < flen; i++ {
			if (flen > 300 || !thorough && flen > 70) && i%64 > 1 && i%64 < 63 && i < flen-3 && i%37 != 0 {
				continue
			}
			for _, x := range []byte{1, 0x80, 0xff} {
				c := append([]byte{}, e...)
				c[st+i] ^= x
				for vi, d := range ds {
					readCheck(t, s, d, viewNames[vi], c, streamErrs[i%2], 1000, false, typ, L+1, L+1, trusts[(i+vi)%2], fmt.Sprintf("byte %d of %s corrupted", i, frNames[slot]))
				}
			}
			kd := streamErrs[i%len(streamErrs)]
			for vi, d := range ds {
				readCheck(t, s, d, viewNames[vi], e[:st+i], kd, []int{1000, 64, 7}[i%3], i%2 == 0, typ, L, L, trusts[(i+vi)%2], fmt.Sprintf("stream fails within %s", frNames[slot]))
			}
			sl, _ := pointSlices(typ, ms, i)
			w := &faultWriter{k: st + i, err: kd.err}
			n, err := w0.SerializeSlice(w, sl)
			t.Eval(1)
			if n != st+i || !bytes.Equal(w.got, e[:st+i]) || err == nil || wrapsWrite(err, kd.err) != "" {
				t.Failf("%.200v: SerializeSlice, stream fails after %d bytes, within %s: %d bytes written, error %v", s, st+i, frNames[slot], n, err)
			}
			t.StateH(vk.Hash64(fmt.Sprint("frame", s.f, slot, flen, st+i)))
		}
	}
	for vi, d := range ds {
		readCheck(t, s, d, viewNames[vi], e, streamErrs[0], 1000, false, typ, L, L, common.UntrustedInput, "complete")
	}
	sl, _ := pointSlices(typ, ms, 0)
	var w bytes.Buffer
	if n, err := w0.SerializeSlice(&w, sl); err != nil || n != len(e) || !bytes.Equal(w.Bytes(), e) {
		t.Failf("%.200v: SerializeSlice wrote %d bytes, error %v", s, n, err)
	}
}
