//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"sort"
	"unsafe"

	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

// sliceOps hides the element type
type sliceOps interface {
	cp.CurvePointSlice
	BatchNormalizeForZ() []int
}

type elem struct {
	*rep
	nap bool
}

func p06(r *vk.Run) {
	initGarbage()
	old := cp.SetNaPErrorHandler(handler)
	defer cp.SetNaPErrorHandler(old)
	maxLen := 3
	if r.Thorough {
		maxLen = 5
	}
	r.Extra("max_slice_length", maxLen)
	g := mk(vk.Generic(101, vk.R), tN)
	o := mk(vk.BI(0), tN)
	alphabet := make([][]elem, nTypes)
	for typ := range alphabet {
		add := func(m mp, which ...int) {
			rs := reps(typ, m, 1)
			for _, w := range which {
				if w < len(rs) {
					alphabet[typ] = append(alphabet[typ], elem{rs[w], false})
				}
			}
		}
		add(g, 0, 1, 2)
		add(o, 0)
		add(mk(vk.BI(0), tA), 0)
		add(mk(vk.BI(0), tE1), 0, 2)
		add(mk(vk.BI(0), tE2), 1)
		add(mk(vk.BI(7), tE1), 0)
		add(mk(vk.BI(1), tE2), 0)
		ns := naps(typ, false)
		pick := map[string]bool{"NaP t=0,z=0": true, "NaP t=1,z=0": true, "NaP t=0,z=1": true, "NaP t=0": true, "NaP t=1": true, "NaP zero value": true}
		for _, n := range ns {
			if pick[n.name] {
				alphabet[typ] = append(alphabet[typ], elem{n, true})
			}
		}
		if typ == xtwF || typ == xtwS {
			for _, n := range ns {
				if n.name == "NaP t="+scaleM.Text(16)[:4]+",z="+scaleM.Text(16)[:4] {
					alphabet[typ] = append(alphabet[typ], elem{n, true})
				}
			}
		}
	}
	// the handler is process-wide, so cases run one after the other; each case = all slices of one type and length with a given first element
	type job struct{ typ, n, first int }
	var jobs []job
	for _, typ := range []int{xtwF, xtwS, axtwF, axtwS} {
		jobs = append(jobs, job{typ, 0, -1})
		for n := 1; n <= maxLen; n++ {
			for f := range alphabet[typ] {
				jobs = append(jobs, job{typ, n, f})
			}
		}
	}
	r.EachN(1, len(jobs), func(i int) string {
		return fmt.Sprintf("batch/%v/len=%d/first=%d", typeNames[jobs[i].typ], jobs[i].n, jobs[i].first)
	}, func(t *vk.T, i int) {
		j := jobs[i]
		al := alphabet[j.typ]
		idx := make([]int, j.n)
		if j.n > 0 {
			idx[0] = j.first
		}
		for {
			p06one(t, j.typ, al, idx)
			k := j.n - 1
			for ; k >= 1; k-- {
				if idx[k]++; idx[k] < len(al) {
					break
				}
				idx[k] = 0
			}
			if k < 1 {
				break
			}
		}
	})
	p06long(r)
	p06alone(r)
	p06wrappers(r)
}

// p06alone: every point, in every representation, normalized on its own
func p06alone(r *vk.Run) {
	ms := []mp{mk(vk.BI(0), tN), mk(vk.BI(0), tA), mk(vk.BI(0), tE1), mk(vk.BI(0), tE2)}
	for _, k := range []*big.Int{vk.BI(1), vk.BI(7), vk.Generic(102, vk.R)} {
		for _, tors := range []int{tN, tA, tE1, tE2} {
			ms = append(ms, mk(k, tors))
		}
	}
	for typ := 0; typ < nTypes; typ++ {
		for _, m := range ms {
			typ, m := typ, m
			rs := reps(typ, m, 1)
			if len(rs) == 0 {
				continue
			}
			r.Case(fmt.Sprintf("alone/%v/%v", typeNames[typ], m), func(t *vk.T) {
				h := &hstate{}
				curH.Store(h)
				for _, rp := range rs {
					for op, name := range []string{"NormalizeForZ", "NormalizeForY", "NormalizeForZ, then NormalizeForY", "NormalizeForY, then NormalizeForZ"} {
						p := copyRaw(rp.p)
						var ok, has bool
						seq := [][]int{{0}, {1}, {0, 1}, {1, 0}}[op]
						var c string
						for _, o := range seq {
							if o == 0 {
								if n, isN := p.(interface{ NormalizeForZ() bool }); isN {
									ok, has, c = n.NormalizeForZ(), true, "Z"
								}
							} else if n, isN := p.(interface{ NormalizeForY() bool }); isN {
								ok, has, c = n.NormalizeForY(), true, "Y"
							}
							if !has {
								continue
							}
							t.Eval(1)
							if ok == m.inf() {
								t.Failf("%s of %v (%s, %s) returns %v", name, m, typeNames[typ], rp.name, ok)
							}
							if s := shows(copyRaw(p), m); s != "" {
								t.Failf("%s of %v (%s, %s): %s", name, m, typeNames[typ], rp.name, s)
							}
							if !m.inf() {
								one := p.Z_decaf_projective()
								if c == "Y" {
									one = p.Y_decaf_projective()
								}
								if !one.IsOne() {
									t.Failf("%s of %v (%s, %s): %s coordinate is not 1", name, m, typeNames[typ], rp.name, c)
								}
							}
						}
						if has {
							q := copyRaw(p)
							q.DoubleEq()
							q.AddEq(p)
							if s := shows(q, m.dbl().add(m)); s != "" {
								t.Failf("%s of %v (%s, %s), then tripling: %s", name, m, typeNames[typ], rp.name, s)
							}
						}
					}
				}
				if h.calls != 0 {
					t.Failf("%v (%s): normalizing valid points calls the NaP handler", m, typeNames[typ])
				}
				t.State("alone", typeNames[typ], fmt.Sprint(m))
			})
		}
	}
}

// p06long: long slices of distinct points, with special elements at the positions where a blockwise treatment would change over
func p06long(r *vk.Run) {
	lens := []int{15, 16, 17, 32, 33, 64, 65, 100, 129, 257, 513, 1025, 4097}
	if r.Thorough {
		lens = append(lens, 8, 9, 31, 63, 127, 128, 255, 256, 300, 512, 1000, 1024, 2049, 8193)
	}
	max := 0
	for _, n := range lens {
		if n > max {
			max = n
		}
	}
	r.Extra("long_slice_lengths", lens)
	al := make([][]elem, nTypes)
	var special [nTypes][]int
	for typ := xtwF; typ <= axtwS; typ++ {
		for i := 0; i < max; i++ {
			tors := tN
			if i%2 == 1 && !isSub(typ) {
				tors = tA
			}
			rs := reps(typ, mk(vk.Generic(uint64(3000+i), vk.R), tors), 1)
			al[typ] = append(al[typ], elem{rs[i%len(rs)], false})
		}
		sp := func(e elem) {
			special[typ] = append(special[typ], len(al[typ]))
			al[typ] = append(al[typ], e)
		}
		for _, m := range []mp{mk(vk.BI(0), tE1), mk(vk.BI(5), tE2), mk(vk.BI(0), tN)} {
			if rs := reps(typ, m, 1); len(rs) > 0 {
				sp(elem{rs[len(rs)-1], false})
			}
		}
		for _, n := range naps(typ, false) {
			if n.name == "NaP t=0,z=0" || n.name == "NaP zero value" || n.name == "NaP t=0,z=1" || n.name == "NaP t=0" {
				sp(elem{n, true})
			}
		}
	}
	type job struct{ typ, n, sp int }
	var jobs []job
	for _, typ := range []int{xtwF, xtwS, axtwF, axtwS} {
		for _, n := range lens {
			for k := -1; k < len(special[typ]); k++ {
				jobs = append(jobs, job{typ, n, k})
			}
		}
	}
	r.EachN(1, len(jobs), func(i int) string {
		return fmt.Sprintf("long/%v/len=%d/special=%d", typeNames[jobs[i].typ], jobs[i].n, jobs[i].sp)
	}, func(t *vk.T, i int) {
		j := jobs[i]
		base := make([]int, j.n)
		for k := range base {
			base[k] = k
		}
		if j.sp < 0 {
			p06one(t, j.typ, al[j.typ], base)
			return
		}
		pos := map[string][]int{"first": {0}, "last": {j.n - 1}, "both": {0, j.n - 1}, "middle": {j.n / 2}, "15,16,31,32,63,64,127,128,255,256": {15, 16, 31, 32, 63, 64, 127, 128, 255, 256}}
		if r.Thorough {
			pos["16"], pos["32"], pos["64"], pos["128"], pos["256"] = []int{16}, []int{32}, []int{64}, []int{128}, []int{256}
		}
		if j.n > 2000 {
			pos = map[string][]int{"last": {j.n - 1}, "512,1024,2048,4096": {512, 1024, 2048, 4096}}
		} else if r.Thorough || j.n == 17 || j.n >= 257 {
			all, every3rd := []int{}, []int{}
			for k := range base {
				if k != j.n/2 {
					all = append(all, k)
				}
				if k%3 != 1 {
					every3rd = append(every3rd, k)
				}
			}
			pos["all but one"] = all
			pos["all"] = base
			pos["two of three"] = every3rd
		}
		for _, ps := range pos {
			idx := append([]int{}, base...)
			for _, k := range ps {
				if k < j.n {
					idx[k] = special[j.typ][j.sp]
				}
			}
			p06one(t, j.typ, al[j.typ], idx)
		}
	})
}

func p06one(t *vk.T, typ int, al []elem, idx []int) {
	desc := func() string {
		s := typeNames[typ] + "{"
		if len(idx) > 8 { // long slices: only the elements off the pattern
			s += fmt.Sprintf("%d distinct points; ", len(idx))
		}
		for i, x := range idx {
			if len(idx) > 8 {
				if x != i {
					s += fmt.Sprintf("[%d]=%v(%v), ", i, al[x].m, al[x].name)
				}
				continue
			}
			s += fmt.Sprintf("%v(%v), ", al[x].m, al[x].name)
		}
		return s + "}"
	}
	anyNap := false
	for _, x := range idx {
		anyNap = anyNap || al[x].nap
	}
	for run := 0; run < 4; run++ { // with invalid points, also under a handler that answers true
		op, answer := run%2, run >= 2
		if answer && !anyNap {
			break
		}
		ps := make([]PI, len(idx))
		for i, x := range idx {
			ps[i] = al[x].p
		}
		s, at := mkSlice(typ, ps)
		h := &hstate{answer: answer}
		curH.Store(h)
		var failing []int
		name := "BatchNormalizeForZ"
		var did bool
		var val any
		if op == 0 {
			b, ok := s.(cp.BatchNormalizerForZ)
			if !ok {
				t.Failf("%v has no BatchNormalizeForZ", typeNames[typ])
				return
			}
			did, val = vk.Panics(func() { failing = b.BatchNormalizeForZ() })
		} else {
			b, ok := s.(cp.BatchNormalizerForY)
			if !ok {
				return
			}
			name = "BatchNormalizeForY"
			did, val = vk.Panics(func() { failing = b.BatchNormalizeForY() })
		}
		t.Eval(1)
		if did {
			t.Failf("%s on %s: panic %v", name, desc(), val)
			continue
		}
		if !sort.IntsAreSorted(failing) {
			t.Failf("%s on %s: reported %v, not sorted", name, desc(), failing)
		}
		rep := map[int]bool{}
		for _, f := range failing {
			if rep[f] || f < 0 || f >= len(idx) {
				t.Failf("%s on %s: reported %v", name, desc(), failing)
			}
			rep[f] = true
		}
		nNap := 0
		for i, x := range idx {
			e := al[x]
			z := at(i)
			if e.nap {
				if !z.IsNaP() {
					t.Failf("%s on %s: invalid element %d became valid", name, desc(), i)
				}
				// only guaranteed to be found if the coordinate is zero; affine types keep it
				if direct && typ <= xtwS {
					f, ok := field(e.p, [2]string{"z", "y"}[op])
					if ok && f.IsZero() {
						nNap++
						if !rep[i] {
							t.Failf("%s on %s: invalid element %d not reported in %v", name, desc(), i, failing)
						}
					}
				}
				continue
			}
			if rep[i] != e.m.inf() {
				t.Failf("%s on %s: element %d in the reported %v: %v", name, desc(), i, failing, rep[i])
			}
			if s := shows(copyRaw(z), e.m); s != "" {
				t.Failf("%s on %s: element %d: %s", name, desc(), i, s)
			}
			if !e.m.inf() {
				c, cn := z.Z_decaf_projective(), "Z"
				if op == 1 {
					c, cn = z.Y_decaf_projective(), "Y"
				}
				if !c.IsOne() {
					t.Failf("%s on %s: element %d: %s coordinate not 1", name, desc(), i, cn)
				}
				if f, ok := z.(fullRead); ok { // without hidden state: exactly the point
					X, Y, T, Z := f.XYTZ_projective()
					if typ == xtwF || typ == axtwF {
						if s := exact(e.m, "XYTZ_projective", X, Y, T, Z); s != "" {
							t.Failf("%s on %s: element %d: %s", name, desc(), i, s)
						}
					}
				}
				// internal representation is coherent: computing goes on with the right point
				c2 := copyRaw(z)
				c2.DoubleEq()
				c2.AddEq(z)
				m3 := e.m.dbl().add(e.m)
				if s := shows(c2, m3); s != "" {
					t.Failf("%s on %s: element %d tripled: %s", name, desc(), i, s)
				}
				// equal to normalizing it alone
				one := copyRaw(e.p)
				var ok bool
				if op == 0 {
					ok = one.(interface{ NormalizeForZ() bool }).NormalizeForZ()
				} else {
					ok = one.(interface{ NormalizeForY() bool }).NormalizeForY()
				}
				if !ok || !one.IsEqual(z) {
					t.Failf("%s on %s: element %d differs from individually normalized one (%v)", name, desc(), i, ok)
				}
			}
		}
		if h.comparisons != 0 {
			t.Failf("%s on %s: reported to the handler as a comparison", name, desc())
		}
		if h.calls < int64(nNap) {
			t.Failf("%s on %s: the handler was not told about invalid points", name, desc())
		}
		t.State(name, desc())
		if nNap == 0 && h.calls == 0 || len(idx) > 8 {
			continue
		}
		// a handler that looks at the points, and one that panics (as the default one does), find every valid point unharmed
		for pass := 0; pass < 2; pass++ {
			s, at := mkSlice(typ, ps)
			look := func(when string) {
				for i, x := range idx {
					if e := al[x]; e.nap {
						if !at(i).IsNaP() {
							t.Failf("%s on %s: invalid element %d is not invalid %s", name, desc(), i, when)
						}
					} else if s := shows(copyRaw(at(i)), e.m); s != "" {
						t.Failf("%s on %s: element %d %s: %s", name, desc(), i, when, s)
					}
				}
			}
			h := &hstate{answer: answer, pan: pass == 1}
			if pass == 0 {
				h.inspect = func() { look("when the handler is called") }
			}
			curH.Store(h)
			did, val := vk.Panics(func() {
				if op == 0 {
					s.(cp.BatchNormalizerForZ).BatchNormalizeForZ()
				} else {
					s.(cp.BatchNormalizerForY).BatchNormalizeForY()
				}
			})
			curH.Store(&hstate{})
			if did != (pass == 1) || did && fmt.Sprint(val) != "vk handler panic" {
				t.Failf("%s on %s: panics: %v (%v), handler panics: %v", name, desc(), did, val, pass == 1)
			}
			look([2]string{"after the handler looked at the points", "after the handler panicked"}[pass])
			t.Eval(1)
		}
	}
}

// p06wrappers: slice wrappers give access to the very elements of the slice
func p06wrappers(r *vk.Run) {
	curH.Store(&hstate{})
	check := func(t *vk.T, name string, s cp.CurvePointSlice, want []unsafe.Pointer, ptr func(PI) unsafe.Pointer) {
		if s.Len() != len(want) {
			t.Failf("%s: Len() = %d for %d elements", name, s.Len(), len(want))
			return
		}
		for i := range want {
			if got := ptr(s.GetByIndex(i)); got != want[i] {
				t.Failf("%s of length %d: GetByIndex(%d) is not element %d", name, len(want), i, i)
			}
			t.Eval(1)
		}
		for _, i := range []int{-1, len(want)} {
			if did, _ := vk.Panics(func() { s.GetByIndex(i) }); !did {
				t.Failf("%s of length %d: GetByIndex(%d) accepted", name, len(want), i)
			}
		}
		t.State("wrapper", name, fmt.Sprint(len(want)))
	}
	raw := func(p PI) unsafe.Pointer { return unsafe.Pointer(&memOf(p)[0]) }
	for _, n := range []int{0, 1, 2, 3, 4, 16, 17, 64, 65, 100, 257} {
		for extra := 0; extra <= 2; extra++ { // spare capacity and offset: the wrapper must be a view of exactly this part
			n, extra := n, extra
			r.Case(fmt.Sprintf("wrapper/%d/%d", n, extra), func(t *vk.T) {
				wrapCheck[cp.Point_xtw_full, *cp.Point_xtw_full](t, n, extra, check, raw)
				wrapCheck[cp.Point_xtw_subgroup, *cp.Point_xtw_subgroup](t, n, extra, check, raw)
				wrapCheck[cp.Point_axtw_full, *cp.Point_axtw_full](t, n, extra, check, raw)
				wrapCheck[cp.Point_axtw_subgroup, *cp.Point_axtw_subgroup](t, n, extra, check, raw)
				wrapCheck[cp.Point_efgh_full, *cp.Point_efgh_full](t, n, extra, check, raw)
				wrapCheck[cp.Point_efgh_subgroup, *cp.Point_efgh_subgroup](t, n, extra, check, raw)
				wrapCheck[fgnVal, *fgnVal](t, n, extra, check, func(p PI) unsafe.Pointer {
					if q, ok := p.(*fgnVal); ok {
						return unsafe.Pointer(q)
					}
					return raw(p)
				})
			})
		}
	}
}

// fgnVal is a value type unknown to the package whose pointer is a curve point
type fgnVal struct{ cp.Point_xtw_full }

func wrapCheck[V any, P interface {
	*V
	PI
}](t *vk.T, n, extra int, check func(*vk.T, string, cp.CurvePointSlice, []unsafe.Pointer, func(PI) unsafe.Pointer), ptr func(PI) unsafe.Pointer) {
	all := make([]V, n+2*extra)
	v := all[extra : extra+n]
	want := make([]unsafe.Pointer, n)
	ptrs := make([]P, n)
	gen := make(cp.GenericPointSlice, n)
	for i := range v {
		want[i] = unsafe.Pointer(&v[i])
		ptrs[n-1-i] = &v[i] // reversed order
		gen[i] = P(&v[i])
	}
	rev := make([]unsafe.Pointer, n)
	for i := range rev {
		rev[i] = want[n-1-i]
	}
	name := fmt.Sprintf("%T", *new(V))
	check(t, "AsCurvePointSlice("+name+")", cp.AsCurvePointSlice[V, P](v), want, ptr)
	check(t, "AsCurvePointPtrSlice("+name+")", cp.AsCurvePointPtrSlice(ptrs), rev, ptr)
	check(t, "GenericPointSlice("+name+")", gen, want, ptr)
	typed := func(s any) {
		if s, ok := s.(interface{ GetByIndexTyped(int) P }); ok {
			for i := range v {
				if unsafe.Pointer(s.GetByIndexTyped(i)) != want[i] {
					t.Failf("AsCurvePointSlice(%s).GetByIndexTyped(%d) is not element %d", name, i, i)
				}
			}
		} else {
			t.Failf("AsCurvePointSlice(%s) has no GetByIndexTyped", name)
		}
	}
	typed(cp.AsCurvePointSlice[V, P](v))
	ps := cp.AsCurvePointPtrSlice(ptrs)
	for i := range ptrs {
		if ps.GetByIndexTyped(i) != ptrs[i] {
			t.Failf("AsCurvePointPtrSlice(%s).GetByIndexTyped(%d) is not element %d", name, i, i)
		}
	}
	// the wrapper of a slice of pointers is a view of that slice, not of what it held at the time
	var other V
	for i := range ptrs {
		old := ptrs[i]
		ptrs[i] = &other
		for j := range ptrs {
			if ps.GetByIndexTyped(j) != ptrs[j] || ps.GetByIndex(j) != PI(ptrs[j]) {
				t.Failf("AsCurvePointPtrSlice(%s): entry %d is not that of the slice after changing entry %d", name, j, i)
			}
		}
		ptrs[i] = old
		t.Eval(1)
	}
	if n > 0 { // writes through the wrapper change the slice
		cp.AsCurvePointSlice[V, P](v).GetByIndex(n - 1).SetNeutral()
		if !P(&v[n-1]).IsNeutralElement() {
			t.Failf("AsCurvePointSlice(%s): writing through the wrapper has no effect", name)
		}
		for i := range all {
			if i != extra+n-1 && !P(&all[i]).IsNaP() {
				t.Failf("AsCurvePointSlice(%s): writing through the wrapper changed another element", name)
			}
		}
	}
}
