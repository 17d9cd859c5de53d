//go:build go1.22

package main

import (
	"fmt"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

func p03(r *vk.Run) {
	initGarbage()
	kl := 1
	if r.Thorough {
		kl = 2
	}
	ms := models(kset(kl))
	rs := repTable(ms, 2, nArgTypes)
	type job struct{ z, x int }
	var jobs []job
	for z := 0; z < nTypes; z++ {
		for x := 0; x < nArgTypes; x++ {
			jobs = append(jobs, job{z, x})
		}
	}
	r.Each(len(jobs), func(i int) string { return fmt.Sprintf("conv/%v from %v", typeNames[jobs[i].z], typeNames[jobs[i].x]) }, func(t *vk.T, i int) {
		j := jobs[i]
		// receivers: uninitialized, an unrelated point, the neutral element
		recv := []PI{fresh(j.z), garbage(j.z), fresh(j.z)}
		recv[2].SetNeutral()
		recvModel := []*mp{nil, &garbageModel, {vk.BI(0), tN}}
		for _, x := range rs[j.x] {
			t.State("conv", typeNames[j.z], x.String())
			for k := range recv {
				// SetFrom
				z := copyRaw(recv[k])
				xo, xi := x.get()
				what := func() string { return fmt.Sprintf("%v(receiver %d).SetFrom(%v)", typeNames[j.z], k, x) }
				did, val := vk.Panics(func() { z.SetFrom(xo) })
				judge(t, z, did, val, j.z, isSub(j.x), x.m, what)
				if did && !isSub(j.x) && !sameRaw(z, recv[k]) {
					t.Failf("%s: refused, but receiver changed", what())
				}
				if !did && !x.m.inf() {
					if s := showsExact(z, x.m); s != "" {
						t.Failf("%s: %s", what(), s)
					}
					independent(t, z, xi, x.m, what)
				}
				argOK(t, x, copyRaw(x.p), what)
				argOK(t, x, xi0(xi), what)
				// SetFromSubgroupPoint
				for _, tr := range []common.IsInputTrusted{common.TrustedInput, common.UntrustedInput} {
					if tr.Bool() && !x.m.sub() {
						continue // undefined
					}
					z := copyRaw(recv[k])
					xo, xi := x.get()
					var ok bool
					what := func() string {
						return fmt.Sprintf("%v(receiver %d).SetFromSubgroupPoint(%v, trusted=%v)", typeNames[j.z], k, x, tr.Bool())
					}
					did, val := vk.Panics(func() { ok = z.SetFromSubgroupPoint(xo, tr) })
					switch {
					case did:
						t.Failf("%s: panic %v", what(), val)
					case ok != x.m.sub():
						t.Failf("%s = %v", what(), ok)
					case ok:
						if s := shows(copyRaw(z), x.m); s != "" {
							t.Failf("%s: %s", what(), s)
						} else if s := showsExact(z, x.m); s != "" {
							t.Failf("%s: %s", what(), s)
						}
						independent(t, z, xi, x.m, what)
					case recvModel[k] == nil:
						if !z.IsNaP() {
							t.Failf("%s failed, but the uninitialized receiver changed", what())
						}
					default:
						if s := shows(z, *recvModel[k]); s != "" {
							t.Failf("%s failed, but the receiver changed: %s", what(), s)
						}
					}
					argOK(t, x, xi, what)
					t.Eval(1)
				}
				t.Eval(1)
			}
		}
	})
	// self-conversion
	r.Each(nTypes, func(i int) string { return "self/" + typeNames[i] }, func(t *vk.T, typ int) {
		for _, x := range rs[typ] {
			z := copyRaw(x.p)
			z.SetFrom(z)
			if s := shows(z, x.m); s != "" {
				t.Failf("%v.SetFrom(itself): %s", x, s)
			}
			z = copyRaw(x.p)
			if ok := z.SetFromSubgroupPoint(z, common.UntrustedInput); ok != x.m.sub() {
				t.Failf("%v.SetFromSubgroupPoint(itself) = %v", x, ok)
			}
			if s := shows(z, x.m); s != "" {
				t.Failf("%v.SetFromSubgroupPoint(itself): %s", x, s)
			}
			t.Eval(2)
		}
	})
	// the remaining operations of subgroup types refuse arguments of full types, even if the actual point is in the subgroup, and keep the receiver
	r.Each(nTypes*nArgTypes, func(i int) string { return fmt.Sprintf("refuse/%v/%v", typeNames[i/nArgTypes], typeNames[i%nArgTypes]) }, func(t *vk.T, i int) {
		z, x := i/nArgTypes, i%nArgTypes
		if !isSub(z) || isSub(x) {
			return
		}
		for _, xr := range rs[x] {
			for si, sr := range rs[z][:3] {
				for _, o := range []struct {
					name string
					f    func(z, x, s PI)
				}{
					{"Add(x,s)", func(z, x, s PI) { z.Add(x, s) }},
					{"Add(s,x)", func(z, x, s PI) { z.Add(s, x) }},
					{"Add(x,x)", func(z, x, s PI) { z.Add(x, x) }},
					{"Sub(x,s)", func(z, x, s PI) { z.Sub(x, s) }},
					{"Sub(s,x)", func(z, x, s PI) { z.Sub(s, x) }},
					{"AddEq(x)", func(z, x, s PI) { z.AddEq(x) }},
					{"SubEq(x)", func(z, x, s PI) { z.SubEq(x) }},
					{"Neg(x)", func(z, x, s PI) { z.Neg(x) }},
					{"Endo(x)", func(z, x, s PI) { z.Endo(x) }},
				} {
					zz := garbage(z)
					xo, xi := xr.get()
					so, sin := sr.get()
					what := func() string { return fmt.Sprintf("%v.%s with x=%v, s=%v", typeNames[z], o.name, xr, sr) }
					did, _ := vk.Panics(func() { o.f(zz, xo, so) })
					if !did {
						t.Failf("%s: was not refused", what())
					}
					if s := shows(zz, garbageModel); s != "" {
						t.Failf("%s: refused, but receiver changed: %s", what(), s)
					}
					argOK(t, xr, xi, what)
					argOK(t, sr, sin, what)
					t.Eval(1)
				}
				t.State("refuse", typeNames[z], xr.String(), fmt.Sprint(si))
			}
		}
	})
	// membership over a wider set of multiples, all torsion cosets
	n := 200
	if r.Thorough {
		n = 3000
	}
	r.Each(n, func(i int) string { return fmt.Sprintf("member/%d", i) }, func(t *vk.T, i int) {
		k := vk.BI(int64(i / 2))
		if i%2 == 1 {
			k = vk.Generic(uint64(5000+i), vk.R)
		}
		for tt := 0; tt < 4; tt++ {
			m := mk(k, tt)
			for typ := 0; typ < nArgTypes; typ++ {
				for _, x := range reps(typ, m, 1) {
					xo, _ := x.get()
					if got := xo.IsInSubgroup(); got != m.sub() {
						t.Failf("%v.IsInSubgroup() = %v", x, got)
					}
					t.Eval(1)
				}
			}
			t.State("member", m.key())
			t.Sample(m.String())
		}
	})
}

func xi0(p PI) PI { return p }

// independent checks that z shares no memory with x: changing z must not change x
func independent(t *vk.T, z, xi PI, m mp, what func() string) {
	z.NegEq()
	z.DoubleEq()
	if s := shows(copyRaw(xi), m); s != "" {
		t.Failf("%s: changing the copy changed the source: %s", what(), s)
	}
}
