//go:build go1.22

package main

import (
	"fmt"
	"math/big"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

func p05(r *vk.Run) {
	initGarbage()
	ks := kset(2)
	if r.Thorough {
		for i := int64(0); i < 300; i++ {
			ks = append(ks, vk.BI(4+i), vk.Generic(uint64(7000+i), vk.R))
		}
	}
	ms := models(ks)
	O := mk(vk.BI(0), tN)
	r.Each(len(ms), func(i int) string { return "endo/" + ms[i].String() }, func(t *vk.T, i int) {
		m := ms[i]
		want := m.endo()
		t.Sample(m.String())
		for x := 0; x < nArgTypes; x++ {
			for _, xr := range reps(x, m, 2) {
				t.State(xr.String())
				for z := 0; z < nTypes; z++ {
					xo, xi := xr.get()
					zz := garbage(z)
					what := func() string { return fmt.Sprintf("%v.Endo(%v)", typeNames[z], xr) }
					did, val := vk.Panics(func() { zz.Endo(xo) })
					judge(t, zz, did, val, z, isSub(x), want, what)
					argOK(t, xr, xi, what)
					t.Eval(1)
				}
				if x < nTypes {
					zz := copyRaw(xr.p)
					did, val := vk.Panics(func() { zz.EndoEq() })
					judge(t, zz, did, val, x, true, want, func() string { return fmt.Sprintf("%v.EndoEq()", xr) })
					zz = copyRaw(xr.p)
					did, val = vk.Panics(func() { zz.Endo(zz) })
					judge(t, zz, did, val, x, true, want, func() string { return fmt.Sprintf("%v.Endo(itself)", xr) })
					// square is -2
					did, val = vk.Panics(func() { zz.EndoEq() })
					judge(t, zz, did, val, x, true, m.dbl().neg(), func() string { return fmt.Sprintf("EndoEq twice on %v", xr) })
					// kernel
					zz = copyRaw(xr.p)
					zz.EndoEq()
					if got, exp := zz.IsNeutralElement(), m.k.Sign() == 0 && m.t <= tA; got != exp {
						t.Failf("%v is in the kernel: %v", xr, got)
					}
					t.Eval(4)
				}
			}
		}
	})
	// additivity by operations of the implementation, across types
	base := models(kset(1))
	r.Each(len(base)*len(base), func(i int) string { return fmt.Sprintf("additive/%v/%v", base[i/len(base)], base[i%len(base)]) }, func(t *vk.T, i int) {
		a, b := base[i/len(base)], base[i%len(base)]
		for ta := 0; ta < nArgTypes; ta++ {
			for tb := 0; tb < nArgTypes; tb++ {
				for z := 0; z < nTypes; z++ {
					if isSub(z) && (!isSub(ta) || !isSub(tb)) || isSub(ta) && !a.sub() || isSub(tb) && !b.sub() || a.inf() && !hasInf(ta) || b.inf() && !hasInf(tb) || a.add(b).inf() && !hasInf(z) {
						continue
					}
					ra, rb := reps(ta, a, 0), reps(tb, b, 0)
					ao, _ := ra[len(ra)-1].get()
					bo, _ := rb[len(rb)-1].get()
					s := garbage(z)
					s.Add(ao, bo)
					s.EndoEq()
					ea, eb := garbage(z), garbage(z)
					ea.Endo(ao)
					eb.Endo(bo)
					ea.AddEq(eb)
					if e := shows(s, a.add(b).endo()); e != "" {
						t.Failf("%v: E(%v+%v): %s", typeNames[z], ra[len(ra)-1], rb[len(rb)-1], e)
					}
					if e := shows(ea, a.add(b).endo()); e != "" {
						t.Failf("%v: E(%v)+E(%v): %s", typeNames[z], ra[len(ra)-1], rb[len(rb)-1], e)
					}
					t.Eval(1)
				}
			}
		}
	})
	r.Case("constants", func(t *vk.T) {
		l := common.EndomorphismEigenvalue_Int
		if l.Cmp(vk.Lambda) != 0 {
			t.Failf("published eigenvalue is %v", l)
		}
		if cp.EndomorphismEigenvalue_Int.Cmp(vk.Lambda) != 0 {
			t.Failf("published eigenvalue is %v", cp.EndomorphismEigenvalue_Int)
		}
		if vk.Mod(vk.Add(vk.Mul(l, l), vk.BI(2)), vk.R).Sign() != 0 {
			t.Failf("eigenvalue^2 != -2")
		}
		if cp.GroupOrder_Int.Cmp(vk.R) != 0 || common.GroupOrder_Int.Cmp(vk.R) != 0 {
			t.Failf("published group order")
		}
		// the endomorphism of the published generator is eigenvalue*generator, by the implementation's own arithmetic
		acc := new(cp.Point_efgh_subgroup)
		acc.SetNeutral()
		for i := l.BitLen() - 1; i >= 0; i-- {
			acc.DoubleEq()
			if l.Bit(i) == 1 {
				acc.AddEq(&cp.SubgroupGenerator_xtw_subgroup)
			}
		}
		var e cp.Point_axtw_subgroup
		e.Endo(&cp.SubgroupGenerator_xtw_subgroup)
		if !e.IsEqual(acc) {
			t.Failf("E(G) != eigenvalue*G")
		}
		if s := shows(&e, O.add(mk(new(big.Int).Set(l), tN))); s != "" {
			t.Failf("E(G): %s", s)
		}
		t.Eval(2)
	})
}
