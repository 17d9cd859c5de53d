//go:build go1.22

// Harness for package exponents (X01, X02).
package main

import (
	"fmt"
	"math"
	"math/big"
	"reflect"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/exponents"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

type Exp = exponents.Exponent

func mk(x *big.Int) (e Exp) { e.SetBigInt(x); return }

func bounds(quick bool) []*big.Int {
	var c []*big.Int
	k := int64(3)
	if !quick {
		k = 6
	}
	half := new(big.Int).Rsh(vk.R, 1)
	c = append(c, vk.Around(k, vk.BI(0), half, vk.R, vk.Add(vk.R, half), vk.TwoR)...)
	for i := uint(1); i < 254; i++ {
		if !quick || i%8 == 0 || i >= 250 || i < 4 || i%64 == 63 || i%64 == 1 {
			c = append(c, vk.Around(1, vk.Pow2(i))...)
		}
	}
	for _, l := range vk.Limbs(4, 0, 1, math.MaxUint64) {
		c = append(c, l, vk.Mod(l, vk.TwoR), vk.Sub(vk.R, l), vk.Add(vk.R, l), vk.Sub(vk.TwoR, l))
	}
	for i := uint64(0); i < 24; i++ {
		c = append(c, vk.Generic(i, vk.TwoR))
	}
	return vk.Uniq(c, vk.BI(0), vk.TwoR)
}

type binop struct {
	name string
	impl func(z, x, y *Exp)
	ref  func(x, y *big.Int) *big.Int
}
type unop struct {
	name string
	impl func(z, x *Exp)
	ref  func(x *big.Int) *big.Int
}

var binops = []binop{
	{"Add", func(z, x, y *Exp) { z.Add(x, y) }, func(x, y *big.Int) *big.Int { return vk.Add(x, y) }},
	{"Sub", func(z, x, y *Exp) { z.Sub(x, y) }, func(x, y *big.Int) *big.Int { return vk.Sub(x, y) }},
	{"Mul", func(z, x, y *Exp) { z.Mul(x, y) }, func(x, y *big.Int) *big.Int { return vk.Mul(x, y) }},
}
var unops = []unop{
	{"Neg", func(z, x *Exp) { z.Neg(x) }, func(x *big.Int) *big.Int { return new(big.Int).Neg(x) }},
	{"Double", func(z, x *Exp) { z.Add(x, x) }, func(x *big.Int) *big.Int { return vk.Add(x, x) }},
	{"SetZero", func(z, x *Exp) { z.SetZero() }, func(x *big.Int) *big.Int { return vk.BI(0) }},
	{"SetOne", func(z, x *Exp) { z.SetOne() }, func(x *big.Int) *big.Int { return vk.BI(1) }},
	{"ModuloP253", func(z, x *Exp) { *z = x.ModuloP253() }, func(x *big.Int) *big.Int { return vk.Mod(x, vk.R) }},
}

func observe(t *vk.T, what string, e *Exp, want *big.Int) {
	before := *e
	if got := e.ToBigInt_Full(); got.Cmp(want) != 0 {
		t.Failf("%s: value is %v, should be %v", what, got, want)
	}
	if *e != mk(want) {
		t.Failf("%s: internal representation of %v is not canonical", what, want)
	}
	wm := vk.Mod(want, vk.R)
	if got := e.ToBigInt_Subgroup(); got.Cmp(wm) != 0 {
		t.Failf("%s: value modulo the subgroup order is %v, should be %v", what, got, wm)
	}
	if e.IsZero_Full() != (want.Sign() == 0) || e.IsZero_Subgroup() != (wm.Sign() == 0) || e.IsOne_Full() != (want.Cmp(vk.BI(1)) == 0) || e.IsOne_Subgroup() != (wm.Cmp(vk.BI(1)) == 0) {
		t.Failf("%s: zero/one predicates wrong for %v", what, want)
	}
	if e.String() != want.String() || fmt.Sprintf("%x|%d|%#x|%v|%80d", e, e, *e, *e, e) != fmt.Sprintf("%x|%d|%#x|%v|%80d", want, want, want, want, want) {
		t.Failf("%s: formatting wrong for %v: %s", what, want, e.String())
	}
	if *e != before {
		t.Failf("%s: observing %v modified it", what, want)
	}
}

func x01(r *vk.Run) {
	V := bounds(!r.Thorough)
	r.Extra("value_set_size", len(V))
	// 1. all pairs, all operations, all aliasings
	r.Each(len(V), func(i int) string { return fmt.Sprintf("pairs x=%v", V[i]) }, func(t *vk.T, i int) {
		x := V[i]
		for _, u := range unops {
			want := vk.Mod(u.ref(x), vk.TwoR)
			for _, init := range []*big.Int{vk.BI(0), vk.BI(7), vk.Sub(vk.TwoR, vk.BI(1))} {
				z, a := mk(init), mk(x)
				u.impl(&z, &a)
				observe(t, u.name+"(z,x)", &z, want)
				if a != mk(x) {
					t.Failf("%s modified its argument %v", u.name, x)
				}
				t.Trans(1)
			}
			z := mk(x)
			u.impl(&z, &z)
			observe(t, u.name+"(x,x)", &z, want)
			t.Trans(1)
		}
		for _, y := range V {
			for _, op := range binops {
				want := vk.Mod(op.ref(x, y), vk.TwoR)
				w := mk(want)
				z, a, b := mk(vk.BI(5)), mk(x), mk(y)
				op.impl(&z, &a, &b)
				if z != w {
					t.Failf("%s(%v,%v) = %v, should be %v", op.name, x, y, z.ToBigInt_Full(), want)
				}
				if a != mk(x) || b != mk(y) {
					t.Failf("%s modified an argument for %v, %v", op.name, x, y)
				}
				z = mk(x)
				op.impl(&z, &z, &b)
				if z != w {
					t.Failf("%s(z=x; %v,%v) = %v, should be %v", op.name, x, y, z.ToBigInt_Full(), want)
				}
				z = mk(y)
				op.impl(&z, &a, &z)
				if z != w {
					t.Failf("%s(z=y; %v,%v) = %v, should be %v", op.name, x, y, z.ToBigInt_Full(), want)
				}
				if b != mk(y) || a != mk(x) {
					t.Failf("%s modified an argument for %v, %v", op.name, x, y)
				}
				t.Trans(3)
			}
			t.State("pair", x.String(), y.String())
			t.Trace(1)
		}
		z := mk(x)
		for _, op := range binops {
			z = mk(x)
			op.impl(&z, &z, &z)
			observe(t, op.name+"(x,x,x)", &z, vk.Mod(op.ref(x, x), vk.TwoR))
			t.Trans(1)
		}
		observe(t, "SetBigInt", &z, z.ToBigInt_Full())
	})
	// 2. conversions from integers of any sign and size
	var I []*big.Int
	for k := int64(-3); k <= 5; k++ {
		I = append(I, vk.Around(2, vk.Mul(vk.R, vk.BI(k)))...)
	}
	for i := uint(0); i < 600; i += 1 {
		I = append(I, vk.Around(1, vk.Pow2(i))...)
		I = append(I, vk.Around(1, new(big.Int).Neg(vk.Pow2(i)))...)
	}
	for _, k := range []uint{639, 640, 703, 704, 767, 768, 769, 895, 896, 1000, 1023, 1024, 1025, 1536, 2047, 2048, 2049, 3000, 4096, 8192, 16384, 65536} { // long numbers
		for _, x := range append(vk.Around(2, vk.Pow2(k)), vk.Mul(vk.R, vk.Pow2(k)), vk.Add(vk.Mul(vk.TwoR, vk.Pow2(k)), vk.BI(1)), vk.Sub(vk.Mul(vk.R, vk.Pow2(k)), vk.BI(1)),
			vk.Generic(uint64(k), vk.Pow2(k)), new(big.Int).Exp(vk.R, vk.BI(int64(k/252)), nil)) {
			I = append(I, x, new(big.Int).Neg(x))
		}
	}
	r.Each(len(I), func(i int) string { return fmt.Sprintf("convert %v", I[i]) }, func(t *vk.T, i int) {
		x := I[i]
		cp := new(big.Int).Set(x)
		want := vk.Mod(x, vk.TwoR)
		e := mk(vk.BI(9))
		e.SetBigInt(x)
		if x.Cmp(cp) != 0 {
			t.Failf("SetBigInt modified its argument")
		}
		observe(t, "SetBigInt", &e, want)
		e.ToBigInt_Full().SetInt64(77) // results are fresh
		e.ToBigInt_Subgroup().SetInt64(77)
		observe(t, "SetBigInt after modifying results", &e, want)
		if x.IsUint64() {
			e = mk(vk.Sub(vk.TwoR, vk.BI(1)))
			e.SetUInt(x.Uint64())
			observe(t, "SetUInt", &e, want)
			t.Trans(1)
		}
		if x.IsInt64() {
			e = mk(vk.Sub(vk.TwoR, vk.BI(1)))
			e.SetInt(x.Int64())
			observe(t, "SetInt", &e, want)
			t.Trans(1)
		}
		t.State("conv", x.String())
		t.Trans(1)
		t.Trace(1)
	})
	r.Case("SetInt extremes", func(t *vk.T) {
		for _, v := range []int64{math.MinInt64, math.MinInt64 + 1, -1, 0, 1, math.MaxInt64} {
			e := mk(vk.BI(3))
			e.SetInt(v)
			observe(t, "SetInt", &e, vk.Mod(big.NewInt(v), vk.TwoR))
		}
		for k, v := range map[string]*big.Int{exponents.CurveExponent_Int.String(): vk.TwoR, exponents.GroupOrder_Int.String(): vk.R, exponents.CurveOrder_Int.String(): vk.Mul(vk.R, vk.BI(4)), exponents.EndomorphismEigenvalue_Int.String(): vk.Lambda} {
			if k != v.String() {
				t.Failf("constant is %v, should be %v", k, v)
			}
		}
	})
	// 3. all operation sequences up to a depth on a two-register machine, breadth first with deduplication
	type st struct{ a, b Exp }
	depth := 4
	if r.Thorough {
		depth = 5
	}
	seeds := []*big.Int{vk.BI(0), vk.BI(1), vk.BI(2), vk.R, vk.Sub(vk.R, vk.BI(1)), vk.Sub(vk.TwoR, vk.BI(1)), vk.Pow2(64), vk.Pow2(253), vk.Lambda}
	n := len(seeds) * len(seeds)
	r.Each(n, func(i int) string {
		return fmt.Sprintf("sequences from a=%v b=%v", seeds[i/len(seeds)], seeds[i%len(seeds)])
	}, func(t *vk.T, i int) {
		start := st{mk(seeds[i/len(seeds)]), mk(seeds[i%len(seeds)])}
		seen := map[st]bool{start: true}
		front := []st{start}
		for d := 0; d < depth && len(front) > 0 && !t.Failed(); d++ {
			var next []st
			for _, s := range front {
				ai, bi := s.a.ToBigInt_Full(), s.b.ToBigInt_Full()
				step := func(name string, f func(s *st), wa, wb *big.Int) {
					q := s
					f(&q)
					wa, wb = vk.Mod(wa, vk.TwoR), vk.Mod(wb, vk.TwoR)
					t.Trans(1)
					if q.a.ToBigInt_Full().Cmp(wa) != 0 || q.b.ToBigInt_Full().Cmp(wb) != 0 {
						t.Fatalf("from (%v,%v) %s gives (%v,%v), should be (%v,%v)", ai, bi, name, q.a.ToBigInt_Full(), q.b.ToBigInt_Full(), wa, wb)
					}
					if !seen[q] {
						seen[q] = true
						next = append(next, q)
						t.State("reg", wa.String(), wb.String())
					}
				}
				step("a+=b", func(s *st) { s.a.Add(&s.a, &s.b) }, vk.Add(ai, bi), bi)
				step("b=a-b", func(s *st) { s.b.Sub(&s.a, &s.b) }, ai, vk.Sub(ai, bi))
				step("a*=b", func(s *st) { s.a.Mul(&s.a, &s.b) }, vk.Mul(ai, bi), bi)
				step("b=-a", func(s *st) { s.b.Neg(&s.a) }, ai, new(big.Int).Neg(ai))
				step("a=-a", func(s *st) { s.a.Neg(&s.a) }, new(big.Int).Neg(ai), bi)
				step("b+=b", func(s *st) { s.b.Add(&s.b, &s.b) }, ai, vk.Add(bi, bi))
				step("a=1", func(s *st) { s.a.SetOne() }, vk.BI(1), bi)
				step("a%=r", func(s *st) { s.a = s.a.ModuloP253() }, vk.Mod(ai, vk.R), bi)
			}
			front = next
		}
		t.Trace(len(seen))
	})
	r.Sample(fmt.Sprintf("pair x=%v y=%v: Add Sub Mul, aliased z=x, z=y", V[1], V[len(V)-1]))
	r.Sample(fmt.Sprintf("pair x=%v y=%v", V[len(V)/2], V[len(V)/3]))
}

func x02(r *vk.Run) {
	// GLV
	V := bounds(false)
	for i := uint(0); i < 255; i++ {
		V = append(V, vk.Around(2, vk.Pow2(i))...)
	}
	for i := int64(0); i < 4096; i++ {
		V = append(V, vk.BI(i), vk.Sub(vk.TwoR, vk.BI(i)), vk.Add(vk.R, vk.BI(i)))
	}
	// values at the rounding boundaries of the lattice reduction: t*b mod r next to (r-1)/2, for b in {11 entry, 12 entry}
	b1, b2 := vk.Hex("113482231691339203864511368254957623327"), vk.Hex("10741319382058138887739339959866629956")
	half := new(big.Int).Rsh(vk.R, 1)
	for _, b := range []*big.Int{b1, b2} {
		inv := new(big.Int).ModInverse(b, vk.R)
		for d := int64(-20); d <= 20; d++ {
			for _, c := range []*big.Int{half, vk.BI(0), new(big.Int).Rsh(half, 1)} {
				x := vk.Mod(vk.Mul(vk.Add(c, vk.BI(d)), inv), vk.R)
				V = append(V, x, vk.Add(x, vk.R))
			}
		}
	}
	// lattice combinations: t = u + v*lambda for boundary u, v
	max := vk.Hex("62111775536698671376125354107412126641")
	var W []*big.Int
	W = append(W, vk.Around(2, vk.BI(0), max, new(big.Int).Neg(max), vk.Pow2(125), vk.Pow2(64), b1, b2, new(big.Int).Rsh(b1, 1), new(big.Int).Rsh(b2, 1))...)
	for _, u := range W {
		for _, v := range W {
			V = append(V, vk.Mod(vk.Add(u, vk.Mul(v, vk.Lambda)), vk.TwoR))
		}
	}
	// corners of the fundamental cells: t = u + v*lambda for (u, v) next to (i*L1 + j*L2)/4
	for i := int64(-4); i <= 4; i++ {
		for j := int64(-4); j <= 4; j++ {
			u := vk.Sub(vk.Mul(vk.BI(i), b1), vk.Mul(vk.BI(2*j), b2))
			v := vk.Add(vk.Mul(vk.BI(i), b2), vk.Mul(vk.BI(j), b1))
			u.Rsh(u, 2)
			v.Rsh(v, 2)
			for du := int64(-2); du <= 2; du++ {
				for dv := int64(-2); dv <= 2; dv++ {
					V = append(V, vk.Mod(vk.Add(vk.Add(u, vk.BI(du)), vk.Mul(vk.Add(v, vk.BI(dv)), vk.Lambda)), vk.R))
				}
			}
		}
	}
	n := 3000
	if r.Thorough {
		n = 300000
	}
	for i := 0; i < n; i++ {
		V = append(V, vk.Generic(uint64(i)+1000, vk.TwoR))
	}
	V = vk.Uniq(V, vk.BI(0), vk.TwoR)
	r.Each(len(V), func(i int) string { return fmt.Sprintf("glv %v", V[i]) }, func(t *vk.T, i int) {
		e := mk(V[i])
		ret := exponents.GLV_representation(&e)
		if e != mk(V[i]) {
			t.Failf("GLV modified its argument")
		}
		u, v := ret.U.ToBigInt(), ret.V.ToBigInt()
		if vk.Mod(vk.Sub(vk.Add(u, vk.Mul(v, vk.Lambda)), V[i]), vk.R).Sign() != 0 {
			t.Failf("GLV(%v) = (%v, %v): u + v*lambda is not congruent to the exponent", V[i], u, v)
		}
		if u.BitLen() > 126 || v.BitLen() > 126 {
			t.Failf("GLV(%v) = (%v, %v): more than 126 bits", V[i], u, v)
		}
		if u.CmpAbs(max) > 0 || v.CmpAbs(max) > 0 {
			t.Failf("GLV(%v) = (%v, %v): larger than the documented maximum", V[i], u, v)
		}
		if ret.U.IsNegative() != (u.Sign() < 0) || ret.V.IsNegative() != (v.Sign() < 0) {
			t.Failf("GLV(%v): IsNegative wrong", V[i])
		}
		c := ret
		c.U.SetBigInt(v)
		c.V.SetBigInt(u)
		if c.U.ToBigInt().Cmp(v) != 0 || c.V.ToBigInt().Cmp(u) != 0 || ret.U.ToBigInt().Cmp(u) != 0 {
			t.Failf("GLV(%v): SetBigInt wrong", V[i])
		}
		if ret.U.Sign() != u.Sign() || ret.V.Sign() != v.Sign() {
			t.Failf("GLV(%v): signs wrong", V[i])
		}
		for k := uint(0); k < 128; k++ {
			if ret.U.Bit(k) != new(big.Int).Abs(u).Bit(int(k)) || ret.V.Bit(k) != new(big.Int).Abs(v).Bit(int(k)) {
				t.Failf("GLV(%v): Bit(%d) wrong", V[i], k)
			}
		}
		t.Eval(1)
		t.State("glv", u.String(), v.String())
	})
	r.Sample("glv " + V[len(V)/2].String())
	// signed decompositions
	var D []*big.Int
	lim := int64(1 << 12)
	if r.Thorough {
		lim = 1 << 16
	}
	for i := int64(0); i < lim; i++ {
		D = append(D, vk.BI(i), new(big.Int).Lsh(vk.BI(i), 58), vk.Sub(vk.Pow2(128), vk.BI(i+1)), new(big.Int).Lsh(vk.BI(i), 114))
	}
	for i := uint(0); i <= 128; i++ {
		D = append(D, vk.Around(2, vk.Pow2(i))...)
		for j := uint(0); j < i; j += 1 {
			D = append(D, vk.Sub(vk.Pow2(i), vk.Pow2(j)), vk.Add(vk.Pow2(i), vk.Pow2(j)))
		}
	}
	for i := uint64(0); i < 500; i++ {
		D = append(D, vk.Generic(i, vk.Pow2(126)), vk.Generic(i, vk.Pow2(128)))
	}
	D = vk.Uniq(D, vk.BI(0), vk.Pow2(128))
	if decompose != nil {
		r.Each(len(D), func(i int) string { return fmt.Sprintf("signed-adic %v", D[i]) }, func(t *vk.T, i int) {
			for sgn := 1; sgn >= -1; sgn -= 2 {
				x := new(big.Int).Set(D[i])
				if sgn < 0 {
					x.Neg(x)
				}
				for mb := uint(1); mb <= 10; mb++ {
					pos, co, sg := decompose(x, mb)
					s := vk.BI(0)
					for k := range pos {
						if co[k]%2 == 0 || co[k] >= 1<<mb {
							t.Failf("decomposition(%v, %d): coefficient %d is even or too large", x, mb, co[k])
						}
						if sg[k] != 1 && sg[k] != -1 {
							t.Failf("decomposition(%v, %d): sign %d", x, mb, sg[k])
						}
						if k > 0 && pos[k] < pos[k-1]+mb+1 {
							t.Failf("decomposition(%v, %d): positions %v overlap or are not ascending", x, mb, pos)
						}
						s.Add(s, new(big.Int).Lsh(vk.BI(int64(sg[k])*int64(co[k])), pos[k]))
					}
					if s.Cmp(x) != 0 {
						t.Failf("decomposition(%v, %d) sums up to %v", x, mb, s)
					}
					t.Eval(1)
				}
				t.State("adic", x.String())
			}
		})
	}
	// sliding windows on 256-bit integers
	for _, d := range D[:len(D):len(D)] {
		D = append(D, new(big.Int).Lsh(d, 64), new(big.Int).Lsh(d, 128), vk.Add(vk.Sub(vk.Pow2(256), vk.Pow2(128)), d))
	}
	D = append(D, V[:2000]...)
	D = vk.Uniq(D, vk.BI(0), vk.Two256)
	r.Each(len(D), func(i int) string { return fmt.Sprintf("sliding-window %v", D[i]) }, func(t *vk.T, i int) {
		x := fieldElements.Uint256(vk.ToLimbs4(D[i]))
		cp := x
		for w := uint8(1); w <= 8; w++ {
			dec := reflect.ValueOf(x.SlidingWindowDecomposition(w))
			if x != cp {
				t.Failf("SlidingWindowDecomposition modified its receiver")
			}
			s := vk.BI(0)
			last := int64(1 << 40)
			for k := 0; k < dec.Len(); k++ {
				en := dec.Index(k)
				exp, pos := en.FieldByName("exp").Uint(), int64(en.FieldByName("pos").Uint())
				if exp%2 == 0 || exp >= 1<<w {
					t.Failf("window(%v,%d): digit %d is even or too large", D[i], w, exp)
				}
				bl := int64(new(big.Int).SetUint64(exp).BitLen())
				if pos+bl > last {
					t.Failf("window(%v,%d): positions overlap or are not descending", D[i], w)
				}
				last = pos
				s.Add(s, new(big.Int).Lsh(new(big.Int).SetUint64(exp), uint(pos)))
			}
			if s.Cmp(D[i]) != 0 {
				t.Failf("window(%v,%d) sums up to %v", D[i], w, s)
			}
			t.Eval(1)
		}
		t.State("win", D[i].String())
	})
	r.Extra("signed_adic_checked", decompose != nil)
}

func main() {
	vk.Main(
		vk.Property{ID: "X01", Level: "model_checking", Run: x01,
			Rule:        "states: distinct operand pairs over the boundary value set plus register pairs reached by breadth-first search from seed pairs; transitions: one exponent operation executed on the implementation and on big integers modulo twice the prime order, with every receiver/argument aliasing; traces: operand pairs/conversions/reached register states whose results were compared",
			Assumptions: []string{"math/big is correct", "operands outside the boundary/generic value set are not executed"}},
		vk.Property{ID: "X02", Level: "exploration", Run: x02,
			Rule:        "every scalar of the bounded set (all scalars of 12 bits at several offsets, all 2^i+-2^j, rounding boundaries of the lattice reduction, boundary and fixed generic scalars) times every window size; distinct = distinct scalars (GLV: distinct results)",
			Assumptions: []string{"math/big is correct"}},
	)
}
