//go:build go1.22

package main

import (
	"fmt"
	"math"
	"math/big"

	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

type F = fe.FieldElement

// st is a state of a field element: a value and which of its (at most two) internal representations it is in.
type st struct {
	v   *big.Int // value in [0,p)
	alt bool     // second internal representation
	f   F
	inv *big.Int
}

func (s *st) String() string {
	if s.alt {
		return fmt.Sprintf("%#x(alt)", s.v)
	}
	return fmt.Sprintf("%#x", s.v)
}

func mkF(v *big.Int, alt bool) (f F) {
	f.SetBigInt(v)
	if alt {
		f.RerandomizeRepresentation(1)
	} else {
		f.RerandomizeRepresentation(0)
	}
	return
}

func raw(f *F) (b [32]byte) { f.ToBytes(b[:]); return }

var halfP = new(big.Int).Rsh(vk.P, 1)

func mkState(v *big.Int, alt bool) *st {
	s := &st{v: v, alt: alt, f: mkF(v, alt)}
	s.inv = new(big.Int).ModInverse(v, vk.P)
	return s
}

// states returns all (value, representation) states for boundary values (as seen by the user) and boundary internal words.
func states(level int) (out []*st) {
	var vals []*big.Int
	vals = append(vals, vk.Around(3, vk.BI(0), halfP, vk.P, vk.Pow2(63), vk.Pow2(64), vk.Pow2(128), vk.Pow2(192), vk.Pow2(254), cBound)...)
	// internal words near the limits: words w represent w/2^256
	var ws []*big.Int
	k := int64(1)
	if level > 0 {
		k = 3
	}
	ws = append(ws, vk.Around(k, vk.BI(0), vk.P, vk.Sub(cBound, vk.P), cBound, halfP, vk.Pow2(64), vk.Pow2(128), vk.Pow2(192), vk.Sub(cBound, halfP))...)
	ws = append(ws, vk.Limbs(4, 0, math.MaxUint64)...)
	for _, c := range []*big.Int{vk.P, cBound, vk.Sub(cBound, vk.P)} {
		for _, sh := range []uint{64, 128, 192} {
			lo := new(big.Int).Lsh(new(big.Int).Rsh(c, sh), sh)
			ws = append(ws, lo, vk.Sub(lo, vk.BI(1)), vk.Sub(vk.Add(lo, vk.Pow2(sh)), vk.BI(1)), vk.Sub(c, vk.Pow2(sh)))
		}
	}
	// top limb t+1, t, t-1 of p with zero low limbs (IsEqual looks at the top limb only)
	top := new(big.Int).Lsh(new(big.Int).Rsh(vk.P, 192), 192)
	for _, d := range []int64{-1, 0, 1} {
		ws = append(ws, vk.Add(top, vk.Mul(vk.BI(d), vk.Pow2(192))))
	}
	if level > 0 {
		ws = append(ws, vk.Limbs(4, 0, 1, math.MaxUint64)...)
	}
	if level > 1 {
		ws = append(ws, vk.Limbs(4, 0, 1, 1<<61, 1<<62, math.MaxUint64)...)
	}
	for _, w := range vk.Uniq(ws, vk.BI(0), cBound) {
		vals = append(vals, vk.Mod(vk.Mul(w, rInv), vk.P))
	}
	for i := uint64(0); i < uint64(6+30*level); i++ {
		vals = append(vals, vk.Generic(i+77, vk.P))
	}
	// small reciprocals and roots of unity
	for _, x := range []int64{2, 3, 5, 7} {
		vals = append(vals, new(big.Int).ModInverse(vk.BI(x), vk.P))
	}
	var red []*big.Int
	for _, v := range vals {
		red = append(red, vk.Mod(v, vk.P))
	}
	seen := map[[32]byte]bool{}
	for _, v := range vk.Uniq(red, vk.BI(0), vk.P) {
		for _, alt := range []bool{false, true} {
			s := mkState(v, alt)
			if b := raw(&s.f); !seen[b] {
				seen[b] = true
				out = append(out, s)
			}
		}
	}
	return
}

// canonEq tells whether f has value v and stays consistent under follow-up operations (a violated range invariant shows there).
func canonEq(f *F, v *big.Int) bool {
	c := *f
	var u U
	c.ToUint256(&u)
	if toI(&u).Cmp(v) != 0 {
		return false
	}
	ref := mkF(v, false)
	c = *f
	c.RerandomizeRepresentation(0)
	if raw(&c) != raw(&ref) {
		return false
	}
	return true
}

func follow(f *F, v *big.Int) string {
	if !canonEq(f, v) {
		return fmt.Sprintf("has value %v, expected %#x", f.ToBigInt(), v)
	}
	// follow-up operations that exploit the full admissible range
	c, z := *f, F{}
	z.Add(&c, &c)
	if !canonEq(&z, vk.Mod(vk.Add(v, v), vk.P)) {
		return fmt.Sprintf("is right (%#x), but adding it to itself is wrong", v)
	}
	z = mkF(vk.BI(0), true)
	z.SubEq(&c)
	if !canonEq(&z, vk.Mod(new(big.Int).Neg(v), vk.P)) {
		return fmt.Sprintf("is right (%#x), but subtracting it from 0 is wrong", v)
	}
	z.Mul(&c, &c)
	if !canonEq(&z, vk.Mod(vk.Mul(v, v), vk.P)) {
		return fmt.Sprintf("is right (%#x), but squaring it is wrong", v)
	}
	for _, alt := range []bool{false, true} {
		r := mkF(v, alt)
		a, b := c, r
		if !a.IsEqual(&b) {
			return fmt.Sprintf("is right (%#x), but IsEqual denies it (alt=%v)", v, alt)
		}
		a, b = c, r
		if !b.IsEqual(&a) {
			return fmt.Sprintf("is right (%#x), but IsEqual from the other side denies it (alt=%v)", v, alt)
		}
	}
	return ""
}

type fop2 struct {
	name string
	f    func(z, x, y *F)
	ref  func(x, y *st) *big.Int // nil result: not applicable
}

func modp(x *big.Int) *big.Int { return vk.Mod(x, vk.P) }

var fops2 = []fop2{
	{"Add", func(z, x, y *F) { z.Add(x, y) }, func(x, y *st) *big.Int { return vk.Add(x.v, y.v) }},
	{"Sub", func(z, x, y *F) { z.Sub(x, y) }, func(x, y *st) *big.Int { return vk.Sub(x.v, y.v) }},
	{"Mul", func(z, x, y *F) { z.Mul(x, y) }, func(x, y *st) *big.Int { return vk.Mul(x.v, y.v) }},
}

var fopDivide = fop2{"Divide", func(z, x, y *F) { z.Divide(x, y) }, func(x, y *st) *big.Int {
	if y.inv == nil {
		return nil
	}
	return vk.Mul(x.v, y.inv)
}}

type fop2eq struct {
	name string
	f    func(z, y *F)
	base *fop2
}

var fops2eq = []fop2eq{
	{"AddEq", func(z, y *F) { z.AddEq(y) }, &fops2[0]},
	{"SubEq", func(z, y *F) { z.SubEq(y) }, &fops2[1]},
	{"MulEq", func(z, y *F) { z.MulEq(y) }, &fops2[2]},
}
var fopDivideEq = fop2eq{"DivideEq", func(z, y *F) { z.DivideEq(y) }, &fopDivide}

type fop1 struct {
	name string
	f    func(z, x *F) // in-place variants ignore x (z is x)
	ref  func(x *st) *big.Int
	eq   bool
}

var fops1 = []fop1{
	{"Neg", func(z, x *F) { z.Neg(x) }, func(x *st) *big.Int { return new(big.Int).Neg(x.v) }, false},
	{"NegEq", func(z, x *F) { z.NegEq() }, func(x *st) *big.Int { return new(big.Int).Neg(x.v) }, true},
	{"Double", func(z, x *F) { z.Double(x) }, func(x *st) *big.Int { return vk.Add(x.v, x.v) }, false},
	{"DoubleEq", func(z, x *F) { z.DoubleEq() }, func(x *st) *big.Int { return vk.Add(x.v, x.v) }, true},
	{"Square", func(z, x *F) { z.Square(x) }, func(x *st) *big.Int { return vk.Mul(x.v, x.v) }, false},
	{"SquareEq", func(z, x *F) { z.SquareEq() }, func(x *st) *big.Int { return vk.Mul(x.v, x.v) }, true},
	{"MulFive", func(z, x *F) { z.MulFive(x) }, func(x *st) *big.Int { return vk.Mul(x.v, vk.BI(5)) }, false},
	{"MulEqFive", func(z, x *F) { z.MulEqFive() }, func(x *st) *big.Int { return vk.Mul(x.v, vk.BI(5)) }, true},
	{"Normalize", func(z, x *F) { z.Normalize() }, func(x *st) *big.Int { return x.v }, true},
	{"RerandomizeRepresentation(0)", func(z, x *F) { z.RerandomizeRepresentation(0) }, func(x *st) *big.Int { return x.v }, true},
	{"RerandomizeRepresentation(1)", func(z, x *F) { z.RerandomizeRepresentation(1) }, func(x *st) *big.Int { return x.v }, true},
	{"RerandomizeRepresentation(all ones)", func(z, x *F) { z.RerandomizeRepresentation(math.MaxUint64) }, func(x *st) *big.Int { return x.v }, true},
}

var fopInv = fop1{"Inv", func(z, x *F) { z.Inv(x) }, func(x *st) *big.Int { return x.inv }, false}
var fopInvEq = fop1{"InvEq", func(z, x *F) { z.InvEq() }, func(x *st) *big.Int { return x.inv }, true}

func checkFop1(t *vk.T, o *fop1, x *st) {
	want := o.ref(x)
	if want == nil {
		return
	}
	want = modp(want)
	try := func(how string, z, a *F) {
		o.f(z, a)
		if msg := follow(z, want); msg != "" {
			t.Failf("%s(%v) [%s]: result %s", o.name, x, how, msg)
		}
		t.Eval(1)
	}
	a := x.f
	if !o.eq {
		z := mkF(vk.BI(99), false)
		try("fresh receiver", &z, &a)
		if !canonEq(&a, x.v) {
			t.Failf("%s(%v) changed the value of its argument", o.name, x)
		}
	}
	a = x.f
	try("in place", &a, &a)
}

func checkFop2(t *vk.T, o *fop2, x, y *st, deep bool) {
	want := o.ref(x, y)
	if want == nil {
		return
	}
	want = modp(want)
	verify := func(how string, z *F) {
		if deep {
			if msg := follow(z, want); msg != "" {
				t.Failf("%s(%v, %v) [%s]: result %s", o.name, x, y, how, msg)
			}
		} else if !canonEq(z, want) {
			t.Failf("%s(%v, %v) [%s] = %v, should be %#x", o.name, x, y, how, z.ToBigInt(), want)
		}
		t.Eval(1)
	}
	a, b := x.f, y.f
	z := mkF(vk.BI(99), false)
	o.f(&z, &a, &b)
	verify("fresh receiver", &z)
	if !canonEq(&a, x.v) || !canonEq(&b, y.v) {
		t.Failf("%s(%v, %v) changed the value of an argument", o.name, x, y)
	}
	zr := raw(&z)
	same := func(how string, z *F) {
		// the same computation with aliasing; if the representation is the same as before it is right, otherwise check it in full
		if raw(z) != zr {
			verify(how, z)
		}
		t.Eval(1)
	}
	a, b = x.f, y.f
	o.f(&a, &a, &b)
	same("receiver is first argument", &a)
	if !canonEq(&b, y.v) {
		t.Failf("%s(%v, %v) changed the value of an argument when aliasing", o.name, x, y)
	}
	a, b = x.f, y.f
	o.f(&b, &a, &b)
	same("receiver is second argument", &b)
	if !canonEq(&a, x.v) {
		t.Failf("%s(%v, %v) changed the value of an argument when aliasing", o.name, x, y)
	}
	if x == y {
		a = x.f
		z = mkF(vk.BI(99), false)
		o.f(&z, &a, &a)
		same("same argument twice", &z)
		a = x.f
		o.f(&a, &a, &a)
		same("everything aliased", &a)
	}
}

func checkFop2eq(t *vk.T, o *fop2eq, x, y *st) {
	want := o.base.ref(x, y)
	if want == nil {
		return
	}
	want = modp(want)
	a, b := x.f, y.f
	o.f(&a, &b)
	if msg := follow(&a, want); msg != "" {
		t.Failf("(%v).%s(%v): result %s", x, o.name, y, msg)
	}
	if !canonEq(&b, y.v) {
		t.Failf("(%v).%s(%v) changed the value of its argument", x, o.name, y)
	}
	if x == y {
		a = x.f
		o.f(&a, &a)
		if msg := follow(&a, want); msg != "" {
			t.Failf("(%v).%s(itself): result %s", x, o.name, msg)
		}
	}
	t.Eval(1)
}

func checkRel(t *vk.T, x, y *st) {
	eq := x.v.Cmp(y.v) == 0
	neg := modp(vk.Add(x.v, y.v)).Sign() == 0
	a, b := x.f, y.f
	if a.IsEqual(&b) != eq {
		t.Failf("IsEqual(%v, %v) should be %v", x, y, eq)
	}
	if !canonEq(&a, x.v) || !canonEq(&b, y.v) {
		t.Failf("IsEqual(%v, %v) changed a value", x, y)
	}
	a, b = x.f, y.f
	if abs, exact := a.CmpAbs(&b); abs != (eq || neg) || exact != eq {
		t.Failf("CmpAbs(%v, %v) = %v, %v, should be %v, %v", x, y, abs, exact, eq || neg, eq)
	}
	if !canonEq(&a, x.v) || !canonEq(&b, y.v) {
		t.Failf("CmpAbs(%v, %v) changed a value", x, y)
	}
	a, b = x.f, y.f
	a.Normalize()
	b.Normalize()
	if (raw(&a) == raw(&b)) != eq {
		t.Failf("after Normalize, %v and %v do not have equal representations exactly if they are equal", x, y)
	}
	if x == y {
		a = x.f
		if !a.IsEqual(&a) {
			t.Failf("IsEqual(%v, itself) is false", x)
		}
		if abs, exact := a.CmpAbs(&a); !abs || !exact {
			t.Failf("CmpAbs(%v, itself) is not true", x)
		}
	}
	t.Eval(3)
}

func checkPred(t *vk.T, x *st) {
	a := x.f
	if a.IsZero() != (x.v.Sign() == 0) {
		t.Failf("IsZero(%v) is wrong", x)
	}
	if a.IsOne() != (x.v.Cmp(vk.BI(1)) == 0) {
		t.Failf("IsOne(%v) is wrong", x)
	}
	want := 0
	if x.v.Sign() != 0 {
		want = 1
		if x.v.Cmp(halfP) > 0 {
			want = -1
		}
	}
	if g := a.Sign(); g != want {
		t.Failf("Sign(%v) = %v, should be %v", x, g, want)
	}
	if !canonEq(&a, x.v) {
		t.Failf("a predicate changed the value of %v", x)
	}
	a = x.f
	a.SetZero()
	if msg := follow(&a, vk.BI(0)); msg != "" {
		t.Failf("after SetZero on %v: %s", x, msg)
	}
	a = x.f
	a.SetOne()
	if msg := follow(&a, vk.BI(1)); msg != "" {
		t.Failf("after SetOne on %v: %s", x, msg)
	}
	t.Eval(5)
}

var smallU = []uint64{0, 1, 2, 3, 5, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<63 + 1, math.MaxUint64 - 1, math.MaxUint64}

func checkSmall(t *vk.T, x *st, thorough bool) {
	for _, u := range smallU {
		for signed := 0; signed < 2; signed++ {
			y := new(big.Int).SetUint64(u)
			if signed == 1 {
				y = vk.BI(int64(u))
			}
			ops := []struct {
				name string
				f    func(z, x *F)
				ref  func() *big.Int
			}{
				{"Add", func(z, x *F) {
					if signed == 1 {
						z.AddInt64(x, int64(u))
					} else {
						z.AddUint64(x, u)
					}
				}, func() *big.Int { return vk.Add(x.v, y) }},
				{"Sub", func(z, x *F) {
					if signed == 1 {
						z.SubInt64(x, int64(u))
					} else {
						z.SubUint64(x, u)
					}
				}, func() *big.Int { return vk.Sub(x.v, y) }},
				{"Mul", func(z, x *F) {
					if signed == 1 {
						z.MulInt64(x, int64(u))
					} else {
						z.MulUint64(x, u)
					}
				}, func() *big.Int { return vk.Mul(x.v, y) }},
				{"Divide", func(z, x *F) {
					if signed == 1 {
						z.DivideInt64(x, int64(u))
					} else {
						z.DivideUint64(x, u)
					}
				}, func() *big.Int {
					if y.Sign() == 0 {
						return nil
					}
					return vk.Mul(x.v, new(big.Int).ModInverse(modp(y), vk.P))
				}},
			}
			for _, o := range ops {
				want := o.ref()
				a, z := x.f, mkF(vk.BI(99), false)
				if want == nil {
					if !panics(func() { o.f(&z, &a) }) {
						t.Failf("%s of %v by integer 0 did not panic", o.name, x)
					}
					continue
				}
				want = modp(want)
				o.f(&z, &a)
				if msg := follow(&z, want); msg != "" {
					t.Failf("%s(%v, int %v): result %s", o.name, x, y, msg)
				}
				if !canonEq(&a, x.v) {
					t.Failf("%s(%v, int %v) changed the value of its argument", o.name, x, y)
				}
				o.f(&a, &a)
				if !canonEq(&a, want) {
					t.Failf("%s(%v, int %v) in place = %v, should be %#x", o.name, x, y, a.ToBigInt(), want)
				}
				t.Eval(2)
			}
		}
	}
}

func f04(r *vk.Run) {
	level := 1
	if r.Thorough {
		level = 2
	}
	S := states(level)
	r.Extra("element_states", len(S))
	r.Each(len(S), func(i int) string { return "element " + S[i].String() }, func(t *vk.T, i int) {
		x := S[i]
		checkPred(t, x)
		for k := range fops1 {
			checkFop1(t, &fops1[k], x)
		}
		checkSmall(t, x, level > 0)
		for j, y := range S {
			for k := range fops2 {
				checkFop2(t, &fops2[k], x, y, true)
			}
			for k := range fops2eq {
				checkFop2eq(t, &fops2eq[k], x, y)
			}
			checkRel(t, x, y)
			t.StateH(uint64(i)<<32 | uint64(j))
			t.Trans(len(fops2) + len(fops2eq) + 3)
			t.Trace(len(fops2) + len(fops2eq) + 3)
		}
		for j, y := range S {
			if j%8 == i%8 || level > 1 { // divisions cost a big-integer inversion
				checkFop2(t, &fopDivide, x, y, false)
				checkFop2eq(t, &fopDivideEq, x, y)
			}
		}
		// partners that hit a boundary exactly
		for _, c := range []*big.Int{vk.BI(0), vk.BI(1), halfP, vk.Add(halfP, vk.BI(1)), vk.Sub(vk.P, vk.BI(1)), modp(vk.Mul(vk.Sub(cBound, vk.BI(1)), rInv)), modp(vk.Mul(vk.Sub(vk.Sub(cBound, vk.BI(1)), vk.P), rInv))} {
			for _, y := range []*big.Int{modp(vk.Sub(c, x.v)), modp(vk.Sub(x.v, c)), modp(vk.Add(x.v, c))} {
				for _, alt := range []bool{false, true} {
					ys := mkState(y, alt)
					for k := range fops2 {
						checkFop2(t, &fops2[k], x, ys, true)
					}
					checkRel(t, x, ys)
					checkRel(t, ys, x)
				}
			}
		}
	})
	// pairs whose internal words add up to, or differ by, a range limit plus or minus a number with extreme limbs
	D := limbDistances(r.Thorough)
	L := []*big.Int{vk.BI(0), vk.P, twoP, cBound, vk.Sub(cBound, vk.P), vk.Two256}
	var X []*big.Int
	for _, w := range vk.Uniq(append(vk.Around(0, vk.P, cBound, vk.Sub(cBound, vk.P), vk.Pow2(192)), vk.BI(1), vk.Sub(vk.P, vk.BI(1)), vk.Sub(cBound, vk.BI(1)), vk.Generic(21, vk.P), vk.Generic(22, vk.P), vk.Add(vk.P, vk.Generic(23, vk.Sub(cBound, vk.P)))), vk.BI(0), cBound) {
		X = append(X, w)
	}
	fromWord := func(w *big.Int) *st {
		s := &st{v: modp(vk.Mul(w, rInv)), alt: w.Cmp(vk.P) >= 0}
		s.f = mkF(s.v, s.alt)
		return s
	}
	r.Each(len(X)*len(L), func(n int) string { return fmt.Sprintf("element words: x=%#x limit=%#x", X[n/len(L)], L[n%len(L)]) }, func(t *vk.T, n int) {
		w, l := X[n/len(L)], L[n%len(L)]
		x := fromWord(w)
		for _, d := range D {
			ld := vk.Add(l, d)
			for _, yw := range []*big.Int{vk.Sub(ld, w), vk.Sub(w, ld), vk.Add(w, ld)} {
				if yw.Sign() < 0 || yw.Cmp(cBound) >= 0 {
					continue
				}
				y := fromWord(yw)
				for k := range fops2 {
					checkFop2(t, &fops2[k], x, y, false)
				}
				for k := range fops2eq {
					checkFop2eq(t, &fops2eq[k], x, y)
				}
				for k := range fops1 {
					checkFop1(t, &fops1[k], y)
				}
				checkRel(t, x, y)
			}
		}
		t.StateH(1<<61 | uint64(n))
	})
	r.Each(len(L)*3, func(n int) string { return fmt.Sprintf("element words near (k*2^256/5 or half of) %#x", L[n/3]) }, func(t *vk.T, n int) {
		c := vk.Add(L[n/3], []*big.Int{vk.BI(0), vk.P, vk.Two256}[n%3])
		for _, div := range []int64{1, 2, 5} {
			for k := int64(1); k <= 4; k++ {
				q := new(big.Int).Div(vk.Mul(c, vk.BI(k)), vk.BI(div))
				for _, d := range D {
					w := vk.Add(q, d)
					if w.Sign() < 0 || w.Cmp(cBound) >= 0 {
						continue
					}
					x := fromWord(w)
					for k := range fops1 {
						checkFop1(t, &fops1[k], x)
					}
				}
			}
		}
		t.StateH(1<<60 | uint64(n))
	})
	seqs(r)
	r.Sample(fmt.Sprintf("x=%v, y=%v under every operation and aliasing", S[1], S[len(S)-1]))
}

// seqs explores all operation sequences up to a depth on two registers, starting from several pairs of states, breadth first with
// de-duplication of implementation states; the model is a pair of residues.
func seqs(r *vk.Run) {
	type node struct {
		a, b   F
		av, bv *big.Int
	}
	type act struct {
		name string
		f    func(a, b *F)
		ref  func(a, b *big.Int) (*big.Int, *big.Int)
	}
	acts := []act{
		{"a+=b", func(a, b *F) { a.AddEq(b) }, func(a, b *big.Int) (*big.Int, *big.Int) { return modp(vk.Add(a, b)), b }},
		{"b.Add(b,a)", func(a, b *F) { b.Add(b, a) }, func(a, b *big.Int) (*big.Int, *big.Int) { return a, modp(vk.Add(a, b)) }},
		{"a.Sub(a,b)", func(a, b *F) { a.Sub(a, b) }, func(a, b *big.Int) (*big.Int, *big.Int) { return modp(vk.Sub(a, b)), b }},
		{"b.Sub(a,b)", func(a, b *F) { b.Sub(a, b) }, func(a, b *big.Int) (*big.Int, *big.Int) { return a, modp(vk.Sub(a, b)) }},
		{"a*=b", func(a, b *F) { a.MulEq(b) }, func(a, b *big.Int) (*big.Int, *big.Int) { return modp(vk.Mul(a, b)), b }},
		{"b.Mul(a,b)", func(a, b *F) { b.Mul(a, b) }, func(a, b *big.Int) (*big.Int, *big.Int) { return a, modp(vk.Mul(a, b)) }},
		{"a.Square(a)", func(a, b *F) { a.Square(a) }, func(a, b *big.Int) (*big.Int, *big.Int) { return modp(vk.Mul(a, a)), b }},
		{"a.Neg(b)", func(a, b *F) { a.Neg(b) }, func(a, b *big.Int) (*big.Int, *big.Int) { return modp(new(big.Int).Neg(b)), b }},
		{"b.NegEq()", func(a, b *F) { b.NegEq() }, func(a, b *big.Int) (*big.Int, *big.Int) { return a, modp(new(big.Int).Neg(b)) }},
		{"a.DoubleEq()", func(a, b *F) { a.DoubleEq() }, func(a, b *big.Int) (*big.Int, *big.Int) { return modp(vk.Add(a, a)), b }},
		{"b.MulEqFive()", func(a, b *F) { b.MulEqFive() }, func(a, b *big.Int) (*big.Int, *big.Int) { return a, modp(vk.Mul(b, vk.BI(5))) }},
		{"a.Normalize()", func(a, b *F) { a.Normalize() }, func(a, b *big.Int) (*big.Int, *big.Int) { return a, b }},
		{"b to alternate representation", func(a, b *F) { b.RerandomizeRepresentation(1) }, func(a, b *big.Int) (*big.Int, *big.Int) { return a, b }},
		{"a.IsEqual(b)", func(a, b *F) { a.IsEqual(b) }, func(a, b *big.Int) (*big.Int, *big.Int) { return a, b }},
		{"swap", func(a, b *F) { *a, *b = *b, *a }, func(a, b *big.Int) (*big.Int, *big.Int) { return b, a }},
	}
	depth, width := 5, 50000
	if r.Thorough {
		depth, width = 7, 2000000
	}
	seedVals := [][2]*big.Int{{vk.BI(0), vk.BI(0)}, {vk.BI(1), vk.BI(-1)}, {rInv, modp(new(big.Int).Neg(rInv))}, {modp(vk.Mul(vk.Sub(cBound, vk.BI(1)), rInv)), modp(vk.Mul(halfP, rInv))}, {vk.BI(3), vk.Generic(1, vk.P)}}
	var frontier []node
	for _, s := range seedVals {
		for k := 0; k < 4; k++ {
			frontier = append(frontier, node{mkF(s[0], k&1 == 1), mkF(s[1], k&2 == 2), modp(s[0]), modp(s[1])})
		}
	}
	seen := map[[64]byte]bool{}
	key := func(n *node) (k [64]byte) { n.a.ToBytes(k[:32]); n.b.ToBytes(k[32:]); return }
	for _, n := range frontier {
		seen[key(&n)] = true
	}
	truncated := 0
	for d := 0; d < depth && !r.Expired(); d++ {
		next := make([][]node, len(frontier))
		r.Each(len(frontier), func(i int) string {
			return fmt.Sprintf("sequence depth %d state (%v, %v)", d, frontier[i].av, frontier[i].bv)
		}, func(t *vk.T, i int) {
			next[i] = nil
			for _, ac := range acts {
				n := frontier[i]
				eqBefore := n.av.Cmp(n.bv) == 0
				if ac.name == "a.IsEqual(b)" {
					a, b := n.a, n.b
					if a.IsEqual(&b) != eqBefore {
						t.Failf("IsEqual wrong in state a=%#x b=%#x", n.av, n.bv)
					}
				}
				ac.f(&n.a, &n.b)
				n.av, n.bv = ac.ref(n.av, n.bv)
				if !canonEq(&n.a, n.av) || !canonEq(&n.b, n.bv) {
					t.Failf("after %s in state (%#x, %#x): registers are (%v, %v), the model says (%#x, %#x)", ac.name, frontier[i].av, frontier[i].bv, n.a.ToBigInt(), n.b.ToBigInt(), n.av, n.bv)
				}
				if n.a.IsZero() != (n.av.Sign() == 0) || n.b.IsOne() != (n.bv.Cmp(vk.BI(1)) == 0) {
					t.Failf("IsZero/IsOne wrong after %s in state (%#x, %#x)", ac.name, frontier[i].av, frontier[i].bv)
				}
				t.Trans(1)
				t.Trace(1)
				next[i] = append(next[i], n)
			}
			k := key(&frontier[i])
			t.State(string(k[:]))
		})
		var nf []node
		for _, ns := range next {
			for _, n := range ns {
				if k := key(&n); !seen[k] {
					seen[k] = true
					if len(nf) < width {
						nf = append(nf, n)
					} else {
						truncated++
					}
				}
			}
		}
		frontier = nf
	}
	r.Extra("sequence_depth", depth)
	r.Extra("states_beyond_the_width_limit_not_expanded", truncated)
}

// ---- F05 ----

func f05(r *vk.Run) {
	level := 1
	if r.Thorough {
		level = 2
	}
	S := states(level)
	one := vk.BI(1)
	r.Each(len(S), func(i int) string { return "element " + S[i].String() }, func(t *vk.T, i int) {
		x := S[i]
		if x.v.Sign() == 0 {
			a, z := x.f, mkF(vk.BI(99), false)
			if !panics(func() { z.Inv(&a) }) || !panics(func() { a.InvEq() }) {
				t.Failf("inverting zero did not panic")
			}
			a = x.f
			b := mkF(vk.BI(7), false)
			if !panics(func() { z.Divide(&b, &a) }) || !panics(func() { z.Divide(&a, &a) }) || !panics(func() { b.DivideEq(&a) }) {
				t.Failf("dividing by zero did not panic")
			}
		}
		checkFop1(t, &fopInv, x)
		checkFop1(t, &fopInvEq, x)
		checkSqrt(t, x.v, x.alt)
		sq := modp(vk.Mul(x.v, x.v))
		checkSqrt(t, sq, x.alt)
		checkSqrt(t, modp(vk.Mul(sq, vk.BI(5))), x.alt)
		t.State("elem", x.String())
	})
	// discrete-logarithm structure of the 2-power torsion: x = s * w^e with w a primitive 2^32-th root of unity
	odd := new(big.Int).Rsh(vk.Sub(vk.P, one), 32)
	w := new(big.Int).Exp(vk.BI(5), odd, vk.P)
	if new(big.Int).Exp(w, vk.Pow2(31), vk.P).Cmp(vk.Sub(vk.P, one)) != 0 {
		panic("harness: 5 is not a non-residue")
	}
	var pow [4][256]*big.Int // w^(j<<8k)
	for k := range pow {
		g := new(big.Int).Exp(w, vk.Pow2(uint(8*k)), vk.P)
		pow[k][0] = one
		for j := 1; j < 256; j++ {
			pow[k][j] = modp(vk.Mul(pow[k][j-1], g))
		}
	}
	val := func(e uint32) *big.Int {
		v := one
		for k := 0; k < 4; k++ {
			v = modp(vk.Mul(v, pow[k][byte(e>>(8*k))]))
		}
		return v
	}
	ss := []*big.Int{one, new(big.Int).Exp(vk.BI(7), vk.Pow2(32), vk.P)} // elements of odd order
	// single bytes at every bit position
	r.Each(256, func(i int) string { return fmt.Sprintf("torsion digit %d", i) }, func(t *vk.T, i int) {
		for j := uint(0); j <= 31; j++ {
			e := uint32(i) << j
			for _, s := range ss {
				for _, alt := range []bool{false, true} {
					checkSqrtE(t, modp(vk.Mul(s, val(e))), alt, e)
				}
			}
			checkSqrtE(t, val(^e), false, ^e)
		}
	})
	// all pairs of bytes of the logarithm, the other bytes fixed
	ctx := []uint32{0, 0xffffffff}
	if r.Thorough {
		ctx = append(ctx, 0x5aa5c33c, 0x80808080, 0x7f7f7f7f)
	}
	r.Each(6*len(ctx)*256, func(i int) string { return fmt.Sprintf("torsion byte pairs %d", i) }, func(t *vk.T, i int) {
		hi, rest := uint32(i&255), i>>8
		c := ctx[rest%len(ctx)]
		pr := [][2]uint{{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}}[rest/len(ctx)]
		for lo := uint32(0); lo < 256; lo++ {
			if t.Quick() && pr[0] == 0 && lo&1 == 1 && lo > 15 {
				continue // all of these are rejected from the lowest bit already
			}
			e := c&^(255<<(8*pr[0]))&^(255<<(8*pr[1])) | lo<<(8*pr[0]) | hi<<(8*pr[1])
			if pr[0] != 0 && c != 0 {
				e &^= 1
			}
			checkSqrtE(t, val(e), false, e)
		}
	})
	B, E := baseSet(level), exponentSet(level)
	r.Each(len(B), func(i int) string { return fmt.Sprintf("exp base=%#x", B[i]) }, func(t *vk.T, i int) {
		b := modp(B[i])
		for _, e := range E {
			want := new(big.Int).Exp(b, e, vk.P)
			for _, alt := range []bool{false, true} {
				bf, eu, z := mkF(b, alt), mkU(e), mkF(vk.BI(99), false)
				z.Exp(&bf, &eu)
				if !canonEq(&z, want) {
					t.Failf("Exp(%#x alt=%v, %#x) = %v, should be %#x", b, alt, e, z.ToBigInt(), want)
				}
				if !canonEq(&bf, b) || toI(&eu).Cmp(e) != 0 {
					t.Failf("Exp(%#x, %#x) changed an argument", b, e)
				}
				bf.Exp(&bf, &eu)
				if !canonEq(&bf, want) {
					t.Failf("Exp(%#x alt=%v, %#x) in place = %v, should be %#x", b, alt, e, bf.ToBigInt(), want)
				}
				t.Eval(2)
			}
			t.State("exp", b.String(), e.String())
		}
	})
	r.Sample("square root of s*w^e, w a primitive 2^32-th root of unity, e = 0x00c30000, and of all byte-pair patterns of e")
}

func checkSqrtE(t *vk.T, v *big.Int, alt bool, e uint32) {
	x := mkF(v, alt)
	z := mkF(vk.BI(99), false)
	before := raw(&z)
	ok := z.SquareRoot(&x)
	if ok != (e&1 == 0) {
		t.Failf("SquareRoot(%#x) (alt=%v, e=%#x) reports %v, should be %v", v, alt, e, ok, e&1 == 0)
		return
	}
	t.Eval(1)
	t.StateH(vk.Mix(uint64(e)<<1 | 1))
	if !ok {
		if raw(&z) != before {
			t.Failf("SquareRoot(%#x) (e=%#x) failed but changed its receiver", v, e)
		}
		return
	}
	z.Mul(&z, &z)
	if !canonEq(&z, v) {
		t.Failf("SquareRoot(%#x) (alt=%v, e=%#x) squared is %v", v, alt, e, z.ToBigInt())
	}
}

func checkSqrt(t *vk.T, v *big.Int, alt bool) {
	x := mkF(v, alt)
	want := big.Jacobi(v, vk.P)
	if j := x.Jacobi(); j != want {
		t.Failf("Jacobi(%#x alt=%v) = %v, should be %v", v, alt, j, want)
	}
	if !canonEq(&x, v) {
		t.Failf("Jacobi changed the value of %#x", v)
	}
	z := mkF(vk.BI(99), false)
	before := raw(&z)
	ok := z.SquareRoot(&x)
	if ok != (want >= 0) {
		t.Failf("SquareRoot(%#x alt=%v) reports %v", v, alt, ok)
		return
	}
	if !canonEq(&x, v) {
		t.Failf("SquareRoot(%#x) changed its argument", v)
	}
	t.Eval(3)
	if !ok {
		if raw(&z) != before {
			t.Failf("SquareRoot(%#x) failed but changed its receiver", v)
		}
		rb := raw(&x)
		if x.SquareRoot(&x) || raw(&x) != rb {
			t.Failf("SquareRoot(%#x) in place: failure changed the receiver, or inconsistent answer", v)
		}
		return
	}
	if !canonEq(&z, modp(z.ToBigInt())) || modp(vk.Mul(z.ToBigInt(), z.ToBigInt())).Cmp(v) != 0 {
		t.Failf("SquareRoot(%#x alt=%v) = %v is not a root", v, alt, z.ToBigInt())
	}
	if !x.SquareRoot(&x) || modp(vk.Mul(x.ToBigInt(), x.ToBigInt())).Cmp(v) != 0 {
		t.Failf("SquareRoot(%#x alt=%v) in place is not a root", v, alt)
	}
}

func panics(f func()) bool { did, _ := vk.Panics(f); return did }
