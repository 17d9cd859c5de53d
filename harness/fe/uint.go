//go:build go1.22

package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

type U = fe.Uint256

func mkU(x *big.Int) U  { return U(vk.ToLimbs4(x)) }
func toI(x *U) *big.Int { return vk.FromLimbs(x[:]) }
func mk512(x *big.Int) fe.Uint512 {
	lo, hi := vk.ToLimbs4(vk.Mod(x, vk.Two256)), vk.ToLimbs4(new(big.Int).Rsh(x, 256))
	return fe.Uint512{lo[0], lo[1], lo[2], lo[3], hi[0], hi[1], hi[2], hi[3]}
}

var (
	twoP    = vk.Mul(vk.P, vk.BI(2))
	cBound  = vk.Sub(vk.Two256, vk.P)
	garbage = []U{{}, {1, 2, 3, 4}, {math.MaxUint64, math.MaxUint64, math.MaxUint64, math.MaxUint64}}
)

// centers are the range limits that the reduction code compares against, directly or after carries
func centers() []*big.Int {
	return []*big.Int{vk.BI(0), vk.P, twoP, cBound, vk.Two256, vk.Sub(vk.Two256, twoP), new(big.Int).Rsh(vk.P, 1), vk.Pow2(64), vk.Pow2(128), vk.Pow2(192), vk.Pow2(255), vk.Sub(vk.Mul(vk.P, vk.BI(3)), vk.Two256),
		vk.Mod(vk.Two256, vk.P), vk.Mod(vk.Two512, vk.P), vk.R}
}

// values256 is the boundary-complete value set: around all centers, all values that agree with a center in the top limbs and have extreme low limbs,
// carry patterns, single bits and generic values.
func values256(level int) []*big.Int {
	var c []*big.Int
	k := int64(2)
	if level > 0 {
		k = 5
	}
	c = append(c, vk.Around(k, centers()...)...)
	for _, x := range centers() {
		for _, sh := range []uint{64, 128, 192} {
			lo := new(big.Int).Lsh(new(big.Int).Rsh(x, sh), sh)
			c = append(c, vk.Around(1, lo, vk.Add(lo, vk.Pow2(sh)))...)
			// center with one limb incremented or decremented
			c = append(c, vk.Add(x, vk.Pow2(sh)), vk.Sub(x, vk.Pow2(sh)))
		}
	}
	if level > 0 {
		c = append(c, vk.Limbs(4, 0, 1, 1<<63, math.MaxUint64)...)
		for i := uint(0); i < 256; i++ {
			c = append(c, vk.Around(1, vk.Pow2(i))...)
		}
	} else {
		c = append(c, vk.Limbs(4, 0, 1, math.MaxUint64)...)
		for i := uint(0); i < 256; i += 5 {
			c = append(c, vk.Pow2(i))
		}
	}
	for i := uint64(0); i < uint64(16+100*level); i++ {
		c = append(c, vk.Generic(i, vk.Two256))
	}
	return vk.Uniq(c, vk.BI(0), vk.Two256)
}

// op2 is a two-argument operation of the code under test with its contract.
type op2 struct {
	name  string
	impl  func(z, x, y *U) uint64 // returns carry/borrow or 0
	in    *big.Int                // inputs below this bound
	out   *big.Int                // guaranteed output bound
	ref   func(x, y *big.Int) *big.Int
	mod   *big.Int // compare modulo this
	carry func(x, y *big.Int) uint64
	mutx  bool // in-place operation: z is x
}
type op1 struct {
	name string
	impl func(z, x *U)
	in   *big.Int
	out  *big.Int
	ref  func(x *big.Int) *big.Int
	mod  *big.Int
	eq   bool // in-place only
}

func (o *op2) check(t *vk.T, x, y *big.Int, xu, yu U) {
	if x.Cmp(o.in) >= 0 || y.Cmp(o.in) >= 0 {
		return
	}
	want := vk.Mod(o.ref(x, y), o.mod)
	var wc uint64
	if o.carry != nil {
		wc = o.carry(x, y)
	}
	verify := func(how string, z U, c uint64) {
		zi := toI(&z)
		if zi.Cmp(o.out) >= 0 || vk.Mod(zi, o.mod).Cmp(want) != 0 || (o.carry != nil && c != wc) {
			t.Failf("%s(%#x, %#x) [%s] = %#x carry %d, should be %#x (mod %#x) carry %d, and below %#x", o.name, x, y, how, zi, c, want, o.mod, wc, o.out)
		}
	}
	a, b := xu, yu
	if o.mutx {
		c := o.impl(&a, &a, &b)
		verify("in place", a, c)
		if b != yu {
			t.Failf("%s(%#x, %#x) modified its argument", o.name, x, y)
		}
		if xu == yu {
			a = xu
			c = o.impl(&a, &a, &a)
			verify("in place, aliased argument", a, c)
		}
		t.Eval(1)
		return
	}
	z := garbage[(int(xu[0])^int(yu[0]))&1+1]
	c := o.impl(&z, &a, &b)
	verify("fresh receiver", z, c)
	if a != xu || b != yu {
		t.Failf("%s(%#x, %#x) modified an argument", o.name, x, y)
	}
	z = xu
	c = o.impl(&z, &z, &b)
	verify("z=x", z, c)
	z = yu
	c = o.impl(&z, &a, &z)
	verify("z=y", z, c)
	if a != xu || b != yu {
		t.Failf("%s(%#x, %#x) modified an argument when aliasing", o.name, x, y)
	}
	if xu == yu {
		z = xu
		c = o.impl(&z, &z, &z)
		verify("z=x=y", z, c)
		z = garbage[1]
		c = o.impl(&z, &a, &a)
		verify("x=y", z, c)
		if a != xu {
			t.Failf("%s(%#x, %#x) modified an argument when aliasing", o.name, x, y)
		}
	}
	t.Eval(3)
}

func (o *op1) check(t *vk.T, x *big.Int, xu U) {
	if x.Cmp(o.in) >= 0 {
		return
	}
	want := vk.Mod(o.ref(x), o.mod)
	verify := func(how string, z U) {
		zi := toI(&z)
		if zi.Cmp(o.out) >= 0 || vk.Mod(zi, o.mod).Cmp(want) != 0 {
			t.Failf("%s(%#x) [%s] = %#x, should be %#x (mod %#x) and below %#x", o.name, x, how, zi, want, o.mod, o.out)
		}
	}
	if !o.eq {
		for _, g := range garbage {
			z, a := g, xu
			o.impl(&z, &a)
			verify("fresh receiver", z)
			if a != xu {
				t.Failf("%s(%#x) modified its argument", o.name, x)
			}
			t.Eval(1)
		}
	}
	z := xu
	o.impl(&z, &z)
	verify("in place", z)
	t.Eval(1)
}

var one = vk.BI(1)

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

var intOps2 = []op2{
	{name: "Add", impl: func(z, x, y *U) uint64 { z.Add(x, y); return 0 }, in: vk.Two256, out: vk.Two256, ref: vk.Add, mod: vk.Two256},
	{name: "AddAndReturnCarry", impl: func(z, x, y *U) uint64 { return z.AddAndReturnCarry(x, y) }, in: vk.Two256, out: vk.Two256, ref: vk.Add, mod: vk.Two256,
		carry: func(x, y *big.Int) uint64 { return b2u(vk.Add(x, y).BitLen() > 256) }},
	{name: "Sub", impl: func(z, x, y *U) uint64 { z.Sub(x, y); return 0 }, in: vk.Two256, out: vk.Two256, ref: vk.Sub, mod: vk.Two256},
	{name: "SubAndReturnBorrow", impl: func(z, x, y *U) uint64 { return z.SubAndReturnBorrow(x, y) }, in: vk.Two256, out: vk.Two256, ref: vk.Sub, mod: vk.Two256,
		carry: func(x, y *big.Int) uint64 { return b2u(x.Cmp(y) < 0) }},
	{name: "Mul", impl: func(z, x, y *U) uint64 { z.Mul(x, y); return 0 }, in: vk.Two256, out: vk.Two256, ref: vk.Mul, mod: vk.Two256},
}
var intOps1 = []op1{
	{name: "Increment", impl: func(z, x *U) { z.Increment(x) }, in: vk.Two256, out: vk.Two256, ref: func(x *big.Int) *big.Int { return vk.Add(x, one) }, mod: vk.Two256},
	{name: "IncrementEq", impl: func(z, x *U) { z.IncrementEq() }, in: vk.Two256, out: vk.Two256, ref: func(x *big.Int) *big.Int { return vk.Add(x, one) }, mod: vk.Two256, eq: true},
	{name: "Decrement", impl: func(z, x *U) { z.Decrement(x) }, in: vk.Two256, out: vk.Two256, ref: func(x *big.Int) *big.Int { return vk.Sub(x, one) }, mod: vk.Two256},
	{name: "DecrementEq", impl: func(z, x *U) { z.DecrementEq() }, in: vk.Two256, out: vk.Two256, ref: func(x *big.Int) *big.Int { return vk.Sub(x, one) }, mod: vk.Two256, eq: true},
	{name: "SetZero", impl: func(z, x *U) { z.SetZero() }, in: vk.Two256, out: one, ref: func(x *big.Int) *big.Int { return vk.BI(0) }, mod: vk.Two256, eq: true},
	{name: "SetOne", impl: func(z, x *U) { z.SetOne() }, in: vk.Two256, out: vk.BI(2), ref: func(x *big.Int) *big.Int { return vk.BI(1) }, mod: vk.Two256, eq: true},
	{name: "SetUint256", impl: func(z, x *U) { z.SetUint256(x) }, in: vk.Two256, out: vk.Two256, ref: func(x *big.Int) *big.Int { return x }, mod: vk.Two256},
	{name: "ToUint256", impl: func(z, x *U) { x.ToUint256(z) }, in: vk.Two256, out: vk.Two256, ref: func(x *big.Int) *big.Int { return x }, mod: vk.Two256},
}

// carryValues has all values over a carry-complete limb alphabet
func carryValues(level int) []*big.Int {
	al := []uint64{0, 1, 1 << 63, math.MaxUint64}
	if level > 0 {
		al = append(al, math.MaxUint64-1, 1<<63-1)
	}
	return vk.Limbs(4, al...)
}

func f01(r *vk.Run) {
	level := 1
	if r.Thorough {
		level = 2
	}
	V := vk.Uniq(append(carryValues(level), values256(level)...), vk.BI(0), vk.Two256)
	UV := make([]U, len(V))
	for i := range V {
		UV[i] = mkU(V[i])
	}
	r.Extra("value_set_size", len(V))
	lv := []uint64{0, 1, 2, 0xffffffff, 1 << 32, 1 << 63, math.MaxUint64 - 1, math.MaxUint64, 0x0123456789abcdef}
	r.Each(len(V), func(i int) string { return fmt.Sprintf("int x=%#x", V[i]) }, func(t *vk.T, i int) {
		x, xu := V[i], UV[i]
		for k := range intOps1 {
			intOps1[k].check(t, x, xu)
		}
		a := xu
		if a.ToBigInt().Cmp(x) != 0 || a.BitLen() != x.BitLen() || a.IsZero() != (x.Sign() == 0) || a.IsOne() != (x.Cmp(one) == 0) || a.String() != x.String() ||
			fmt.Sprintf("%x %d %v %#X", a, a, &a, a) != fmt.Sprintf("%x %d %v %#X", x, x, x, x) || fe.BigIntToUInt256(x) != a || a != xu {
			t.Failf("conversions or predicates of %#x are wrong", x)
		}
		z := garbage[2]
		z.SetBigInt(x)
		if z != xu {
			t.Failf("SetBigInt(%#x) = %#x", x, z)
		}
		a.ToBigInt().SetInt64(5)
		if a != xu {
			t.Failf("ToBigInt result aliases its source")
		}
		for _, w := range lv {
			z = garbage[2]
			z.SetUint64(w)
			if (z != U{w, 0, 0, 0}) {
				t.Failf("SetUint64(%d) = %#x", w, z)
			}
			tgt := [5]uint64{9, 9, 9, 9, 9}
			fe.LongMulUint64(&tgt, &a, w)
			if vk.FromLimbs(tgt[:]).Cmp(vk.Mul(x, new(big.Int).SetUint64(w))) != 0 || a != xu {
				t.Failf("LongMulUint64(%#x, %d) = %v", x, w, tgt)
			}
			t.Eval(2)
		}
		for s := uint(0); s <= 64; s++ {
			z = xu
			z.ShiftRightEq(s)
			if toI(&z).Cmp(new(big.Int).Rsh(x, s)) != 0 {
				t.Failf("%#x >> %d = %#x", x, s, z)
			}
			t.Eval(1)
		}
		z = xu
		if out := z.ShiftRightEq_64(); out != xu[0] || toI(&z).Cmp(new(big.Int).Rsh(x, 64)) != 0 {
			t.Failf("ShiftRightEq_64 of %#x wrong", x)
		}
		z = xu
		if out := z.ShiftLeftEq_64(); out != xu[3] || toI(&z).Cmp(vk.Mod(new(big.Int).Lsh(x, 64), vk.Two256)) != 0 {
			t.Failf("ShiftLeftEq_64 of %#x wrong", x)
		}
		var sq fe.Uint512
		for k := range sq {
			sq[k] = 77
		}
		sq.LongSquare(&a)
		if vk.FromLimbs(sq[:]).Cmp(vk.Mul(x, x)) != 0 || a != xu {
			t.Failf("LongSquare(%#x) = %#x", x, sq)
		}
		sq.SetUint256(&a)
		if vk.FromLimbs(sq[:]).Cmp(x) != 0 || sq.ToBigInt().Cmp(x) != 0 {
			t.Failf("Uint512.SetUint256(%#x) = %v", x, sq)
		}
		z = garbage[1]
		sq.ToUint256(&z)
		if z != xu {
			t.Failf("Uint512.ToUint256(%#x) = %v", x, z)
		}
		t.Eval(6)
		for j := range V {
			y, yu := V[j], UV[j]
			for k := range intOps2 {
				intOps2[k].check(t, x, y, xu, yu)
			}
			b := yu
			if c := x.Cmp(y); a.Cmp(&b) != c || a.IsLessThan(&b) != (c < 0) || fe.IsEqualAsUint256(&a, &b) != (c == 0) {
				t.Failf("comparison of %#x and %#x is wrong", x, y)
			}
			var p fe.Uint512
			p[7], p[0] = 3, 9
			p.LongMul(&a, &b)
			if vk.FromLimbs(p[:]).Cmp(vk.Mul(x, y)) != 0 {
				t.Failf("LongMul(%#x, %#x) = %#x", x, y, p)
			}
			if a != xu || b != yu {
				t.Failf("comparison or long multiplication modified an argument")
			}
			t.Eval(2)
			if i == j {
				p.LongMul(&a, &a)
				if vk.FromLimbs(p[:]).Cmp(vk.Mul(x, x)) != 0 {
					t.Failf("LongMul(%#x, same) = %#x", x, p)
				}
			}
			t.StateH(uint64(i)<<32 | uint64(j))
		}
	})
	// 512 bit values
	W := vk.Limbs(8, 0, 1, math.MaxUint64)
	for i := uint(0); i <= 512; i++ {
		W = append(W, vk.Around(1, vk.Pow2(i))...)
	}
	W = append(W, vk.BI(-1), vk.BI(-5), new(big.Int).Neg(vk.Pow2(300)), vk.Pow2(513), vk.Pow2(600))
	r.Each(len(W), func(i int) string { return fmt.Sprintf("int512 x=%#x", W[i]) }, func(t *vk.T, i int) {
		x := W[i]
		ok := x.Sign() >= 0 && x.BitLen() <= 512
		ok256 := x.Sign() >= 0 && x.BitLen() <= 256
		var z fe.Uint512
		did, _ := vk.Panics(func() { z = fe.BigIntToUint512(x) })
		if did == ok || ok && vk.FromLimbs(z[:]).Cmp(x) != 0 {
			t.Failf("BigIntToUint512(%#x) = %#x, panicked=%v", x, z, did)
		}
		var zz U
		did, _ = vk.Panics(func() { zz = fe.BigIntToUInt256(x) })
		if did == ok256 || ok256 && toI(&zz).Cmp(x) != 0 {
			t.Failf("BigIntToUInt256(%#x) = %#x, panicked=%v", x, z, did)
		}
		if ok {
			z2 := fe.Uint512{1, 2, 3, 4, 5, 6, 7, 8}
			z2.SetBigInt(x)
			if z2 != z || z.ToBigInt().Cmp(x) != 0 || z.String() != x.String() || fmt.Sprintf("%x", z) != fmt.Sprintf("%x", x) {
				t.Failf("Uint512 conversions of %#x", x)
			}
			if did, _ = vk.Panics(func() { z.ToUint256(&zz) }); did == ok256 || ok256 && toI(&zz).Cmp(x) != 0 {
				t.Failf("Uint512.ToUint256(%#x): panicked=%v", x, did)
			}
			z2.SetUint64(uint64(i))
			if z2 != (fe.Uint512{uint64(i)}) {
				t.Failf("Uint512.SetUint64(%d)", i)
			}
		}
		t.Eval(4)
		t.State("512", x.String())
	})
	r.Sample(fmt.Sprintf("x=%#x y=%#x: Add Sub Mul LongMul Cmp ...", V[7], V[len(V)-2]))
}

func neg(x *big.Int) *big.Int { return new(big.Int).Neg(x) }

var modOps2 = []op2{
	{name: "AddAndReduce_b", impl: func(z, x, y *U) uint64 { z.AddAndReduce_b(x, y); return 0 }, in: twoP, out: twoP, ref: vk.Add, mod: vk.P},
	{name: "AddAndReduce_c", impl: func(z, x, y *U) uint64 { z.AddAndReduce_c(x, y); return 0 }, in: cBound, out: cBound, ref: vk.Add, mod: vk.P},
	{name: "SubAndReduce_b", impl: func(z, x, y *U) uint64 { z.SubAndReduce_b(x, y); return 0 }, in: twoP, out: twoP, ref: vk.Sub, mod: vk.P},
	{name: "SubAndReduce_c", impl: func(z, x, y *U) uint64 { z.SubAndReduce_c(x, y); return 0 }, in: cBound, out: cBound, ref: vk.Sub, mod: vk.P},
	{name: "AddEqAndReduce_a", impl: func(z, x, y *U) uint64 { z.AddEqAndReduce_a(y); return 0 }, in: vk.Two256, out: vk.Two256, ref: vk.Add, mod: vk.P, mutx: true},
	{name: "SubEqAndReduce_a", impl: func(z, x, y *U) uint64 { z.SubEqAndReduce_a(y); return 0 }, in: vk.Two256, out: vk.Two256, ref: vk.Sub, mod: vk.P, mutx: true},
	{name: "MulEqAndReduce_a", impl: func(z, x, y *U) uint64 { z.MulEqAndReduce_a(y); return 0 }, in: vk.Two256, out: vk.Two256, ref: vk.Mul, mod: vk.P, mutx: true},
	{name: "MulAndReduce_a", impl: func(z, x, y *U) uint64 { z.MulAndReduce_a(x, y); return 0 }, in: vk.Two256, out: vk.Two256, ref: vk.Mul, mod: vk.P},
}
var modOps1 = []op1{
	{name: "Reduce", impl: func(z, x *U) { z.Reduce() }, in: vk.Two256, out: vk.P, ref: func(x *big.Int) *big.Int { return x }, mod: vk.P, eq: true},
	{name: "Reduce_fa", impl: func(z, x *U) { z.Reduce_fa() }, in: vk.Two256, out: vk.P, ref: func(x *big.Int) *big.Int { return x }, mod: vk.P, eq: true},
	{name: "Reduce_fb", impl: func(z, x *U) { z.Reduce_fb() }, in: twoP, out: vk.P, ref: func(x *big.Int) *big.Int { return x }, mod: vk.P, eq: true},
	{name: "Reduce_ca", impl: func(z, x *U) { z.Reduce_ca() }, in: vk.Two256, out: cBound, ref: func(x *big.Int) *big.Int { return x }, mod: vk.P, eq: true},
	{name: "DoubleEqAndReduce_a", impl: func(z, x *U) { z.DoubleEqAndReduce_a() }, in: vk.Two256, out: vk.Two256, ref: func(x *big.Int) *big.Int { return vk.Add(x, x) }, mod: vk.P, eq: true},
	{name: "SquareEqAndReduce_a", impl: func(z, x *U) { z.SquareEqAndReduce_a() }, in: vk.Two256, out: vk.Two256, ref: func(x *big.Int) *big.Int { return vk.Mul(x, x) }, mod: vk.P, eq: true},
	{name: "SquareAndReduce_a", impl: func(z, x *U) { z.SquareAndReduce_a(x) }, in: vk.Two256, out: vk.Two256, ref: func(x *big.Int) *big.Int { return vk.Mul(x, x) }, mod: vk.P},
	{name: "ComputeModularNegative_Weak_a", impl: func(z, x *U) { *z = x.ComputeModularNegative_Weak_a() }, in: vk.Two256, out: vk.Two256, ref: neg, mod: vk.P},
}

// partners returns operands y such that x+y, x-y or y-x hits a center (modulo 2^256)
func partners(x *big.Int, k int64) (out []*big.Int) {
	for _, c := range vk.Around(k, centers()...) {
		out = append(out, vk.Mod(vk.Sub(c, x), vk.Two256), vk.Mod(vk.Sub(x, c), vk.Two256), vk.Mod(vk.Add(x, c), vk.Two256))
	}
	return
}

// limbDistances returns +-d for every d whose limbs are all taken from a few extreme values
func limbDistances(thorough bool) (out []*big.Int) {
	al := []uint64{0, 1, 1 << 63, math.MaxUint64}
	if thorough {
		al = append(al, 4, 1<<32)
	}
	for _, d := range vk.Limbs(4, al...) {
		out = append(out, d, neg(d))
	}
	return
}

func exponentSet(level int) []*big.Int {
	var e []*big.Int
	e = append(e, vk.Around(2, vk.BI(0), vk.P, vk.R, twoP, vk.Two256, new(big.Int).Rsh(vk.P, 1), vk.Pow2(64), vk.Pow2(128), vk.Pow2(192))...)
	for i := int64(0); i < 40; i++ {
		e = append(e, vk.BI(i))
	}
	for i := uint(0); i < 256; i += 13 {
		e = append(e, vk.Pow2(i), vk.Sub(vk.Pow2(i), one))
	}
	for i := uint64(0); i < uint64(6+40*level); i++ {
		e = append(e, vk.Generic(i+50, vk.Two256))
	}
	return vk.Uniq(e, vk.BI(0), vk.Two256)
}

func baseSet(level int) []*big.Int {
	b := vk.Around(1, vk.BI(0), vk.P, twoP, cBound, vk.Two256, vk.Pow2(128), vk.Mod(vk.Two256, vk.P), vk.Mod(vk.Two512, vk.P))
	for i := uint64(0); i < uint64(4+10*level); i++ {
		b = append(b, vk.Generic(i+90, vk.Two256), vk.Sub(vk.Two256, vk.Generic(i+90, vk.Pow2(200))))
	}
	return vk.Uniq(b, vk.BI(0), vk.Two256)
}

func f02(r *vk.Run) {
	level := 1
	if r.Thorough {
		level = 2
	}
	V := values256(level)
	UV := make([]U, len(V))
	for i := range V {
		UV[i] = mkU(V[i])
	}
	r.Extra("value_set_size", len(V))
	modOps1 := modOps1[:len(modOps1):len(modOps1)]
	for name, f := range reduceVariants() {
		f := f
		in := twoP
		if strings.HasPrefix(name, "reduce_fa") {
			in = vk.Two256
		}
		modOps1 = append(modOps1, op1{name: name, impl: func(z, x *U) { f(z) }, in: in, out: vk.P, ref: func(x *big.Int) *big.Int { return x }, mod: vk.P, eq: true})
	}
	r.Extra("unexported_reduction_variants", len(reduceVariants()))
	r.Each(len(V), func(i int) string { return fmt.Sprintf("mod x=%#x", V[i]) }, func(t *vk.T, i int) {
		x, xu := V[i], UV[i]
		for k := range modOps1 {
			modOps1[k].check(t, x, xu)
		}
		a := xu
		if !a.IsReduced_a() || a.IsReduced_b() != (x.Cmp(twoP) < 0) || a.IsReduced_c() != (x.Cmp(cBound) < 0) || a.IsReduced_f() != (x.Cmp(vk.P) < 0) || a != xu {
			t.Failf("reducedness predicates wrong for %#x", x)
		}
		xm := vk.Mod(x, vk.P)
		for alias := 0; alias < 2; alias++ {
			z := garbage[1]
			zp := &z
			a = xu
			if alias == 1 {
				zp = &a
			}
			ok := zp.ModularInverse_a_NAIVEHAC(&a)
			if ok != (xm.Sign() != 0) {
				t.Failf("ModularInverse(%#x) says %v", x, ok)
			} else if ok && vk.Mod(vk.Mul(toI(zp), x), vk.P).Cmp(one) != 0 {
				t.Failf("ModularInverse(%#x) = %#x is wrong", x, toI(zp))
			}
			if alias == 0 && a != xu {
				t.Failf("ModularInverse(%#x) modified its argument", x)
			}
		}
		t.Eval(3)
		for j := range V {
			for k := range modOps2 {
				modOps2[k].check(t, x, V[j], xu, UV[j])
			}
			t.StateH(uint64(i)<<32 | uint64(j))
		}
		for j, y := range partners(x, int64(1+level)) {
			yu := mkU(y)
			for k := range modOps2 {
				modOps2[k].check(t, x, y, xu, yu)
			}
			t.StateH(1<<63 | uint64(i)<<32 | uint64(j))
		}
	})
	// results of a doubling, a sum or a difference whose distance from a range limit has an arbitrary pattern of extreme limbs
	D := limbDistances(r.Thorough)
	C := centers()
	var halves []*big.Int
	for _, c := range C {
		for _, o := range []*big.Int{vk.BI(0), vk.P, twoP, vk.Two256, vk.Add(vk.Two256, vk.P)} {
			halves = append(halves, new(big.Int).Rsh(vk.Add(c, o), 1))
		}
	}
	halves = vk.Uniq(append(halves, C...), vk.BI(0), vk.Two256)
	r.Each(len(halves), func(i int) string { return fmt.Sprintf("mod near %#x", halves[i]) }, func(t *vk.T, i int) {
		for _, d := range D {
			x := vk.Mod(vk.Add(halves[i], d), vk.Two256)
			xu := mkU(x)
			for k := range modOps1 {
				modOps1[k].check(t, x, xu)
			}
		}
		t.State("near", halves[i].String())
	})
	X := append(vk.Around(0, C...), vk.Generic(11, vk.P), vk.Generic(12, vk.Two256), vk.Generic(13, cBound), vk.Sub(vk.Two256, vk.BI(5)))
	X = vk.Uniq(X, vk.BI(0), vk.Two256)
	r.Each(len(X)*len(C), func(n int) string { return fmt.Sprintf("mod pair near: x=%#x limit=%#x", X[n/len(C)], C[n%len(C)]) }, func(t *vk.T, n int) {
		x, c := X[n/len(C)], C[n%len(C)]
		xu := mkU(x)
		for _, d := range D {
			cd := vk.Add(c, d)
			for _, y := range []*big.Int{vk.Sub(cd, x), vk.Sub(x, cd), vk.Add(x, cd)} {
				y = vk.Mod(y, vk.Two256)
				yu := mkU(y)
				for k := range modOps2 {
					if modOps2[k].name != "MulAndReduce_a" && modOps2[k].name != "MulEqAndReduce_a" {
						modOps2[k].check(t, x, y, xu, yu)
					}
				}
			}
		}
		t.StateH(1<<62 | uint64(n))
	})
	// reduction of 512-bit numbers: quotients and remainders at boundaries
	var Q []*big.Int
	maxq := new(big.Int).Div(vk.Two512, vk.P)
	for _, q := range append(vk.Around(2, vk.BI(0), vk.P, vk.Two256, twoP, maxq, new(big.Int).Rsh(maxq, 1), vk.Pow2(64), vk.Pow2(192), vk.Pow2(320), vk.Pow2(255)), V...) {
		Q = append(Q, q)
	}
	for i := uint(0); i < 258; i++ {
		Q = append(Q, vk.Around(1, vk.Pow2(i))...)
	}
	Q = vk.Uniq(Q, vk.BI(0), vk.Add(maxq, one))
	R := vk.Uniq(vk.Around(2, vk.BI(0), vk.P, new(big.Int).Rsh(vk.P, 1), vk.Pow2(64), vk.Pow2(192)), vk.BI(0), vk.P)
	r.Each(len(Q), func(i int) string { return fmt.Sprintf("reduce512 quotient=%#x", Q[i]) }, func(t *vk.T, i int) {
		for _, rem := range R {
			x := vk.Add(vk.Mul(Q[i], vk.P), rem)
			if x.BitLen() > 512 {
				continue
			}
			z := garbage[1]
			z.ReduceUint512ToUint256_a(mk512(x))
			if vk.Mod(toI(&z), vk.P).Cmp(rem) != 0 {
				t.Failf("ReduceUint512(%#x) = %#x, should be congruent to %#x", x, toI(&z), rem)
			}
			t.Eval(1)
			t.State("512", x.String())
		}
	})
	W := vk.Limbs(8, 0, 1, math.MaxUint64)
	r.Each(len(W), func(i int) string { return fmt.Sprintf("reduce512 %#x", W[i]) }, func(t *vk.T, i int) {
		z := garbage[1]
		z.ReduceUint512ToUint256_a(mk512(W[i]))
		if vk.Mod(vk.Sub(toI(&z), W[i]), vk.P).Sign() != 0 {
			t.Failf("ReduceUint512(%#x) = %#x", W[i], toI(&z))
		}
		t.Eval(1)
		t.State("512", W[i].String())
	})
	B, E := baseSet(level), exponentSet(level)
	r.Each(len(B), func(i int) string { return fmt.Sprintf("exp base=%#x", B[i]) }, func(t *vk.T, i int) {
		for _, e := range E {
			want := new(big.Int).Exp(B[i], e, vk.P)
			checkExp(t, "ModularExponentiation_fa", B[i], e, want, func(z, b, e *U) { z.ModularExponentiation_fa(b, e) })
		}
	})
	r.Sample(fmt.Sprintf("x=%#x, y=%#x under every operation whose contract admits them", V[len(V)/2], V[len(V)-1]))
	r.Sample(fmt.Sprintf("512-bit: %#x * p + %#x", Q[len(Q)-1], R[len(R)-1]))
}

func checkExp(t *vk.T, name string, b, e, want *big.Int, impl func(z, b, e *U)) {
	bu, eu := mkU(b), mkU(e)
	for alias := 0; alias < 3; alias++ {
		a, x, z := bu, eu, garbage[1]
		zp := []*U{&z, &a, &x}[alias]
		impl(zp, &a, &x)
		if toI(zp).Cmp(want) != 0 {
			t.Failf("%s(%#x, %#x) [aliasing %d] = %#x, should be %#x", name, b, e, alias, toI(zp), want)
		}
		if alias != 1 && a != bu || alias != 2 && x != eu {
			t.Failf("%s(%#x, %#x) modified an argument", name, b, e)
		}
		t.Eval(1)
	}
	if b.Cmp(e) == 0 {
		a := bu
		impl(&a, &a, &a)
		if toI(&a).Cmp(want) != 0 {
			t.Failf("%s(%#x, same) fully aliased = %#x, should be %#x", name, b, toI(&a), want)
		}
	}
	t.State(name, b.String(), e.String())
}

var rInv = new(big.Int).ModInverse(vk.Two256, vk.P)

func f03(r *vk.Run) {
	level := 1
	if r.Thorough {
		level = 2
	}
	V := vk.Uniq(values256(level), vk.BI(0), cBound)
	// values whose Montgomery product is at a range boundary: multiples of 2^256 mod p etc.
	for _, c := range vk.Around(1, vk.BI(0), vk.P, new(big.Int).Rsh(vk.P, 1)) {
		V = append(V, vk.Mod(vk.Mul(c, vk.Two256), vk.P), vk.Mod(vk.Mul(c, vk.Two512), vk.P), vk.Mod(vk.Mul(c, rInv), vk.P))
	}
	V = vk.Uniq(V, vk.BI(0), cBound)
	UV := make([]U, len(V))
	for i := range V {
		UV[i] = mkU(V[i])
	}
	r.Extra("value_set_size", len(V))
	mulref := func(x, y *big.Int) *big.Int { return vk.Mul(vk.Mul(x, y), rInv) }
	ops2 := []op2{{name: "MulMontgomery_c", impl: func(z, x, y *U) uint64 { z.MulMontgomery_c(x, y); return 0 }, in: cBound, out: cBound, ref: mulref, mod: vk.P}}
	for name, f := range mulVariants() {
		f := f
		ops2 = append(ops2, op2{name: name, impl: func(z, x, y *U) uint64 { f(z, x, y); return 0 }, in: cBound, out: cBound, ref: mulref, mod: vk.P})
	}
	r.Extra("unexported_multiplication_variants", len(ops2)-1)
	r.Extra("unexported_exponentiation_variants", len(expVariants()))
	check2 := func(t *vk.T, x, y *big.Int, xu, yu U) {
		for k := range ops2 {
			ops2[k].check(t, x, y, xu, yu)
		}
	}
	from := func(x *big.Int) *big.Int { return vk.Mul(x, rInv) }
	ops1 := []op1{
		{name: "SquareMontgomery_c", impl: func(z, x *U) { z.SquareMontgomery_c(x) }, in: cBound, out: cBound, ref: func(x *big.Int) *big.Int { return mulref(x, x) }, mod: vk.P},
		{name: "FromMontgomeryRepresentation_fc", impl: func(z, x *U) { z.FromMontgomeryRepresentation_fc(x) }, in: cBound, out: vk.P, ref: from, mod: vk.P},
		{name: "ToNonMontgomery_fc", impl: func(z, x *U) { *z = x.ToNonMontgomery_fc() }, in: cBound, out: vk.P, ref: from, mod: vk.P},
		{name: "ConvertToMontgomeryRepresentation_c", impl: func(z, x *U) { z.ConvertToMontgomeryRepresentation_c(x) }, in: cBound, out: cBound, ref: func(x *big.Int) *big.Int { return vk.Mul(x, vk.Two256) }, mod: vk.P},
		{name: "Convert;From", impl: func(z, x *U) { z.ConvertToMontgomeryRepresentation_c(x); z.FromMontgomeryRepresentation_fc(z) }, in: cBound, out: vk.P, ref: func(x *big.Int) *big.Int { return x }, mod: vk.P},
		{name: "From;Convert", impl: func(z, x *U) { z.FromMontgomeryRepresentation_fc(x); z.ConvertToMontgomeryRepresentation_c(z) }, in: cBound, out: cBound, ref: func(x *big.Int) *big.Int { return x }, mod: vk.P},
	}
	r.Each(len(V), func(i int) string { return fmt.Sprintf("mont x=%#x", V[i]) }, func(t *vk.T, i int) {
		for k := range ops1 {
			ops1[k].check(t, V[i], UV[i])
		}
		for j := range V {
			check2(t, V[i], V[j], UV[i], UV[j])
			t.StateH(uint64(i)<<32 | uint64(j))
		}
		// partners for which the product is congruent to a boundary value
		if xm := new(big.Int).ModInverse(V[i], vk.P); xm != nil {
			for _, c := range vk.Around(1, vk.BI(0), vk.P, vk.Sub(cBound, vk.P)) {
				y := vk.Mod(vk.Mul(vk.Mul(c, xm), vk.Two256), vk.P)
				check2(t, V[i], y, UV[i], mkU(y))
				y2 := vk.Add(y, vk.P)
				if y2.Cmp(cBound) < 0 {
					check2(t, V[i], y2, UV[i], mkU(y2))
				}
				t.State("partner", V[i].String(), y.String())
			}
		}
	})
	// factors for which the words of the quotient in the reduction are all extreme: x*y + Q*p is divisible by 2^256 for Q with extreme limbs;
	// and factors whose product differs from a range limit by a number with extreme limbs.
	D := limbDistances(r.Thorough)
	al := []uint64{0, 1, 2, 1 << 32, 1 << 63, math.MaxUint64 - 1, math.MaxUint64}
	if r.Thorough {
		al = append(al, 3, 1<<33, 1<<62, math.MaxUint64-math.MaxUint32)
	}
	Q := vk.Limbs(4, al...)
	var X []*big.Int
	for _, x := range append(vk.Around(0, vk.P, vk.Sub(cBound, vk.P), vk.Pow2(192), vk.Add(vk.Pow2(192), vk.BI(1)), vk.Sub(vk.Pow2(254), vk.BI(1)), vk.Sub(vk.Pow2(64), vk.BI(1))),
		vk.BI(1), vk.BI(3), vk.Sub(vk.P, vk.BI(2)), vk.Sub(cBound, vk.BI(2)), vk.Sub(cBound, vk.BI(1)), vk.Generic(31, vk.P), vk.Generic(32, vk.P), vk.Generic(33, cBound)) {
		X = append(X, x, vk.Add(x, vk.BI(1)))
	}
	X = vk.Uniq(X, vk.BI(0), cBound)
	r.Each(len(X)+1, func(i int) string {
		if i == len(X) {
			return "mont single"
		}
		return fmt.Sprintf("mont extreme quotient or distance, x=%#x", X[i])
	}, func(t *vk.T, i int) {
		if i == len(X) {
			for _, q := range Q {
				x := vk.Mod(neg(vk.Mul(q, vk.P)), vk.Two256)
				if x.Cmp(cBound) < 0 {
					for k := range ops1 {
						ops1[k].check(t, x, mkU(x))
					}
				}
			}
			for _, c := range centers() {
				for _, d := range D {
					w := vk.Add(c, d)
					for _, x := range []*big.Int{vk.Mod(vk.Mul(w, vk.Two256), vk.P), vk.Mod(vk.Mul(w, rInv), vk.P), vk.Mod(w, vk.Two256)} {
						for _, x := range []*big.Int{x, vk.Add(x, vk.P)} {
							if x.Cmp(cBound) < 0 {
								for k := range ops1 {
									ops1[k].check(t, x, mkU(x))
								}
							}
						}
					}
				}
			}
			return
		}
		x, xu := X[i], mkU(X[i])
		if inv := new(big.Int).ModInverse(x, vk.Two256); inv != nil {
			for _, q := range Q {
				y := vk.Mod(neg(vk.Mul(vk.Mul(q, vk.P), inv)), vk.Two256)
				if y.Cmp(cBound) < 0 {
					yu := mkU(y)
					check2(t, x, y, xu, yu)
					check2(t, y, x, yu, xu)
				}
			}
		}
		if inv := new(big.Int).ModInverse(x, vk.P); inv != nil {
			for _, c := range []*big.Int{vk.BI(0), vk.P, cBound, vk.Sub(cBound, vk.P), vk.Pow2(192), twoP} {
				for _, d := range D {
					y := vk.Mod(vk.Mul(vk.Mul(vk.Add(c, d), inv), vk.Two256), vk.P)
					for _, y := range []*big.Int{y, vk.Add(y, vk.P)} {
						if y.Cmp(cBound) < 0 {
							check2(t, x, y, xu, mkU(y))
						}
					}
				}
			}
		}
		t.StateH(1<<62 | uint64(i))
	})
	B, E := baseSet(level), exponentSet(level)
	r.Each(len(B), func(i int) string { return fmt.Sprintf("montexp base=%#x", B[i]) }, func(t *vk.T, i int) {
		for _, e := range E {
			want := vk.Mod(vk.Mul(new(big.Int).Exp(vk.Mul(B[i], rInv), e, vk.P), vk.Two256), vk.P)
			checkExp(t, "ModularExponentiationMontgomery_fa", B[i], e, want, func(z, b, e *U) { z.ModularExponentiationMontgomery_fa(b, e) })
			for name, f := range expVariants() {
				checkExp(t, name, B[i], e, want, f)
			}
		}
	})
	r.Sample(fmt.Sprintf("x=%#x, y=%#x", V[len(V)/2], V[len(V)-1]))
}
