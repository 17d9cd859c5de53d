//go:build go1.22

package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

var two192, two256, two512 = vk.Pow2(192), vk.Pow2(256), vk.Pow2(512)

func modCheck(t *vk.T, m *big.Int) {
	w := mkU(m)
	re, mmu0, mmu1, back := modulus(w)
	if back != [4]uint64(w) {
		t.Failf("modulus %#x is reported as %x", m, back)
	}
	r := vk.FromLimbs(re[:])
	lo := vk.Mul(r, m)
	if lo.Cmp(two512) >= 0 || lo.Add(lo, m).Cmp(two512) < 0 {
		t.Failf("modulus %#x: reciprocal %#x is off", m, r)
	}
	if pow2 := m.TrailingZeroBits() == uint(m.BitLen()-1); (lo.Cmp(two512) == 0) != pow2 {
		t.Failf("modulus %#x: reciprocal %#x: re*m+m==2^512 is %v", m, r, !pow2)
	}
	// largest multiple below 2^256 and smallest at least 2^256 (mod 2^256)
	q := new(big.Int).Div(vk.Sub(two256, vk.BI(1)), m)
	q.Mul(q, m)
	if vk.FromLimbs(mmu0[:]).Cmp(q) != 0 {
		t.Failf("modulus %#x: largest multiple below 2^256 is %#x, should be %#x", m, vk.FromLimbs(mmu0[:]), q)
	}
	q.Add(q, m).Sub(q, two256)
	if vk.FromLimbs(mmu1[:]).Cmp(q) != 0 {
		t.Failf("modulus %#x: smallest multiple from 2^256 on is %#x, should be %#x + 2^256", m, vk.FromLimbs(mmu1[:]), q)
	}
	t.Eval(1)
}

func f11(r *vk.Run) {
	if !haveModulus {
		r.Incomplete()
		return
	}
	ok := func(m *big.Int) bool { return m.Cmp(two192) >= 0 && m.Cmp(two256) < 0 }
	// too small
	r.Case("small moduli", func(t *vk.T) {
		for _, m := range append(vk.Limbs(3, 0, 1, 1<<63, math.MaxUint64), vk.BI(0)) {
			if did, _ := vk.Panics(func() { modulus(mkU(m)) }); !did {
				t.Failf("modulus %#x below 2^192 is accepted", m)
			}
			t.State(m.String())
		}
	})
	// every leading pattern
	bitsN := 16
	if r.Thorough {
		bitsN = 20
	}
	chunk := 1 << (bitsN - 1 - 8)
	r.Each(256, func(i int) string { return fmt.Sprintf("leading bits, block %d", i) }, func(t *vk.T, i int) {
		for j := 0; j < chunk; j++ {
			lead := vk.BI(int64(1<<(bitsN-1) | i*chunk | j))
			for _, top := range []int{193, 194, 200, 208, 224, 225, 240, 255, 256} {
				if t.Quick() && (i+j+top)%3 != 0 && top != 256 {
					continue
				}
				sh := uint(top - bitsN)
				m := new(big.Int).Lsh(lead, sh)
				if top < 193 || !ok(m) {
					continue
				}
				one := vk.Pow2(sh)
				for _, d := range []*big.Int{vk.BI(0), vk.BI(1), vk.Sub(one, vk.BI(1)), vk.Sub(vk.Pow2(128), vk.BI(1)), vk.Sub(one, vk.Pow2(128)), vk.Sub(one, vk.Pow2(sh-16)), vk.Generic(uint64(i), one)} {
					modCheck(t, vk.Add(m, d))
					t.StateH(vk.Mix(uint64(i*chunk+j)<<16 ^ uint64(top) ^ d.Uint64()))
				}
			}
		}
	})
	// limb patterns
	L := []uint64{0, 1, 2, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 63, 1<<63 + 1, 1<<63 - 1, math.MaxUint64, math.MaxUint64 - 1, 0xffffffff00000000}
	n := len(L)
	r.Each(n*n, func(i int) string { return fmt.Sprintf("limbs %#x, %#x", L[i/n], L[i%n]) }, func(t *vk.T, i int) {
		for _, a := range L {
			for _, b := range L {
				if m := vk.FromLimbs([]uint64{a, b, L[i%n], L[i/n]}); ok(m) {
					modCheck(t, m)
					t.State(m.String())
				}
			}
		}
	})
	// neighbours of powers of two, of the quotients 2^k/j and of square roots
	var vals []*big.Int
	for k := uint(192); k <= 256; k++ {
		vals = append(vals, vk.Around(8, vk.Pow2(k))...)
		for j := int64(3); j < 40; j += 2 {
			vals = append(vals, vk.Around(1, new(big.Int).Div(vk.Pow2(k+6), vk.BI(j)), vk.Mul(vk.Pow2(k-6), vk.BI(j)))...)
		}
		s := new(big.Int).Sqrt(vk.Pow2(2*k - 1))
		vals = append(vals, vk.Around(1, s)...)
	}
	vals = append(vals, vk.Around(2, vk.P, vk.Add(vk.P, vk.P), vk.R, vk.TwoR)...)
	for i := uint64(0); i < 20000; i++ {
		vals = append(vals, vk.Generic(i, vk.Pow2(uint(193+i%64))))
	}
	vals = vk.Uniq(vals, two192, two256)
	r.Each(256, func(i int) string { return fmt.Sprintf("value block %d", i) }, func(t *vk.T, i int) {
		for j := i; j < len(vals); j += 256 {
			modCheck(t, vals[j])
			t.State(vals[j].String())
		}
	})
	r.Extra("values", len(vals))
	r.Sample("modulus 0x8000...0001 (reciprocal one below that of the power of two)")
}
