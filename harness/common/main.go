//go:build go1.22

// Harness for package common (C01, C02).
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/exponents"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

type myOrder struct{ binary.ByteOrder } // foreign implementation
type sliceOrder struct {                // uncomparable foreign implementation
	binary.ByteOrder
	_ []int
}

func endians() map[string]common.FieldElementEndianness {
	var viaStd, viaStdB, viaFE, twice, again common.FieldElementEndianness
	viaStd.SetEndianness(binary.LittleEndian)
	viaStdB.SetEndianness(binary.BigEndian)
	viaFE.SetEndianness(common.BigEndian)
	twice.SetEndianness(common.BigEndian)
	twice.SetEndianness(common.LittleEndian)
	again.SetEndianness(viaStdB.GetEndianness())
	var zero common.FieldElementEndianness
	return map[string]common.FieldElementEndianness{"L:LittleEndian": common.LittleEndian, "B:BigEndian": common.BigEndian, "L:default": common.DefaultEndian, "L:zero": zero,
		"L:std little": viaStd, "B:std big": viaStdB, "B:from FE": viaFE, "L:twice": twice, "B:again": again}
}

func enc(x *big.Int, le bool) []byte {
	b := x.FillBytes(make([]byte, 32))
	if le {
		for i := 0; i < 16; i++ {
			b[i], b[31-i] = b[31-i], b[i]
		}
	}
	return b
}

func c01(r *vk.Run) {
	E := endians()
	var names []string
	for _, n := range []string{"L:LittleEndian", "B:BigEndian", "L:default", "L:zero", "L:std little", "B:std big", "B:from FE", "L:twice", "B:again"} {
		names = append(names, n)
	}
	var V []*big.Int
	for i := uint(0); i < 256; i++ {
		V = append(V, vk.Around(1, vk.Pow2(i))...)
		V = append(V, vk.Sub(vk.Sub(vk.Two256, vk.BI(1)), vk.Pow2(i)))
		for _, by := range []uint64{0x80, 0xff, 0x5a, 0x01} {
			if i%8 == 0 {
				V = append(V, new(big.Int).Lsh(new(big.Int).SetUint64(by), i))
			}
		}
	}
	V = append(V, new(big.Int).SetBytes([]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32}))
	V = append(V, vk.Limbs(4, 0, 1, 1<<63, 0x0123456789abcdef, math.MaxUint64)...)
	V = append(V, vk.Around(2, vk.P, vk.Mul(vk.P, vk.BI(2)), vk.R)...)
	for i := uint64(0); i < 200; i++ {
		V = append(V, vk.Generic(i, vk.Two256))
	}
	V = vk.Uniq(V, vk.BI(0), vk.Two256)
	r.Each(len(V), func(i int) string { return fmt.Sprintf("value %v", V[i]) }, func(t *vk.T, i int) {
		words := vk.ToLimbs4(V[i])
		for _, n := range names {
			e := E[n]
			le := n[0] == 'L'
			want := enc(V[i], le)
			var std binary.ByteOrder = binary.BigEndian
			if le {
				std = binary.LittleEndian
			}
			// writing into buffers of every length, sub-slices with larger capacity, with guard bytes
			for L := 0; L <= 40; L++ {
				if i%17 != 0 && L != 32 && L != 31 && L != 33 {
					continue
				}
				for variant := 0; variant < 2; variant++ {
					back := bytes.Repeat([]byte{0xA5}, 64)
					buf := back[8 : 8+L : 8+L]
					if variant == 1 {
						buf = back[8 : 8+L]
					}
					w := words
					did, _ := vk.Panics(func() {
						if (i+L)%2 == 0 {
							e.PutUint256(buf, w)
						} else {
							e.PutUint256_ptr(buf, &w)
						}
					})
					if did != (L < 32) {
						t.Failf("%s: PutUint256 into length %d: panicked=%v", n, L, did)
					}
					if L >= 32 && !bytes.Equal(back[8:40], want) {
						t.Failf("%s: PutUint256 wrote %x, should be %x", n, back[8:40], want)
					}
					for k, b := range back {
						if (k < 8 || k >= 40 || L < 32) && b != 0xA5 {
							t.Failf("%s: PutUint256 wrote outside of the 32 bytes at %d (len %d)", n, k-8, L)
						}
					}
					if w != words {
						t.Failf("PutUint256 modified its input")
					}
					// reading
					back = append(append(bytes.Repeat([]byte{0xA5}, 8), want...), bytes.Repeat([]byte{0x5A}, 24)...)
					in := back[8 : 8+L]
					cp := append([]byte(nil), back...)
					var got, got2 [4]uint64
					did, _ = vk.Panics(func() { got = e.Uint256(in) })
					did2, _ := vk.Panics(func() { e.Uint256_indirect(in, &got2) })
					if did != (L < 32) || did2 != (L < 32) {
						t.Failf("%s: Uint256 from length %d: panicked=%v,%v", n, L, did, did2)
					}
					if L >= 32 && (got != words || got2 != words) {
						t.Failf("%s: Uint256 of %x is %x resp. %x", n, want, got, got2)
					}
					if !bytes.Equal(cp, back) {
						t.Failf("reading modified the input")
					}
					t.Eval(3)
				}
			}
			var p1, p2 [32]byte
			b3 := make([]byte, 32)
			b4 := make([]byte, 32)
			w := words
			e.PutUint256_array(&p1, &w)
			e.PutUint256_ptr(b3, &w)
			e.PutUint256(b4, w)
			copy(p2[:], want)
			if !bytes.Equal(p1[:], want) || !bytes.Equal(b3, want) || !bytes.Equal(b4, want) || w != words {
				t.Failf("%s: the PutUint256 variants write %x, %x, %x, should be %x", n, p1, b3, b4, want)
			}
			var got [4]uint64
			e.Uint256_array(&p2, &got)
			if got != words || !bytes.Equal(p2[:], want) {
				t.Failf("%s: Uint256_array of %x is %x", n, want, got)
			}
			t.Eval(4)
			// narrower words agree with the standard order
			for L := 0; L <= 9; L++ {
				a, b := bytes.Repeat([]byte{7}, 12), bytes.Repeat([]byte{7}, 12)
				d1, _ := vk.Panics(func() { e.PutUint16(a[1:1+L], uint16(words[0])) })
				d2, _ := vk.Panics(func() { std.PutUint16(b[1:1+L], uint16(words[0])) })
				if d1 != d2 || !bytes.Equal(a, b) {
					t.Failf("%s: PutUint16 differs from the standard library", n)
				}
				d1, _ = vk.Panics(func() { e.PutUint32(a[1:1+L], uint32(words[1])) })
				d2, _ = vk.Panics(func() { std.PutUint32(b[1:1+L], uint32(words[1])) })
				if d1 != d2 || !bytes.Equal(a, b) {
					t.Failf("%s: PutUint32 differs from the standard library", n)
				}
				d1, _ = vk.Panics(func() { e.PutUint64(a[1:1+L], words[2]) })
				d2, _ = vk.Panics(func() { std.PutUint64(b[1:1+L], words[2]) })
				if d1 != d2 || !bytes.Equal(a, b) {
					t.Failf("%s: PutUint64 differs from the standard library", n)
				}
				var x, y uint64
				d1, _ = vk.Panics(func() { x = uint64(e.Uint16(want[3 : 3+L])) })
				d2, _ = vk.Panics(func() { y = uint64(std.Uint16(want[3 : 3+L])) })
				if d1 != d2 || x != y {
					t.Failf("%s: Uint16 differs from the standard library", n)
				}
				d1, _ = vk.Panics(func() { x = uint64(e.Uint32(want[3 : 3+L])) })
				d2, _ = vk.Panics(func() { y = uint64(std.Uint32(want[3 : 3+L])) })
				if d1 != d2 || x != y {
					t.Failf("%s: Uint32 differs from the standard library", n)
				}
				d1, _ = vk.Panics(func() { x = e.Uint64(want[3 : 3+L]) })
				d2, _ = vk.Panics(func() { y = std.Uint64(want[3 : 3+L]) })
				if d1 != d2 || x != y {
					t.Failf("%s: Uint64 differs from the standard library", n)
				}
				t.Eval(6)
			}
			t.State(n, V[i].String())
		}
	})
	r.Case("accepted byte orders", func(t *vk.T) {
		for _, n := range names {
			e := E[n]
			if e.StartsWithMSB() == (n[0] == 'L') || e.String() != map[byte]string{'L': "LittleEndian", 'B': "BigEndian"}[n[0]] {
				t.Failf("%s: StartsWithMSB or String wrong", n)
			}
			for _, m := range names {
				if (E[m] == e) != (n[0] == m[0]) {
					t.Failf("%s and %s compare wrongly", n, m)
				}
			}
			e.Validate()
		}
		for i, bad := range []binary.ByteOrder{nil, myOrder{binary.LittleEndian}, myOrder{binary.BigEndian}, &myOrder{binary.BigEndian}, sliceOrder{ByteOrder: binary.BigEndian}, myOrder{common.LittleEndian}} {
			for _, n := range names {
				e := E[n]
				before := e
				did, _ := vk.Panics(func() { e.SetEndianness(bad) })
				if !did {
					t.Failf("SetEndianness accepts unsupported byte order #%d", i)
				}
				if e != before {
					t.Failf("a refused SetEndianness changed the byte order")
				}
				t.Eval(1)
			}
		}
	})
	r.Sample(fmt.Sprintf("value %v in byte orders %v, buffer lengths 0..40", V[5], names))
}

func c02(r *vk.Run) {
	hist := []common.BitHeader{{}, common.MakeBitHeader(0b101, 3), common.MakeBitHeader(0xff, 8), common.MakeBitHeader(0, 8), common.MakeBitHeader(1, 1)}
	r.Each(65536, func(i int) string { return fmt.Sprintf("bits=%d len=%d", i&255, i>>8) }, func(t *vk.T, i int) {
		bits, ln := i&255, i>>8
		ok := ln <= 8 && bits < 1<<uint(min(ln, 8))
		var h, h2 common.BitHeader
		d1, _ := vk.Panics(func() { h = common.MakeBitHeader(common.PrefixBits(bits), uint8(ln)) })
		if d1 == ok {
			t.Failf("MakeBitHeader(%d,%d): panicked=%v", bits, ln, d1)
		}
		for _, start := range hist {
			h2 = start
			d2, _ := vk.Panics(func() { h2.SetBitHeader(common.PrefixBits(bits), uint8(ln)) })
			if d2 == ok {
				t.Failf("SetBitHeader(%d,%d): panicked=%v", bits, ln, d2)
			}
			t.Eval(1)
			if !ok {
				// a rejected call leaves a valid header: the old one
				if d3, _ := vk.Panics(func() { h2.Validate() }); d3 || h2 != start {
					t.Failf("the rejected SetBitHeader(%d,%d) turned header (%d,%d) into (%d,%d)", bits, ln, start.PrefixBits(), start.PrefixLen(), h2.PrefixBits(), h2.PrefixLen())
				}
				continue
			}
			if h != h2 {
				t.Failf("MakeBitHeader and SetBitHeader disagree for (%d,%d)", bits, ln)
			}
			var h3 common.BitHeader = start
			h3.SetBitHeaderFromBitHeader(h)
			if h3 != h || h3.GetBitHeader() != h || int(h3.PrefixBits()) != bits || int(h3.PrefixLen()) != ln || int(h.PrefixBits()) != bits || int(h.PrefixLen()) != ln {
				t.Failf("bit header (%d,%d) is not reproduced", bits, ln)
			}
			if d3, _ := vk.Panics(func() { h.Validate(); h2.Validate(); h3.Validate() }); d3 {
				t.Failf("valid bit header (%d,%d) fails validation", bits, ln)
			}
		}
		if !ok {
			return
		}
		// equality only with identical headers
		for ln2 := 0; ln2 <= 8; ln2++ {
			for b2 := 0; b2 < 1<<ln2; b2++ {
				if (common.MakeBitHeader(common.PrefixBits(b2), uint8(ln2)) == h) != (b2 == bits && ln2 == ln) {
					t.Failf("bit headers (%d,%d) and (%d,%d) compare wrongly", bits, ln, b2, ln2)
				}
			}
		}
		t.State(fmt.Sprint(bits, ln))
	})
	r.Case("constants", func(t *vk.T) {
		eq := func(name string, x, y *big.Int) {
			if x.Cmp(y) != 0 {
				t.Failf("%s is %v, should be %v", name, x, y)
			}
			t.Eval(1)
		}
		s := func(x string) *big.Int { return vk.Hex(x) }
		eq("BaseFieldSize_Int", common.BaseFieldSize_Int, vk.P)
		eq("BaseFieldSize_string", s(common.BaseFieldSize_string), vk.P)
		eq("GroupOrder_Int", common.GroupOrder_Int, vk.R)
		eq("GroupOrder_string", s(common.GroupOrder_string), vk.R)
		eq("Cofactor_Int", common.Cofactor_Int, vk.BI(4))
		eq("Cofactor_string", s(common.Cofactor_string), vk.BI(4))
		eq("CurveOrder_Int", common.CurveOrder_Int, vk.Mul(vk.R, vk.BI(4)))
		eq("CurveOrder_string", s(common.CurveOrder_string), vk.Mul(vk.R, vk.BI(4)))
		eq("CurveExponent_Int", common.CurveExponent_Int, vk.TwoR)
		eq("CurveExponent_string", s(common.CurveExponent_string), vk.TwoR)
		eq("EndomorphismEigenvalue_Int", common.EndomorphismEigenvalue_Int, vk.Lambda)
		eq("EndomorphismEigenvalue_string", s(common.EndomorphismEigenvalue_string), vk.Lambda)
		eq("eigenvalue^2 = -2", vk.Mod(vk.Mul(common.EndomorphismEigenvalue_Int, common.EndomorphismEigenvalue_Int), vk.R), vk.Sub(vk.R, vk.BI(2)))
		w := func(name string, ws [4]uint64, v *big.Int) { eq(name, vk.FromLimbs(ws[:]), v) }
		const m64 = math.MaxUint64
		w("BaseFieldSize", [4]uint64{common.BaseFieldSize & m64, common.BaseFieldSize >> 64 & m64, common.BaseFieldSize >> 128 & m64, common.BaseFieldSize >> 192}, vk.P)
		w("GroupOrder", [4]uint64{common.GroupOrder & m64, common.GroupOrder >> 64 & m64, common.GroupOrder >> 128 & m64, common.GroupOrder >> 192}, vk.R)
		w("CurveOrder", [4]uint64{common.CurveOrder & m64, common.CurveOrder >> 64 & m64, common.CurveOrder >> 128 & m64, common.CurveOrder >> 192}, vk.Mul(vk.R, vk.BI(4)))
		w("CurveExponent", [4]uint64{common.CurveExponent & m64, common.CurveExponent >> 64 & m64, common.CurveExponent >> 128 & m64, common.CurveExponent >> 192}, vk.TwoR)
		w("EndomorphismEigenvalue", [4]uint64{common.EndomorphismEigenvalue & m64, common.EndomorphismEigenvalue >> 64 & m64, common.EndomorphismEigenvalue >> 128 & m64, common.EndomorphismEigenvalue >> 192}, vk.Lambda)
		eq("Cofactor", vk.BI(common.Cofactor), vk.BI(4))
		eq("BaseFieldBitLength", vk.BI(common.BaseFieldBitLength), vk.BI(255))
		eq("BaseFieldByteLength", vk.BI(common.BaseFieldByteLength), vk.BI(32))
		eq("MaxLengthPrefixBits", vk.BI(common.MaxLengthPrefixBits), vk.BI(8))
		eq("One_Int", common.One_Int, vk.BI(1))
		eq("Two_Int", common.Two_Int, vk.BI(2))
		eq("MinusOne_Int", common.MinusOne_Int, vk.BI(-1))
		for k, v := range map[uint]*big.Int{32: common.TwoTo32_Int, 64: common.TwoTo64_Int, 128: common.TwoTo128_Int, 256: common.TwoTo256_Int, 512: common.TwoTo512_Int} {
			eq(fmt.Sprintf("2^%d", k), v, vk.Pow2(k))
		}
		eq("exponents.GroupOrder", exponents.GroupOrder_Int, vk.R)
		if !common.TrustedInput.Bool() || common.UntrustedInput.Bool() || common.TrustLevelFromBool(true) != common.TrustedInput || common.TrustLevelFromBool(false) != common.UntrustedInput || (common.IsInputTrusted{}) != common.UntrustedInput {
			t.Failf("trust levels")
		}
		var sr common.SubgroupRestriction
		for _, seq := range [][]bool{{true}, {false}, {true, false}, {false, true}, {true, true}, {false, false, true, false}} {
			for _, b := range seq {
				sr.SetSubgroupRestriction(b)
				if sr.IsSubgroupOnly() != b {
					t.Failf("SubgroupRestriction does not report what was set")
				}
				var so common.SubgroupOnly
				if d, _ := vk.Panics(func() { so.SetSubgroupRestriction(b) }); d == b || !so.IsSubgroupOnly() {
					t.Failf("SubgroupOnly accepts to be unset")
				}
				t.Eval(1)
			}
		}
		if new(common.SubgroupRestriction).IsSubgroupOnly() {
			t.Failf("default subgroup restriction")
		}
	})
	r.Sample("bits=5 len=3 accepted; bits=8 len=3 refused; bits=0 len=9 refused")
}

func main() {
	vk.Main(
		vk.Property{ID: "C01", Level: "exploration", Run: c01,
			Rule:        "every (byte order, value) of the bounded value set that distinguishes all bit and byte positions, times buffer lengths 0..40 and slice variants, times all reading and writing entry points; distinct = (byte order, value) pairs",
			Assumptions: []string{"math/big and encoding/binary are correct"}},
		vk.Property{ID: "C02", Level: "exploration", Run: c02,
			Rule:        "all 65536 pairs (prefix bits, prefix length) x start values, complete; distinct non-trivial = accepted headers; plus every named constant against independently written values",
			Assumptions: []string{"the constants written in the harness are those of the Bandersnatch specification"}},
	)
}
