//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strings"
	"unsafe"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/exponents"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

// konst is one exported variable that stands for a constant
type konst struct {
	name string
	v    reflect.Value // pointer to the variable (for *big.Int: the *big.Int)
	want func() string // "" or what is wrong with its present value
	raw  []byte        // memory at the start of the run
	bits []big.Word
	sign int
}

var konsts []*konst

func konstRaw(p unsafe.Pointer, n uintptr) []byte { return unsafe.Slice((*byte)(p), n) }

func (k *konst) big() *big.Int {
	b, _ := k.v.Interface().(*big.Int)
	return b
}

func (k *konst) snap() {
	if b := k.big(); b != nil {
		k.bits = append([]big.Word(nil), b.Bits()...)
		k.sign = b.Sign()
		return
	}
	k.raw = append([]byte(nil), konstRaw(k.v.UnsafePointer(), k.v.Type().Elem().Size())...)
}

func (k *konst) restore() {
	if b := k.big(); b != nil {
		b.SetBits(append([]big.Word(nil), k.bits...))
		if k.sign < 0 {
			b.Neg(b)
		}
		return
	}
	copy(konstRaw(k.v.UnsafePointer(), k.v.Type().Elem().Size()), k.raw)
}

// bad returns "" or what is wrong; cheap if the memory is unchanged
func (k *konst) bad() string {
	if b := k.big(); b != nil {
		w := b.Bits()
		if b.Sign() == k.sign && len(w) == len(k.bits) {
			same := true
			for i := range w {
				same = same && w[i] == k.bits[i]
			}
			if same {
				return ""
			}
		}
	} else if bytes.Equal(konstRaw(k.v.UnsafePointer(), k.v.Type().Elem().Size()), k.raw) {
		return ""
	}
	if s := k.want(); s != "" {
		return k.name + ": " + s
	}
	return ""
}

func allBad() string {
	for _, k := range konsts {
		if s := k.bad(); s != "" {
			return s
		}
	}
	return ""
}

func initKonsts() {
	if konsts != nil {
		return
	}
	add := func(name string, p any, want func() string) {
		konsts = append(konsts, &konst{name: name, v: reflect.ValueOf(p), want: want})
	}
	addBig := func(name string, p *big.Int, v *big.Int) {
		v = new(big.Int).Set(v)
		add(name, p, func() string {
			if p.Cmp(v) != 0 {
				return fmt.Sprintf("is %v, should be %v", p, v)
			}
			return ""
		})
	}
	addFE := func(name string, p *fe.FieldElement, v *big.Int) {
		v = vk.Mod(v, vk.P)
		add(name, p, func() string {
			if g := bigF(*p); g.Cmp(v) != 0 {
				return fmt.Sprintf("is %v, should be %v", g, v)
			}
			return ""
		})
	}
	addPt := func(name string, p PI, m mp) {
		add(name, p, func() string { return shows(copyRaw(p), m) })
	}
	words := func(name string, p any, bits uint, v *big.Int) {
		add(name, p, func() string {
			a := reflect.ValueOf(p).Elem()
			for i := 0; i < a.Len(); i++ {
				w := vk.Mod(new(big.Int).Rsh(v, uint(i)*bits), vk.Pow2(bits)).Uint64()
				if a.Index(i).Uint() != w {
					return fmt.Sprintf("word %v is %x, should be %x", i, a.Index(i).Uint(), w)
				}
			}
			return ""
		})
	}
	n4 := vk.Mul(vk.R, vk.BI(4))
	addBig("common.One_Int", common.One_Int, vk.BI(1))
	addBig("common.Two_Int", common.Two_Int, vk.BI(2))
	addBig("common.MinusOne_Int", common.MinusOne_Int, vk.BI(-1))
	addBig("common.TwoTo32_Int", common.TwoTo32_Int, vk.Pow2(32))
	addBig("common.TwoTo64_Int", common.TwoTo64_Int, vk.Pow2(64))
	addBig("common.TwoTo128_Int", common.TwoTo128_Int, vk.Pow2(128))
	addBig("common.TwoTo256_Int", common.TwoTo256_Int, vk.Pow2(256))
	addBig("common.TwoTo512_Int", common.TwoTo512_Int, vk.Pow2(512))
	addBig("common.BaseFieldSize_Int", common.BaseFieldSize_Int, vk.P)
	addBig("common.GroupOrder_Int", common.GroupOrder_Int, vk.R)
	addBig("common.Cofactor_Int", common.Cofactor_Int, vk.BI(4))
	addBig("common.CurveOrder_Int", common.CurveOrder_Int, n4)
	addBig("common.CurveExponent_Int", common.CurveExponent_Int, vk.TwoR)
	addBig("common.EndomorphismEigenvalue_Int", common.EndomorphismEigenvalue_Int, vk.Lambda)
	addBig("exponents.CurveExponent_Int", exponents.CurveExponent_Int, vk.TwoR)
	addBig("exponents.CurveOrder_Int", exponents.CurveOrder_Int, n4)
	addBig("exponents.GroupOrder_Int", exponents.GroupOrder_Int, vk.R)
	addBig("exponents.EndomorphismEigenvalue_Int", exponents.EndomorphismEigenvalue_Int, vk.Lambda)
	addBig("fieldElements.BaseFieldSize_Int", fe.BaseFieldSize_Int, vk.P)
	addBig("curvePoints.BaseFieldSize_Int", cp.BaseFieldSize_Int, vk.P)
	addBig("curvePoints.GroupOrder_Int", cp.GroupOrder_Int, vk.R)
	addBig("curvePoints.EndomorphismEigenvalue_Int", cp.EndomorphismEigenvalue_Int, vk.Lambda)
	addBig("curvePoints.CurveParameterA_Int", cp.CurveParameterA_Int, vk.BI(-5))
	addBig("curvePoints.CurveParameterD_Int", cp.CurveParameterD_Int, curvD)
	addFE("curvePoints.CurveParameterA_fe", &cp.CurveParameterA_fe, vk.BI(-5))
	addFE("curvePoints.CurveParameterD_fe", &cp.CurveParameterD_fe, curvD)
	addFE("FieldElementOne", &fe.FieldElementOne, vk.BI(1))
	addFE("FieldElementZero", &fe.FieldElementZero, vk.BI(0))
	addFE("FieldElementMinusOne", &fe.FieldElementMinusOne, vk.BI(-1))
	addFE("FieldElementTwo", &fe.FieldElementTwo, vk.BI(2))
	dyadic := new(big.Int)
	dyadic.SetString("25609050042867742175647027564004846496793091465619562978882159513284", 10)
	addFE("DyadicRootOfUnity_fe", &fe.DyadicRootOfUnity_fe, dyadic)
	odd := new(big.Int).Rsh(vk.Sub(vk.P, vk.BI(1)), 32)
	words("BaseFieldMultiplicateOddOrder_uint256", &fe.BaseFieldMultiplicateOddOrder_uint256, 64, odd)
	words("fieldElements.BaseFieldSize_64", &fe.BaseFieldSize_64, 64, vk.P)
	words("fieldElements.BaseFieldSize_32", &fe.BaseFieldSize_32, 32, vk.P)
	words("fieldElements.BaseFieldSize_16", &fe.BaseFieldSize_16, 16, vk.P)
	words("fieldElements.BaseFieldSize_8", &fe.BaseFieldSize_8, 8, vk.P)
	words("curvePoints.BaseFieldSize_64", &cp.BaseFieldSize_64, 64, vk.P)
	words("curvePoints.BaseFieldSize_32", &cp.BaseFieldSize_32, 32, vk.P)
	O, A, E1, E2 := mk(vk.BI(0), tN), mk(vk.BI(0), tA), mk(vk.BI(0), tE1), mk(vk.BI(0), tE2)
	addPt("NeutralElement_xtw_subgroup", &cp.NeutralElement_xtw_subgroup, O)
	addPt("NeutralElement_xtw_full", &cp.NeutralElement_xtw_full, O)
	addPt("NeutralElement_axtw_subgroup", &cp.NeutralElement_axtw_subgroup, O)
	addPt("NeutralElement_axtw_full", &cp.NeutralElement_axtw_full, O)
	addPt("NeutralElement_efgh_subgroup", &cp.NeutralElement_efgh_subgroup, O)
	addPt("NeutralElement_efgh_full", &cp.NeutralElement_efgh_full, O)
	addPt("AffineOrderTwoPoint_xtw", &cp.AffineOrderTwoPoint_xtw, A)
	addPt("AffineOrderTwoPoint_axtw", &cp.AffineOrderTwoPoint_axtw, A)
	addPt("AffineOrderTwoPoint_efgh", &cp.AffineOrderTwoPoint_efgh, A)
	addPt("InfinitePoint1_xtw", &cp.InfinitePoint1_xtw, E1)
	addPt("InfinitePoint2_xtw", &cp.InfinitePoint2_xtw, E2)
	addPt("InfinitePoint1_efgh", &cp.InfinitePoint1_efgh, E1)
	addPt("InfinitePoint2_efgh", &cp.InfinitePoint2_efgh, E2)
	addPt("SubgroupGenerator_xtw_subgroup", &cp.SubgroupGenerator_xtw_subgroup, mk(vk.BI(1), tN))
	for _, k := range konsts {
		k.snap()
	}
}

// c04pool gives, for a parameter or receiver type, makers of fresh values (each call of a maker gives an independent copy) and the
// exported constants of that type
type maker struct {
	name string
	mk   func() reflect.Value
}

type fmtState struct{ bytes.Buffer }

func (*fmtState) Width() (int, bool)     { return 0, false }
func (*fmtState) Precision() (int, bool) { return 0, false }
func (*fmtState) Flag(c int) bool        { return c == '+' }

func c04makers() (out []maker) {
	add := func(name string, f func() any) {
		out = append(out, maker{name, func() reflect.Value { return reflect.ValueOf(f()) }})
	}
	nums := []*big.Int{vk.BI(5), vk.BI(0), vk.BI(1), vk.Sub(vk.P, vk.BI(1)), vk.Generic(7, vk.P), vk.P,
		vk.Lambda, vk.R, vk.TwoR, curvD, vk.BI(2), vk.BI(4), vk.Sub(vk.P, vk.BI(5)), vk.Mul(vk.R, vk.BI(4)), vk.Pow2(32), vk.Pow2(64), vk.Pow2(128), vk.Sub(vk.Pow2(256), vk.BI(1)),
		new(big.Int).Rsh(vk.Sub(vk.P, vk.BI(1)), 32), vk.Sub(vk.R, vk.Lambda), vk.Sub(vk.R, vk.BI(1)), sqDA}
	for i, n := range nums {
		n := n
		alt := i%2 == 1
		add("fe "+n.String(), func() any { f := mkF(vk.Mod(n, vk.P), alt); return &f })
		add("uint256 "+n.String(), func() any { u := fe.Uint256(vk.ToLimbs4(n)); return &u })
		add("uint512 "+n.String(), func() any { u := fe.BigIntToUint512(n); return &u })
		add("exponent "+n.String(), func() any { var e exponents.Exponent; e.SetBigInt(n); return &e })
		add("int "+n.String(), func() any { return new(big.Int).Set(n) })
	}
	add("exponent 2r-1", func() any { var e exponents.Exponent; e.SetBigInt(vk.Sub(vk.TwoR, vk.BI(1))); return &e })
	add("int -1", func() any { return big.NewInt(-1) })
	add("int -5", func() any { return big.NewInt(-5) })
	add("int 2^512", func() any { return vk.Pow2(512) })
	for typ := 0; typ < nTypes; typ++ {
		typ := typ
		for _, m := range []mp{mk(vk.BI(5), tN), mk(vk.BI(0), tN), mk(vk.BI(0), tA), mk(vk.BI(0), tE1), mk(vk.BI(3), tE2)} {
			if rs := reps(typ, m, 1); len(rs) > 0 {
				rp := rs[0]
				add(rp.String(), func() any { return copyRaw(rp.p) })
			}
		}
		add("uninitialized "+typeNames[typ], func() any { return fresh(typ) })
	}
	for _, b := range []bool{false, true} {
		b := b
		add(fmt.Sprint(b), func() any { return b })
		add(fmt.Sprint("trust ", b), func() any { return common.TrustLevelFromBool(b) })
	}
	for _, v := range []int64{1, 0, 3, -1} {
		v := v
		add(fmt.Sprint(v), func() any { return int(v) })
		add(fmt.Sprint(v), func() any { return v })
		add(fmt.Sprint(v), func() any { return int32(v) })
		if v >= 0 {
			add(fmt.Sprint(v), func() any { return uint64(v) })
			add(fmt.Sprint(v), func() any { return uint(v) })
			add(fmt.Sprint(v), func() any { return uint8(v) })
			add(fmt.Sprint(v), func() any { return uint32(v) })
		}
	}
	add("little endian", func() any { return common.LittleEndian })
	add("big endian", func() any { return common.BigEndian })
	add("header 0b0/1", func() any { return common.MakeBitHeader(0, 1) })
	add("header 0b1/1", func() any { return common.MakeBitHeader(1, 1) })
	add("prefix 0", func() any { return common.PrefixBits(0) })
	add("buffer", func() any { return new(bytes.Buffer) })
	add("bytes", func() any { return make([]byte, 64) })
	for i, pm := range []mp{mk(vk.BI(5), tN), mk(vk.BI(0), tN)} {
		for j, s := range []ps.CurvePointSerializerModifyable{ps.BanderwagonShort, ps.BanderwagonLong} {
			var b bytes.Buffer
			s.SerializeCurvePoint(&b, copyRaw(reps(xtwS, pm, 1)[0].p))
			bs := bytes.Repeat(b.Bytes(), 3)
			add(fmt.Sprint("reader ", i, j), func() any { return bytes.NewBuffer(append([]byte(nil), bs...)) })
			add(fmt.Sprint("bytes ", i, j), func() any { return append([]byte(nil), bs...) })
		}
	}
	add("reader of zeroes", func() any { return bytes.NewBuffer(make([]byte, 100)) })
	for _, s := range c04serializers() {
		s := s
		add("serializer", func() any { return s })
	}
	add("slice", func() any {
		return cp.CurvePointSlice_xtw_subgroup{*(copyRaw(reps(xtwS, mk(vk.BI(5), tN), 1)[0].p).(*cp.Point_xtw_subgroup)), cp.NeutralElement_xtw_subgroup}
	})
	add("field elements", func() any { return []fe.FieldElement{mkF(vk.BI(5), false), fe.FieldElementTwo, fe.FieldElementOne} })
	add("slice maker", func() any {
		return func(n int32) (any, cp.CurvePointSlice, error) {
			if n < 0 || n > 10 {
				return nil, nil, fmt.Errorf("not that many")
			}
			v := make(cp.CurvePointSlice_xtw_subgroup, n)
			return []cp.Point_xtw_subgroup(v), v, nil
		}
	})
	add("rand", func() any { return rand.New(rand.NewSource(1)) })
	add("fmt.State", func() any { return new(fmtState) })
	add("'v'", func() any { return 'v' })
	add("'x'", func() any { return 'x' })
	add("string", func() any { return "17" })
	add("array", func() any { return new([5]uint64) })
	return
}

func c04serializers() []any {
	return []any{ps.BanderwagonShort, ps.BanderwagonLong, ps.BanderwagonShort.AsDeserializer(), ps.BanderwagonLong.AsDeserializer()}
}

func overwritable(t reflect.Type) bool {
	switch t {
	case reflect.TypeOf(big.Int{}), reflect.TypeOf(fe.FieldElement{}), reflect.TypeOf(fe.Uint256{}), reflect.TypeOf(fe.Uint512{}), reflect.TypeOf(exponents.Exponent{}):
		return true
	}
	for typ := 0; typ < nTypes; typ++ {
		if reflect.TypeOf(fresh(typ)).Elem() == t {
			return true
		}
	}
	return false
}

// scribble overwrites everything that the caller of a function now owns through the returned value
func scribble(v reflect.Value, keep map[unsafe.Pointer]bool, depth int) {
	if depth > 3 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem(), keep, depth+1)
		}
	case reflect.Pointer:
		if v.IsNil() || keep[v.UnsafePointer()] {
			return
		}
		if b, ok := v.Interface().(*big.Int); ok {
			for i, w := range b.Bits() {
				b.Bits()[i] = ^w
			}
			b.Add(b, vk.BI(12345))
			return
		}
		if overwritable(v.Type().Elem()) {
			bs := konstRaw(v.UnsafePointer(), v.Type().Elem().Size())
			for i := range bs {
				bs[i] = 0x55
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			switch e.Kind() {
			case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				if e.CanSet() {
					e.SetUint(0x55)
				}
			case reflect.Struct, reflect.Array:
				if e.CanAddr() && overwritable(e.Type()) {
					scribble(e.Addr(), keep, depth+1)
				}
			default:
				scribble(e, keep, depth+1)
			}
		}
	}
}

type c04fn struct {
	name string
	fn   reflect.Value // for methods: the method expression, the receiver is the first argument
}

func c04functions() (out []c04fn) {
	seen := map[string]bool{}
	methods := func(samples ...any) {
		for _, s := range samples {
			t := reflect.TypeOf(s)
			for i := 0; i < t.NumMethod(); i++ {
				m := t.Method(i)
				out = append(out, c04fn{"(" + t.String() + ")." + m.Name, m.Func})
			}
		}
	}
	methods(new(fe.FieldElement), new(fe.Uint256), new(fe.Uint512), new(exponents.Exponent))
	for typ := 0; typ < nTypes; typ++ {
		methods(fresh(typ))
	}
	for _, s := range c04serializers() {
		methods(s)
	}
	for name, f := range map[string]any{
		"fieldElements.BigIntToUInt256": fe.BigIntToUInt256, "fieldElements.BigIntToUint512": fe.BigIntToUint512, "fieldElements.InitUint256FromString": fe.InitUint256FromString,
		"fieldElements.IsEqualAsUint256": fe.IsEqualAsUint256, "fieldElements.LongMulUint64": fe.LongMulUint64, "fieldElements.MultiInvertEq": fe.MultiInvertEq,
		"fieldElements.MultiInvertEqSkipZeros": fe.MultiInvertEqSkipZeros, "fieldElements.SerializeFieldElement": fe.SerializeFieldElement,
		"fieldElements.SerializeFieldElementWithPrefix": fe.SerializeFieldElementWithPrefix, "fieldElements.DeserializeFieldElement": fe.DeserializeFieldElement,
		"fieldElements.DeserializeFieldElementAndGetPrefix":       fe.DeserializeFieldElementAndGetPrefix,
		"fieldElements.DeserializeFieldElementWithExpectedPrefix": fe.DeserializeFieldElementWithExpectedPrefix,
		"fieldElements.InitFieldElementFromString":                fe.InitFieldElementFromString[fe.FieldElement],
		"fieldElements.CreateRandomFieldElement_Unsafe":           fe.CreateRandomFieldElement_Unsafe[fe.FieldElement],
		"fieldElements.CreateRandomNonZeroFieldElement_Unsafe":    fe.CreateRandomNonZeroFieldElement_Unsafe[fe.FieldElement],
		"curvePoints.CurvePointFromXAndSignY_full":                cp.CurvePointFromXAndSignY_full,
		"curvePoints.CurvePointFromXYAffine_full":                 cp.CurvePointFromXYAffine_full,
		"curvePoints.CurvePointFromYAndSignX_full":                cp.CurvePointFromYAndSignX_full,
		"curvePoints.CurvePointFromXAndSignY_subgroup":            cp.CurvePointFromXAndSignY_subgroup,
		"curvePoints.CurvePointFromXTimesSignY_subgroup":          cp.CurvePointFromXTimesSignY_subgroup,
		"curvePoints.CurvePointFromXYAffine_subgroup":             cp.CurvePointFromXYAffine_subgroup,
		"curvePoints.CurvePointFromXYTimesSignY_subgroup":         cp.CurvePointFromXYTimesSignY_subgroup,
		"curvePoints.CurvePointFromYAndSignX_subgroup":            cp.CurvePointFromYAndSignX_subgroup,
		"curvePoints.CurvePointFromYXTimesSignY_subgroup":         cp.CurvePointFromYXTimesSignY_subgroup,
		"curvePoints.MapToFieldElement":                           cp.MapToFieldElement,
		"curvePoints.MakeRandomPointUnsafe_xtw_full":              cp.MakeRandomPointUnsafe_xtw_full,
		"curvePoints.MakeRandomPointUnsafe_xtw_subgroup":          cp.MakeRandomPointUnsafe_xtw_subgroup,
		"exponents.GLV_representation":                            exponents.GLV_representation,
	} {
		out = append(out, c04fn{name, reflect.ValueOf(f)})
	}
	// sorted and without duplicates, so that case numbers are stable
	for i := range out {
		for j := i; j > 0 && out[j].name < out[j-1].name; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	u := out[:0]
	for _, f := range out {
		if !seen[f.name] {
			seen[f.name] = true
			u = append(u, f)
		}
	}
	return u
}

func c04(r *vk.Run) {
	initKonsts()
	r.Extra("constants", len(konsts))
	r.Each(len(konsts), func(i int) string { return "value of " + konsts[i].name }, func(t *vk.T, i int) {
		t.Eval(1)
		t.State(konsts[i].name)
		if s := konsts[i].want(); s != "" {
			t.Failf("%v %v", konsts[i].name, s)
		}
	})
	r.Case("untyped constants and strings", func(t *vk.T) {
		eq := func(name string, ok bool) {
			t.Eval(1)
			if !ok {
				t.Failf("%v has a wrong value", name)
			}
		}
		str := func(name, s string, v *big.Int) {
			b, ok := new(big.Int).SetString(s, 0)
			t.Eval(1)
			if !ok || b.Cmp(v) != 0 {
				t.Failf("%v = %q, should be %v", name, s, v)
			}
		}
		const P = 52435875175126190479447740508185965837690552500527637822603658699938581184513
		const N = 13108968793781547619861935127046491459309155893440570251786403306729687672801
		eq("common.BaseFieldSize", common.BaseFieldSize == P && common.BaseFieldSize_untyped == P)
		eq("fieldElements.BaseFieldSize_untyped", fe.BaseFieldSize_untyped == P)
		eq("curvePoints.BaseFieldSize_untyped", cp.BaseFieldSize_untyped == P)
		eq("GroupOrder", common.GroupOrder == N && exponents.GroupOrder == N && cp.GroupOrder == N)
		eq("CurveOrder", common.CurveOrder == 4*N && exponents.CurveOrder == 4*N && cp.CurveOrder == 4*N)
		eq("Cofactor", common.Cofactor == 4 && cp.Cofactor == 4)
		eq("CurveExponent", common.CurveExponent == 2*N && exponents.CurveExponent == 2*N)
		eq("EndomorphismEigenvalue", (common.EndomorphismEigenvalue*common.EndomorphismEigenvalue+2)%N == 0 && exponents.EndomorphismEigenvalue == common.EndomorphismEigenvalue)
		eq("bit and byte lengths", common.BaseFieldBitLength == 255 && common.BaseFieldByteLength == 32 && fe.BaseFieldBitLength == 255 && fe.BaseFieldByteLength == 32 && cp.BaseFieldBitLength == 255 && cp.BaseFieldByteLength == 32)
		eq("2-adicity", fe.BaseField2Adicity == 32 && fe.BaseFieldMultiplicativeOddOrder*(1<<32) == P-1)
		eq("curve parameters", cp.CurveParameterA == -5 && cp.CurveParameterD == 45022363124591815672509500913686876175488063829319466900776701791074614335719)
		eq("MaxLengthPrefixBits", common.MaxLengthPrefixBits == 8)
		str("common.BaseFieldSize_string", common.BaseFieldSize_string, vk.P)
		str("fieldElements.BaseFieldSize_string", fe.BaseFieldSize_string, vk.P)
		str("curvePoints.BaseFieldSize_string", cp.BaseFieldSize_string, vk.P)
		str("GroupOrder_string", common.GroupOrder_string, vk.R)
		str("Cofactor_string", common.Cofactor_string, vk.BI(4))
		str("CurveOrder_string", common.CurveOrder_string, vk.Mul(vk.BI(4), vk.R))
		str("CurveExponent_string", common.CurveExponent_string, vk.TwoR)
		str("EndomorphismEigenvalue_string", common.EndomorphismEigenvalue_string, vk.Lambda)
		str("CurveParameterA_string", cp.CurveParameterA_string, vk.BI(-5))
		str("CurveParameterD_string", cp.CurveParameterD_string, curvD)
		d, _ := new(big.Int).SetString(fe.DyadicRootOfUnity_string, 0)
		e := new(big.Int).Exp(d, vk.Pow2(31), vk.P)
		eq("DyadicRootOfUnity_string", e.Cmp(vk.Sub(vk.P, vk.BI(1))) == 0)
		eq("DyadicRootOfUnity_untyped", new(big.Int).SetBit(new(big.Int), 0, fe.DyadicRootOfUnity_untyped&1).Bit(0) == d.Bit(0) && uint64(fe.DyadicRootOfUnity_untyped>>192) == new(big.Int).Rsh(d, 192).Uint64() && uint64(fe.DyadicRootOfUnity_untyped&0xffffffffffffffff) == vk.ToLimbs4(d)[0])
		// 2 lambda and the parameters: a d is such that the curve has the stated order; the relation used for the torsion points
		s := new(big.Int).ModSqrt(fm(curvD, finv(vk.Mod(vk.BI(-5), vk.P))), vk.P)
		eq("d/a is a square", s != nil)
	})
	makers := c04makers()
	fns := c04functions()
	r.Extra("functions", len(fns))
	ownLimit := 20000
	if r.Thorough {
		ownLimit = 500000
	}
	// first the whole history in one go: what functions return must not depend on what callers did to earlier results and arguments
	r.Case("results do not depend on what callers do with earlier results", func(t *vk.T) {
		defer func() {
			for _, k := range konsts {
				k.restore()
			}
		}()
		small := 400
		if r.Thorough {
			small = 4000
		}
		first := make([][]string, len(fns))
		for i := range fns {
			c04call(t, fns[i], makers, small, &first[i], false)
		}
		for i := range fns {
			var again []string
			c04call(t, fns[i], makers, small, &again, true)
			t.Alive()
		}
		for i := range fns {
			var again []string
			c04call(t, fns[i], makers, small, &again, false)
			for j := range again {
				if again[j] != first[i][j] {
					t.Fatalf("%v: first %v, later %v", fns[i].name, first[i][j], again[j])
				}
			}
		}
	})
	// one worker: the constants are shared and some operations rewrite the internal form of their arguments
	r.EachN(1, len(fns), func(i int) string { return "constants survive " + fns[i].name }, func(t *vk.T, i int) {
		defer func() {
			for _, k := range konsts {
				k.restore()
			}
		}()
		c04call(t, fns[i], makers, ownLimit, nil, true)
	})
	r.Sample(fns[0].name + " on every tuple of arguments from the pools")
}

// candidates for a parameter type: fresh values, then the constants
func c04cands(t reflect.Type, makers []maker, limit int) (out []maker, nFresh int) {
	var fit []maker
	for _, m := range makers {
		v := m.mk()
		if v.Type().AssignableTo(t) {
			fit = append(fit, m)
		} else if t.Kind() == reflect.Struct || t.Kind() == reflect.Array {
			// value receivers and value parameters
			if v.Kind() == reflect.Pointer && v.Type().Elem() == t {
				m := m
				fit = append(fit, maker{m.name, func() reflect.Value { return m.mk().Elem() }})
			}
		}
	}
	if len(fit) > limit && t.Kind() == reflect.Interface { // spread over the types
		step := (len(fit) + limit - 1) / limit
		var f2 []maker
		for i := 0; i < len(fit); i += step {
			f2 = append(f2, fit[i])
		}
		fit = f2
	} else if len(fit) > limit {
		fit = fit[:limit]
	}
	out = fit
	nFresh = len(out)
	for _, k := range konsts {
		if k.v.Type().AssignableTo(t) {
			k := k
			out = append(out, maker{k.name, func() reflect.Value { return k.v }})
		} else if k.v.Type().Elem() == t {
			k := k
			out = append(out, maker{k.name, func() reflect.Value { return k.v.Elem() }})
		}
	}
	return
}

// valueOf describes the value behind an argument, to see whether a call changes it
func c04valueOf(v reflect.Value) string {
	for v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	switch x := v.Interface().(type) {
	case *fe.FieldElement:
		return bigF(*x).String()
	case *fe.Uint256:
		return fmt.Sprint([4]uint64(*x))
	case *fe.Uint512:
		return fmt.Sprint([8]uint64(*x))
	case *big.Int:
		return x.String()
	case *exponents.Exponent:
		y := *x
		return y.ToBigInt_Full().String()
	case PI:
		c, ok := copyRaw(x).(interface {
			XYTZ_projective() (F, F, F, F)
		})
		if !ok || x.IsNaP() {
			return fmt.Sprintf("%x", memOf(x))
		}
		X, Y, T, Z := c.XYTZ_projective()
		d := bigF(Z)
		if d.Sign() == 0 {
			d = bigF(X)
		}
		i := finv(d)
		return fmt.Sprint(fm(bigF(X), i), fm(bigF(Y), i), fm(bigF(T), i), fm(bigF(Z), i))
	}
	return ""
}

// digest describes what a call returned
func c04digest(v reflect.Value, depth int) string {
	if depth > 4 {
		return "..."
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		if v.Type().Implements(reflect.TypeOf((*error)(nil)).Elem()) {
			return "error"
		}
		return c04digest(v.Elem(), depth)
	case reflect.Pointer:
		if v.IsNil() {
			return "nil"
		}
		if s := c04valueOf(v); s != "" {
			return s
		}
		if overwritable(v.Type().Elem()) {
			return fmt.Sprintf("%x", konstRaw(v.UnsafePointer(), v.Type().Elem().Size()))
		}
	case reflect.Slice, reflect.Array:
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += c04digest(v.Index(i), depth+1) + " "
		}
		return s + "]"
	case reflect.Struct:
		if v.CanInterface() && overwritable(v.Type()) {
			c := reflect.New(v.Type())
			c.Elem().Set(v)
			return c04digest(c, depth+1)
		}
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			s += c04digest(v.Field(i), depth+1) + " "
		}
		return s + "}"
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(v.Uint())
	}
	return v.Type().String()
}

// c04call calls f on all tuples. With record, only on copies, and the results are recorded
func c04call(t *vk.T, f c04fn, makers []maker, tupleLimit int, record *[]string, overwrite bool) {
	ft := f.fn.Type()
	n := ft.NumIn()
	types := make([]reflect.Type, n)
	for i := range types {
		types[i] = ft.In(i)
		if ft.IsVariadic() && i == n-1 {
			types[i] = types[i].Elem()
		}
	}
	limits := []int{1 << 20, 1 << 20, 24, 12, 6, 4, 3, 2, 2}
	if tupleLimit > 100000 {
		limits = []int{1 << 20, 1 << 20, 200, 60, 20, 8, 5, 4, 3}
	}
	limit := limits[min(n, 8)]
	cands := make([][]maker, n)
	fresh := make([]int, n)
	total := 1
	for i := range cands {
		cands[i], fresh[i] = c04cands(types[i], makers, limit)
		if len(cands[i]) == 0 {
			if types[i].Kind() == reflect.Func || types[i].Kind() == reflect.Interface || types[i].Kind() == reflect.Pointer || types[i].Kind() == reflect.Slice {
				cands[i] = []maker{{"nil", func() reflect.Value { return reflect.Zero(types[i]) }}}
			} else {
				cands[i] = []maker{{"zero", func() reflect.Value { return reflect.Zero(types[i]) }}}
			}
			fresh[i] = 1
		}
		total *= len(cands[i])
	}
	for total > tupleLimit { // shorten the longest list from the front part, keeping the constants
		longest := 0
		for i := range cands {
			if len(cands[i]) > len(cands[longest]) {
				longest = i
			}
		}
		c := cands[longest]
		total = total / len(c) * (len(c) - 1)
		k := len(c) / 2
		if fresh[longest] > 2 {
			k = fresh[longest] - 1
			fresh[longest]--
		} else {
			k = fresh[longest] + (len(c)-fresh[longest])/2
		}
		cands[longest] = append(append([]maker(nil), c[:k]...), c[k+1:]...)
	}
	idx := make([]int, n)
	for {
		// first on copies of the constants, to see which arguments the function writes to
		args := make([]reflect.Value, n)
		before := make([]string, n)
		hasConst := false
		for i := range args {
			v := cands[i][idx[i]].mk()
			if idx[i] >= fresh[i] {
				hasConst = true
				v = c04copy(v)
			}
			args[i] = v
			before[i] = c04valueOf(v)
		}
		run := func(args []reflect.Value, what string) bool {
			keep := map[unsafe.Pointer]bool{}
			for _, a := range args {
				for a.Kind() == reflect.Interface {
					a = a.Elem()
				}
				if a.Kind() == reflect.Pointer {
					keep[a.UnsafePointer()] = true
				}
			}
			var res []reflect.Value
			panics, _ := vk.Panics(func() { res = f.fn.Call(args) })
			t.Trans(1)
			if record != nil {
				d := fmt.Sprint(panics)
				for _, v := range res {
					d += ", " + c04digest(v, 0)
				}
				for _, a := range args {
					d += "; " + c04valueOf(a)
				}
				*record = append(*record, d)
			}
			desc := func() string {
				var s []string
				for i := range args {
					s = append(s, cands[i][idx[i]].name)
				}
				return what + "(" + strings.Join(s, ", ") + ")"
			}
			if s := allBad(); s != "" {
				t.Fatalf("after %v: %v", desc(), s)
			}
			for _, v := range res {
				if !overwrite {
					break
				}
				scribble(v, keep, 0)
			}
			// the caller also owns the arguments that are no constants
			if s := allBad(); s != "" {
				t.Fatalf("after %v and overwriting its results: %v", desc(), s)
			}
			return true
		}
		run(args, f.name)
		if hasConst && record == nil {
			ok := true
			args2 := make([]reflect.Value, n)
			for i := range args {
				v := cands[i][idx[i]].mk()
				if idx[i] >= fresh[i] && c04valueOf(args[i]) != before[i] {
					// the function writes to this argument: pass a copy
					v = c04copy(v)
				}
				args2[i] = v
			}
			if ok {
				run(args2, "with the constants themselves "+f.name)
			}
		}
		// arguments that the function wrote to are overwritten by their owner: nothing may share memory with them
		for i := range args {
			if overwrite && args[i].Kind() == reflect.Pointer {
				scribble(args[i], nil, 0)
			}
		}
		if s := allBad(); s != "" {
			t.Fatalf("after %v and overwriting its arguments: %v", f.name, s)
		}
		j := 0
		for ; j < n; j++ {
			idx[j]++
			if idx[j] < len(cands[j]) {
				break
			}
			idx[j] = 0
		}
		if j == n {
			break
		}
	}
	t.State(f.name)
	t.Trace(1)
}

func c04copy(v reflect.Value) reflect.Value {
	if v.Kind() != reflect.Pointer {
		return v
	}
	if b, ok := v.Interface().(*big.Int); ok {
		return reflect.ValueOf(new(big.Int).Set(b))
	}
	c := reflect.New(v.Type().Elem())
	c.Elem().Set(v.Elem())
	return c
}
