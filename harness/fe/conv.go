//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"strings"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

// ---- F06: batch operations ----

func f06(r *vk.Run) {
	g := vk.Generic(9, vk.P)
	alpha := []*st{mkState(vk.BI(0), false), mkState(vk.BI(0), true), mkState(vk.BI(1), false), mkState(vk.Sub(vk.P, vk.BI(1)), false), mkState(g, false), mkState(rInv, true)}
	maxLen := 5
	if r.Thorough {
		maxLen = 7
	}
	total := 0
	for l := 0; l <= maxLen; l++ {
		n := 1
		for i := 0; i < l; i++ {
			n *= len(alpha)
		}
		total += n
		l := l
		r.Each(n, func(i int) string { return fmt.Sprintf("slice of length %d number %d", l, i) }, func(t *vk.T, i int) {
			s := make([]*st, l)
			for j := range s {
				s[j] = alpha[i%len(alpha)]
				i /= len(alpha)
			}
			batch(t, s)
		})
	}
	// long slices: one or two zeros at every position, many zeros
	for _, l := range []int{9, 10, 11, 12, 16, 33} {
		l := l
		r.Each(l*l+l+1, func(i int) string { return fmt.Sprintf("long slice of length %d, pattern %d", l, i) }, func(t *vk.T, i int) {
			s := make([]*st, l)
			for j := range s {
				s[j] = mkState(vk.Generic(uint64(j%7), vk.P), j%2 == 0)
			}
			if i < l*l { // zeros at positions i/l and i%l
				s[i/l], s[i%l] = alpha[0], alpha[1]
			} else if i < l*l+l { // i zeros at the front, ones in between
				for j := 0; j <= i-l*l; j++ {
					s[j] = alpha[j%2]
				}
				s[l-1] = alpha[2+i%2]
				if i-l*l == l-1 {
					s[l-1] = alpha[0]
				}
			}
			batch(t, s)
		})
	}
	// very long slices of distinct elements, zeros where a blockwise treatment would change over
	lens := []int{31, 32, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 513}
	if r.Thorough {
		lens = append(lens, 15, 17, 34, 50, 96, 150, 192, 384, 1000, 1024, 1025, 2049, 4097)
	}
	r.Extra("very_long_slice_lengths", lens)
	max := 0
	for _, l := range lens {
		if l > max {
			max = l
		}
	}
	pool := make([]*st, max)
	for j := range pool {
		pool[j] = mkState(vk.Generic(uint64(5000+j), vk.P), j%3 == 0)
	}
	for _, l := range lens {
		l := l
		pos := [][]int{{}, {0}, {l - 1}, {l / 2}, {0, l - 1}, {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024}, {16}, {32}, {63}, {64}, {128}, {255}, {256}, {512}, {1024}, {l - 2, l - 1}}
		var even, most []int
		for j := 0; j < l; j++ {
			if j%2 == 0 {
				even = append(even, j)
			}
			if j != l/2 {
				most = append(most, j)
			}
		}
		pos = append(pos, even, most, append(append([]int{}, most...), l/2))
		r.Each(len(pos), func(i int) string { return fmt.Sprintf("very long slice of length %d, pattern %d", l, i) }, func(t *vk.T, i int) {
			s := append([]*st{}, pool[:l]...)
			for k, j := range pos[i] {
				if j < l {
					s[j] = alpha[k%2]
				}
			}
			batch(t, s)
		})
	}
	// elements with the largest internal words: sums and products with many hundreds of overflows
	ovl := []int{300, 700}
	if r.Thorough {
		ovl = append(ovl, 1500, 5000, 70000)
	}
	big := make([]*st, ovl[len(ovl)-1])
	for j := range big {
		w := vk.Sub(vk.P, vk.BI(int64(1+j%50)))
		if j%7 == 3 {
			w = vk.Sub(vk.Sub(cBound, vk.P), vk.BI(int64(1+j)))
		}
		if j < 300 {
			big[j] = mkState(modp(vk.Mul(w, rInv)), j%4 != 2)
		} else {
			big[j] = big[j%300]
		}
	}
	r.Each(2*len(ovl), func(i int) string { return fmt.Sprintf("large words, length %d, variant %d", ovl[i/2], i%2) }, func(t *vk.T, i int) {
		s := append([]*st{}, big[:ovl[i/2]]...)
		if i%2 == 1 {
			for j := range s {
				s[j] = big[0]
			}
		}
		batch(t, s)
	})
	// duplicates and ones of all lengths up to 20
	r.Each(21*8, func(i int) string { return fmt.Sprintf("repeated pattern %d", i) }, func(t *vk.T, i int) {
		s := make([]*st, i/8)
		for j := range s {
			s[j] = alpha[2+(j*(1+i%8))%4]
		}
		batch(t, s)
	})
	r.Extra("slices_over_the_alphabet", total)
	r.Sample("slice [0, alt-representation 0, 1, -1, generic] through all batch functions, receiver aliased with every element")
}

func batch(t *vk.T, s []*st) {
	n := len(s)
	desc := func() string {
		var sb strings.Builder
		for _, x := range s {
			sb.WriteString(x.String() + " ")
		}
		return "[" + sb.String() + "]"
	}
	prod, sum := vk.BI(1), vk.BI(0)
	var zeros []int
	for i, x := range s {
		prod = modp(vk.Mul(prod, x.v))
		sum = modp(vk.Add(sum, x.v))
		if x.v.Sign() == 0 {
			zeros = append(zeros, i)
		}
	}
	t.State(desc())
	mk := func() ([]F, []*F) {
		a := make([]F, n)
		p := make([]*F, n)
		for i := range s {
			a[i] = s[i].f
			p[i] = &a[i]
		}
		return a, p
	}
	same := func(a []F, except int) bool {
		for i := range a {
			if i != except && !canonEq(&a[i], s[i].v) {
				return false
			}
		}
		return true
	}
	type agg struct {
		name string
		f    func(z *F, a []F, p []*F)
		want *big.Int
	}
	for _, o := range []agg{
		{"MultiplySlice", func(z *F, a []F, p []*F) { z.MultiplySlice(a) }, prod},
		{"MultiplyMany", func(z *F, a []F, p []*F) { z.MultiplyMany(p...) }, prod},
		{"SummationSlice", func(z *F, a []F, p []*F) { z.SummationSlice(a) }, sum},
		{"SummationMany", func(z *F, a []F, p []*F) { z.SummationMany(p...) }, sum},
	} {
		for al := -1; al < n; al++ {
			if al >= 6 && al < n-1 && (n < 20 || al != n/2 && al%64 > 1 && al%64 != 63) {
				continue
			}
			a, p := mk()
			z := mkF(vk.BI(99), false)
			zp := &z
			if al >= 0 {
				zp = &a[al]
			}
			o.f(zp, a, p)
			t.Eval(1)
			if msg := follow(zp, o.want); msg != "" {
				t.Failf("%s of %s (receiver aliases element %d): result %s", o.name, desc(), al, msg)
			}
			if !same(a, al) {
				t.Failf("%s of %s changed an argument", o.name, desc())
			}
		}
	}
	// the same pointer several times
	if n >= 1 {
		x := s[0].f
		ps := make([]*F, n)
		for i := range ps {
			ps[i] = &x
		}
		var z F
		z.MultiplyMany(ps...)
		if !canonEq(&z, new(big.Int).Exp(s[0].v, vk.BI(int64(n)), vk.P)) {
			t.Failf("MultiplyMany of %d times the same pointer to %v is wrong", n, s[0])
		}
		x.SummationMany(ps...)
		if !canonEq(&x, modp(vk.Mul(s[0].v, vk.BI(int64(n))))) {
			t.Failf("SummationMany of %d times the same pointer (also the receiver) to %v is wrong", n, s[0])
		}
		t.Eval(2)
	}
	inverted := func(a []F) (bad int) {
		for i := range a {
			want := s[i].inv
			if want == nil {
				want = s[i].v
			}
			if !canonEq(&a[i], want) {
				return i
			}
		}
		return -1
	}
	for k := 0; k < 2; k++ {
		name := []string{"MultiInvertEq", "MultiInvertEqSlice"}[k]
		a, p := mk()
		var err fe.MultiInversionError
		if k == 0 {
			err = fe.MultiInvertEq(p...)
		} else {
			err = fe.MultiInvertEqSlice(a)
		}
		t.Eval(1)
		if len(zeros) == 0 {
			if err != nil {
				t.Failf("%s of %s: unexpected error %v", name, desc(), err)
			} else if i := inverted(a); i >= 0 {
				t.Failf("%s of %s: element %d is %v, should be inverted", name, desc(), i, a[i].ToBigInt())
			} else {
				for i := range a {
					if msg := follow(&a[i], s[i].inv); msg != "" {
						t.Failf("%s of %s: element %d %s", name, desc(), i, msg)
					}
				}
			}
			continue
		}
		if err == nil {
			t.Failf("%s of %s: no error despite zeros", name, desc())
			continue
		}
		if !same(a, -1) {
			t.Failf("%s of %s: arguments modified despite the error", name, desc())
		}
		checkMultiInvErr(t, name+" of "+desc(), err, zeros)
	}
	for k := 0; k < 2; k++ {
		name := []string{"MultiInvertEqSkipZeros", "MultiInvertEqSliceSkipZeros"}[k]
		a, p := mk()
		var got []int
		if k == 0 {
			got = fe.MultiInvertEqSkipZeros(p...)
		} else {
			got = fe.MultiInvertEqSliceSkipZeros(a)
		}
		t.Eval(1)
		if !reflect.DeepEqual(got, zeros) {
			t.Failf("%s of %s: zero indices %v, should be %v", name, desc(), got, zeros)
		}
		if i := inverted(a); i >= 0 {
			t.Failf("%s of %s: element %d is %v, should be inverted or left alone if zero", name, desc(), i, a[i].ToBigInt())
		}
	}
	_, p := mk()
	err := fe.GenerateMultiDivisionByZeroError(p, "prefix text")
	if (err == nil) != (len(zeros) == 0) {
		t.Failf("GenerateMultiDivisionByZeroError of %s: %v", desc(), err)
	} else if err != nil {
		checkMultiInvErr(t, "GenerateMultiDivisionByZeroError of "+desc(), err, zeros)
		if !strings.HasPrefix(err.Error(), "prefix text") {
			t.Failf("GenerateMultiDivisionByZeroError of %s: message %q lacks the prefix", desc(), err.Error())
		}
	}
	t.Eval(1)
}

func checkMultiInvErr(t *vk.T, name string, err fe.MultiInversionError, zeros []int) {
	if !errors.Is(err, fe.ErrDivisionByZero) {
		t.Failf("%s: error does not wrap ErrDivisionByZero", name)
	}
	d := err.GetData_struct()
	if d.NumberOfZeroIndices != len(zeros) || !reflect.DeepEqual(d.ZeroIndices, zeros) {
		t.Failf("%s: reports zeros %+v, should be %v", name, d, zeros)
	}
	msg := err.Error()
	if strings.Contains(msg, "%!") || !strings.Contains(msg, fmt.Sprint(zeros[0])) {
		t.Failf("%s: message %q is malformed", name, msg)
	}
	if len(zeros) > 1 && !strings.Contains(msg, fmt.Sprint(len(zeros))) {
		t.Failf("%s: message %q does not give the number of zeros", name, msg)
	}
}

// ---- F09: conversions ----

func f09(r *vk.Run) {
	level := 1
	if r.Thorough {
		level = 2
	}
	S := states(level)
	// both signs of the limits of machine integers and of every power of two
	seen := map[[32]byte]bool{}
	for _, x := range S {
		seen[raw(&x.f)] = true
	}
	for k := uint(0); k < 256; k++ {
		d := int64(1)
		if k == 31 || k == 32 || k > 61 && k < 66 {
			d = 3
		}
		for _, v := range vk.Around(d, vk.Pow2(k), vk.Sub(vk.P, vk.Pow2(k))) {
			for _, alt := range []bool{false, true} {
				if x := mkState(modp(v), alt); !seen[raw(&x.f)] {
					seen[raw(&x.f)] = true
					S = append(S, x)
				}
			}
		}
	}
	maxI, minI := vk.BI(math.MaxInt64), vk.BI(math.MinInt64)
	r.Each(len(S), func(i int) string { return "element " + S[i].String() }, func(t *vk.T, i int) {
		x := S[i]
		a := x.f
		u, err := a.ToUint64()
		if x.v.IsUint64() {
			if err != nil || u != x.v.Uint64() {
				t.Failf("ToUint64(%v) = %v, %v", x, u, err)
			}
		} else if err == nil || u != 0 || !errors.Is(err, fe.ErrCannotRepresentFieldElement) {
			t.Failf("ToUint64(%v) = %v, %v, should fail", x, u, err)
		} else {
			checkConvErr(t, "ToUint64", x, err)
		}
		s, err := a.ToInt64()
		sv := x.v
		if sv.Cmp(halfP) > 0 {
			sv = vk.Sub(sv, vk.P)
		}
		if sv.Cmp(maxI) <= 0 && sv.Cmp(minI) >= 0 {
			if err != nil || s != sv.Int64() {
				t.Failf("ToInt64(%v) = %v, %v, should be %v", x, s, err, sv)
			}
		} else if err == nil || s != 0 || !errors.Is(err, fe.ErrCannotRepresentFieldElement) {
			t.Failf("ToInt64(%v) = %v, %v, should fail", x, s, err)
		} else {
			checkConvErr(t, "ToInt64", x, err)
		}
		w := garbage[1]
		a.ToUint256(&w)
		if toI(&w).Cmp(x.v) != 0 {
			t.Failf("ToUint256(%v) = %#x", x, toI(&w))
		}
		if b := a.ToBigInt(); b.Cmp(x.v) != 0 {
			t.Failf("ToBigInt(%v) = %#x", x, b)
		} else {
			b.SetInt64(5) // must not be connected with the element
			if !canonEq(&a, x.v) {
				t.Failf("the result of ToBigInt(%v) aliases the element", x)
			}
		}
		if raw(&a) != raw(&x.f) {
			// conversions may normalize but must keep the value
			if !canonEq(&a, x.v) {
				t.Failf("a conversion changed the value of %v", x)
			}
		}
		a = x.f
		buf := make([]byte, 40)
		for k := range buf {
			buf[k] = 0xC3
		}
		if a.BytesLength() != 32 {
			t.Failf("BytesLength = %d", a.BytesLength())
		}
		a.ToBytes(buf)
		for k := 32; k < 40; k++ {
			if buf[k] != 0xC3 {
				t.Failf("ToBytes writes beyond 32 bytes")
			}
		}
		var z F
		z.SetBytes(buf[:32])
		if raw(&z) != raw(&x.f) || !canonEq(&z, x.v) {
			t.Failf("ToBytes/SetBytes of %v does not preserve the internal representation", x)
		}
		for _, verb := range []string{"%v", "%d", "%x", "%X", "%#x", "%b", "%o", "%s", "%80d", "%-80d|", "%080d", "%+d", "% d", "%90v", "%+v", "%.80d", "%90.80x", "%#X", "%O", "%c", "%q"} {
			want := fmt.Sprintf(verb, x.v)
			if g := fmt.Sprintf(verb, x.f); g != want {
				t.Failf("Sprintf(%q, %v) = %q, should be %q", verb, x, g, want)
			}
			f := x.f
			if g := fmt.Sprintf(verb, &f); g != want {
				t.Failf("Sprintf(%q, pointer to %v) = %q, should be %q", verb, x, g, want)
			}
		}
		if g := x.f.String(); g != x.v.String() {
			t.Failf("String(%v) = %q", x, g)
		}
		// the integer types print like big integers, for every verb and flag
		u256, u512 := fe.Uint256(vk.ToLimbs4(x.v)), fe.BigIntToUint512(vk.Mul(x.v, x.v))
		v512 := vk.Mul(x.v, x.v)
		for _, verb := range []string{"%v", "%d", "%x", "%X", "%#x", "%#X", "%b", "%o", "%O", "%s", "%160d", "%-160d|", "%0160d", "%+d", "% d", "%90v", "%+v", "%-90v|", "%.80d", "%90.80x", "%+.3s", "%c", "%#v", "%q", "%t"} {
			for _, c := range []struct {
				want *big.Int
				args []any
			}{{x.v, []any{u256, &u256}}, {v512, []any{u512, &u512}}} {
				want := fmt.Sprintf(verb, c.want)
				for _, a := range c.args {
					if g := fmt.Sprintf(verb, a); g != want {
						t.Failf("Sprintf(%q, %T %v) = %q, should be %q", verb, a, c.want, g, want)
					}
				}
			}
		}
		if u256.String() != x.v.String() || u512.String() != v512.String() || fmt.Sprint(u256) != x.v.String() || fmt.Sprint(&u512) != v512.String() {
			t.Failf("String of the integers %v, %v", x.v, v512)
		}
		for _, in := range []string{x.v.String(), fmt.Sprintf("%#x", x.v), fmt.Sprintf("%#o", x.v), fmt.Sprintf("%#b", x.v), vk.Add(x.v, vk.P).String(), vk.Sub(x.v, vk.P).String(), vk.Sub(x.v, vk.Mul(vk.P, vk.Two512)).String()} {
			e := fe.InitFieldElementFromString[F](in)
			if !canonEq(&e, x.v) {
				t.Failf("InitFieldElementFromString(%q) = %v, should be %#x", in, e.ToBigInt(), x.v)
			}
			t.Eval(1)
		}
		t.Eval(40)
		t.State("elem", x.String())
	})
	// setters
	var ints []*big.Int
	for k := uint(0); k < 520; k += 1 {
		if k < 70 || k%64 < 3 || k%64 > 61 || (k > 250 && k < 260) {
			ints = append(ints, vk.Around(1, vk.Pow2(k))...)
		}
	}
	for _, c := range []*big.Int{vk.P, twoP, halfP, cBound, vk.Mul(vk.P, vk.P), vk.Mul(vk.P, vk.Two256)} {
		ints = append(ints, vk.Around(2, c)...)
	}
	for i := uint64(0); i < 20; i++ {
		ints = append(ints, vk.Generic(i, vk.Pow2(uint(20+40*i))))
	}
	for _, k := range []uint{511, 512, 513, 575, 576, 639, 640, 703, 704, 767, 768, 769, 831, 832, 895, 896, 1000, 1023, 1024, 1025, 1536, 2047, 2048, 2049, 3000, 4096, 8192, 16384, 65536} { // long numbers
		ints = append(ints, vk.Around(2, vk.Pow2(k))...)
		ints = append(ints, vk.Mul(vk.P, vk.Pow2(k)), vk.Add(vk.Mul(vk.P, vk.Pow2(k)), vk.BI(1)), vk.Sub(vk.Mul(vk.P, vk.Pow2(k)), vk.BI(1)),
			vk.Generic(uint64(k), vk.Pow2(k)), new(big.Int).Exp(vk.P, vk.BI(int64(k/255)), nil))
	}
	ints = append(ints, values256(level-1)...)
	r.Each(len(ints)*2, func(i int) string { return fmt.Sprintf("integer %#x sign %d", ints[i/2], i%2) }, func(t *vk.T, i int) {
		v := new(big.Int).Set(ints[i/2])
		if i%2 == 1 {
			v.Neg(v)
		}
		want := modp(v)
		old := new(big.Int).Set(v)
		for g := 0; g < 2; g++ {
			z := mkF(vk.BI(99), false)
			if g == 1 {
				z = mkF(rInv, true)
			}
			z.SetBigInt(v)
			if msg := follow(&z, want); msg != "" || v.Cmp(old) != 0 {
				t.Failf("SetBigInt(%#x): %s", old, msg)
			}
			if v.IsInt64() {
				z = mkF(rInv, true)
				z.SetInt64(v.Int64())
				if msg := follow(&z, want); msg != "" {
					t.Failf("SetInt64(%v): %s", v, msg)
				}
			}
			if v.IsUint64() {
				z = mkF(rInv, true)
				z.SetUint64(v.Uint64())
				if msg := follow(&z, want); msg != "" {
					t.Failf("SetUint64(%v): %s", v, msg)
				}
			}
			if v.Sign() >= 0 && v.BitLen() <= 256 {
				z = mkF(rInv, true)
				w := mkU(v)
				z.SetUint256(&w)
				if msg := follow(&z, want); msg != "" || toI(&w).Cmp(v) != 0 {
					t.Failf("SetUint256(%#x): %s (argument now %#x)", v, msg, toI(&w))
				}
				// Uint256 <-> big.Int
				w = garbage[1]
				w.SetBigInt(v)
				if toI(&w).Cmp(v) != 0 || w.ToBigInt().Cmp(v) != 0 || v.Cmp(old) != 0 {
					t.Failf("Uint256.SetBigInt/ToBigInt(%#x) = %#x", v, w.ToBigInt())
				}
			} else {
				w := garbage[1]
				if !panics(func() { w.SetBigInt(v) }) {
					t.Failf("Uint256.SetBigInt(%#x) accepted a number out of range", v)
				}
			}
			t.Eval(3)
		}
		t.State("int", old.String())
	})
	bad := []string{"", "x", "0x", "1 2", "12z", "--1", "0b2", "1.5", " 1", "1\n"}
	r.Each(len(bad), func(i int) string { return fmt.Sprintf("string %q", bad[i]) }, func(t *vk.T, i int) {
		if !panics(func() { fe.InitFieldElementFromString[F](bad[i]) }) {
			t.Failf("InitFieldElementFromString(%q) did not panic", bad[i])
		}
		t.Eval(1)
	})
	r.Case("random creation", func(t *vk.T) {
		r1, r2 := rand.New(rand.NewSource(1)), rand.New(rand.NewSource(1))
		for i := 0; i < 50; i++ {
			a, b := fe.CreateRandomFieldElement_Unsafe[F](r1), fe.CreateRandomFieldElement_Unsafe[F](r2)
			if raw(&a) != raw(&b) || !canonEq(&a, modp(a.ToBigInt())) {
				t.Failf("CreateRandomFieldElement_Unsafe is inconsistent")
			}
			if c := fe.CreateRandomNonZeroFieldElement_Unsafe[F](r1); c.IsZero() || !canonEq(&c, modp(c.ToBigInt())) {
				t.Failf("CreateRandomNonZeroFieldElement_Unsafe is inconsistent")
			}
			fe.CreateRandomNonZeroFieldElement_Unsafe[F](r2)
		}
		t.Eval(50)
		// exported constants
		c := []struct {
			n string
			f F
			v *big.Int
		}{{"One", fe.FieldElementOne, vk.BI(1)}, {"Zero", fe.FieldElementZero, vk.BI(0)}, {"MinusOne", fe.FieldElementMinusOne, vk.Sub(vk.P, vk.BI(1))}, {"Two", fe.FieldElementTwo, vk.BI(2)}}
		for _, x := range c {
			if !canonEq(&x.f, x.v) {
				t.Failf("constant FieldElement%s is %v", x.n, x.f.ToBigInt())
			}
		}
		w := fe.DyadicRootOfUnity_fe.ToBigInt()
		if new(big.Int).Exp(w, vk.Pow2(31), vk.P).Cmp(vk.Sub(vk.P, vk.BI(1))) != 0 {
			t.Failf("DyadicRootOfUnity_fe is not a primitive 2^32-th root of unity")
		}
	})
	r.Sample(fmt.Sprintf("ToInt64 of p-2^63-1..p-2^63+1, SetInt64(%d), formatting with all verbs", math.MinInt64))
}

func checkConvErr(t *vk.T, name string, x *st, err error) {
	d, ok := errorsWithData.GetParameter(err, "FieldElement")
	if !ok {
		t.Failf("%s(%v): the error does not contain the field element", name, x)
		return
	}
	f, ok := d.(F)
	if !ok || !canonEq(&f, x.v) {
		t.Failf("%s(%v): the error contains %v as the field element", name, x, d)
	}
	if !strings.Contains(err.Error(), x.v.String()) {
		t.Failf("%s(%v): error message %q does not show the element", name, x, err.Error())
	}
}
