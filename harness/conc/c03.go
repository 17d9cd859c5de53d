//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"math/rand"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	ex "github.com/GottfriedHerold/Bandersnatch/bandersnatch/exponents"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

type F = cp.FieldElement

// op3 works on values of its own only; everything shared is package-level state of the library
type op3 struct {
	name string
	f    func() string
}

func f3(v *big.Int) (x F) { x.SetBigInt(v); return }
func fs3(i uint64) (x F)  { return f3(vk.Generic(i, vk.P)) }

// pts3 are coordinates of points in the subgroup, found once
var pts3 [][2]*big.Int

// full3 are coordinates of points that need not be in the subgroup
var full3 [][2]*big.Int

func init3() {
	for i := int64(2); len(pts3) < 4 || len(full3) < 4; i++ {
		x := f3(big.NewInt(i))
		p, err := cp.CurvePointFromXAndSignY_full(&x, 1, common.UntrustedInput)
		if err != nil {
			continue
		}
		X, Y := p.XY_affine()
		c := [2]*big.Int{X.ToBigInt(), Y.ToBigInt()}
		if p.IsInSubgroup() {
			pts3 = append(pts3, c)
		} else {
			full3 = append(full3, c)
		}
	}
}

func sub3(i int) cp.Point_axtw_subgroup {
	x, y := f3(pts3[i][0]), f3(pts3[i][1])
	p, err := cp.CurvePointFromXYAffine_subgroup(&x, &y, common.TrustedInput)
	if err != nil {
		panic(err)
	}
	return p
}

func any3(i int) cp.Point_axtw_full {
	x, y := f3(full3[i][0]), f3(full3[i][1])
	p, err := cp.CurvePointFromXYAffine_full(&x, &y, common.TrustedInput)
	if err != nil {
		panic(err)
	}
	return p
}

func xs3(i int) *cp.Point_xtw_subgroup {
	p := sub3(i)
	q := new(cp.Point_xtw_subgroup)
	q.Add(&p, &p)
	return q
}
func xf3(i int) *cp.Point_xtw_full {
	p := any3(i)
	q := new(cp.Point_xtw_full)
	q.Add(&p, &p)
	q.AddEq(&p)
	return q
}
func es3(i int) *cp.Point_efgh_subgroup {
	p := sub3(i)
	q := new(cp.Point_efgh_subgroup)
	q.Double(&p)
	return q
}
func ef3(i int) *cp.Point_efgh_full {
	p := any3(i)
	q := new(cp.Point_efgh_full)
	q.Add(&p, xf3(i))
	return q
}

func show3(p cp.CurvePointPtrInterface) string {
	c := p.Clone().(cp.CurvePointPtrInterface)
	x, y := c.XY_affine()
	return x.ToBigInt().Text(16) + "," + y.ToBigInt().Text(16) + ";"
}

func ops3() (out []op3) {
	init3()
	add := func(name string, f func() string) { out = append(out, op3{name, f}) }
	sh := func(x *F) string { return x.ToBigInt().Text(16) + ";" }
	add("field arithmetic", func() string {
		a, b := fs3(1), fs3(2)
		var c, d F
		c.Mul(&a, &b)
		d.Add(&c, &a)
		d.Sub(&d, &b)
		c.Square(&d)
		c.DoubleEq()
		c.NegEq()
		c.MulEqFive()
		return sh(&c)
	})
	add("field division", func() string {
		a, b := fs3(3), fs3(4)
		var c F
		c.Inv(&a)
		b.Divide(&b, &c)
		b.InvEq()
		return sh(&b)
	})
	add("field division by zero", func() string {
		var c, z F
		a := fs3(5)
		did, v := vk.Panics(func() { c.Divide(&a, &z) })
		return fmt.Sprint(did, v)
	})
	add("square root", func() string {
		a := fs3(6)
		a.SquareEq()
		var c F
		ok := c.SquareRoot(&a)
		c.SquareEq()
		n := f3(big.NewInt(5))
		var e F
		return sh(&c) + fmt.Sprint(ok, e.SquareRoot(&n))
	})
	add("Jacobi symbol and sign", func() string {
		s := ""
		for i := uint64(7); i < 12; i++ {
			a := fs3(i)
			s += fmt.Sprint(a.Jacobi(), a.Sign(), " ")
		}
		return s
	})
	add("field comparison", func() string {
		a, b := fs3(12), fs3(13)
		c := a
		c.RerandomizeRepresentation(5)
		x, y := a.CmpAbs(&c)
		return fmt.Sprint(a.IsEqual(&b), a.IsEqual(&c), a.IsZero(), a.IsOne(), x, y)
	})
	add("field exponentiation", func() string {
		a := fs3(14)
		var e fe.Uint256
		e.SetBigInt(vk.Generic(15, vk.Two256))
		var c F
		c.Exp(&a, &e)
		return sh(&c)
	})
	add("small operands", func() string {
		a := fs3(16)
		var c F
		c.AddInt64(&a, -5)
		c.MulUint64(&c, 77)
		c.SubUint64(&c, 3)
		c.DivideInt64(&c, -9)
		u, err := c.ToUint64()
		return sh(&c) + fmt.Sprint(u, err)
	})
	add("multi-inversion", func() string {
		v := []F{fs3(17), fs3(18), fs3(19)}
		err := fe.MultiInvertEqSlice(v)
		w := []F{fs3(17), {}, fs3(19)}
		err2 := fe.MultiInvertEqSlice(w)
		idx := fe.MultiInvertEqSliceSkipZeros(w)
		return sh(&v[0]) + sh(&v[1]) + sh(&v[2]) + fmt.Sprint(err, err2, idx) + sh(&w[0])
	})
	add("field formatting", func() string {
		a := fs3(20)
		return fmt.Sprintf("%v %d %x %v", a, &a, &a, a.String())
	})
	add("big integer conversion", func() string {
		var a F
		a.SetBigInt(new(big.Int).Neg(vk.Generic(21, vk.Two512)))
		var u fe.Uint256
		a.ToUint256(&u)
		var b F
		b.SetUint256(&u)
		b.SetBigInt(b.ToBigInt())
		return sh(&a) + u.String() + sh(&b) + fmt.Sprint(fe.BaseFieldSize_Int)
	})
	add("field serialization", func() string {
		a := fs3(22)
		s := ""
		for _, o := range []binary.ByteOrder{binary.LittleEndian, binary.BigEndian} {
			var e common.FieldElementEndianness
			e.SetEndianness(o)
			var w bytes.Buffer
			n, err := a.SerializeWithPrefix(&w, common.MakeBitHeader(0, 1), e)
			var b F
			m, err2 := b.DeserializeWithExpectedPrefix(bytes.NewReader(w.Bytes()), common.MakeBitHeader(0, 1), e)
			var c F
			_, err3 := c.Deserialize(bytes.NewReader(bytes.Repeat([]byte{0xff}, 32)), e)
			_, err4 := c.Deserialize(bytes.NewReader(w.Bytes()[:7]), e)
			s += fmt.Sprintf("%d %v %d %v %x %v %v", n, err, m, err2, w.Bytes(), err3, err4) + sh(&b)
		}
		return s
	})
	add("Uint256", func() string {
		x, y := fe.BigIntToUInt256(vk.Generic(23, vk.Two256)), fe.BigIntToUInt256(vk.Generic(24, vk.Two256))
		var z, w fe.Uint256
		z.MulAndReduce_a(&x, &y)
		w.ModularExponentiation_fa(&z, &y)
		var l fe.Uint512
		l.LongMul(&x, &y)
		var q fe.Uint256
		q.ReduceUint512ToUint256_a(l)
		ok := y.ModularInverse_a_NAIVEHAC(&z)
		q.Reduce_fa()
		return fmt.Sprint(z, w, l, q, ok, y, x.SlidingWindowDecomposition(4))
	})
	add("parsing", func() string {
		u := fe.InitUint256FromString("0x123456789abcdef")
		x := fe.InitFieldElementFromString[F]("-5")
		return u.String() + sh(&x)
	})
	add("exponents", func() string {
		var a, b, c ex.Exponent
		a.SetBigInt(vk.Generic(25, vk.Two256))
		b.SetInt(-17)
		c.Mul(&a, &b)
		c.Add(&c, &a)
		c.Sub(&b, &c)
		c.Neg(&c)
		m := c.ModuloP253()
		return fmt.Sprint(c.ToBigInt_Full(), c.ToBigInt_Subgroup(), m, c.IsZero_Full(), c.IsOne_Subgroup())
	})
	add("GLV decomposition", func() string {
		var a ex.Exponent
		a.SetBigInt(vk.Generic(26, vk.R))
		g := ex.GLV_representation(&a)
		return fmt.Sprint(g)
	})
	add("subgroup points: addition", func() string {
		p, q := xs3(0), xs3(1)
		a := sub3(2)
		var r cp.Point_xtw_subgroup
		r.Add(p, q)
		r.SubEq(&a)
		r.NegEq()
		r.Double(&r)
		r.Endo(&r)
		return show3(&r)
	})
	add("curve points: addition", func() string {
		p, q := xf3(0), xf3(1)
		a := any3(2)
		var r cp.Point_xtw_full
		r.Add(p, q)
		r.SubEq(&a)
		r.NegEq()
		r.DoubleEq()
		r.EndoEq()
		return show3(&r)
	})
	add("double-projective points", func() string {
		p, q := es3(0), ef3(1)
		var r cp.Point_efgh_full
		r.Add(p, q)
		var s cp.Point_efgh_subgroup
		s.Endo(p)
		s.SubEq(p)
		r.DoubleEq()
		return show3(&r) + show3(&s)
	})
	add("affine points", func() string {
		p, q := sub3(0), any3(0)
		var r cp.Point_axtw_full
		r.Add(&p, &q)
		r.Endo(&r)
		var s cp.Point_axtw_subgroup
		s.Add(&p, &p)
		return show3(&r) + show3(&s)
	})
	add("point comparison", func() string {
		p, q, r := xs3(0), es3(0), sub3(0)
		x, y := xf3(0), ef3(0)
		var n cp.Point_xtw_full
		n.SetNeutral()
		i1, i2 := cp.InfinitePoint1_xtw, cp.InfinitePoint2_xtw
		return fmt.Sprint(p.IsEqual(q), q.IsEqual(p), p.IsEqual(&r), x.IsEqual(y), y.IsEqual(x), p.IsNeutralElement(), y.IsNeutralElement(), n.IsNeutralElement(), x.IsAtInfinity(), x.IsInSubgroup(), y.IsInSubgroup(), i1.IsEqual(&i2), i1.IsE1(), i2.IsE1(), i2.IsInSubgroup())
	})
	add("conversion between point types", func() string {
		p, x := es3(1), xf3(2)
		var a cp.Point_xtw_full
		a.SetFrom(p)
		var b cp.Point_axtw_subgroup
		ok := b.SetFromSubgroupPoint(&a, common.UntrustedInput)
		var c cp.Point_efgh_subgroup
		ok2 := c.SetFromSubgroupPoint(x, common.UntrustedInput)
		return show3(&a) + show3(&b) + fmt.Sprint(ok, ok2)
	})
	add("coordinates", func() string {
		p, q := xs3(2), ef3(2)
		s := ""
		for _, c := range []cp.CurvePointPtrInterface{p, q} {
			x, y, z := c.XYZ_projective()
			var xa, ya F
			z.InvEq()
			xa.Mul(&x, &z)
			ya.Mul(&y, &z)
			X := c.X_affine()
			Y := c.Y_affine()
			s += sh(&xa) + sh(&ya) + sh(&X) + sh(&Y)
		}
		m := cp.MapToFieldElement(p)
		return s + sh(&m)
	})
	add("batch normalization", func() string {
		v := cp.CurvePointSlice_xtw_subgroup{*xs3(0), *xs3(1), *xs3(2)}
		f := v.BatchNormalizeForZ()
		w := cp.CurvePointSlice_xtw_full{*xf3(0), cp.InfinitePoint1_xtw, *xf3(1)}
		g := w.BatchNormalizeForY()
		h := w.BatchNormalizeForZ()
		return fmt.Sprint(f, g, h) + show3(&v[1]) + show3(&w[2])
	})
	add("points from coordinates", func() string {
		s := ""
		for i := 0; i < 2; i++ {
			x, y := f3(pts3[i][0]), f3(pts3[i][1])
			p, err := cp.CurvePointFromXYAffine_subgroup(&x, &y, common.UntrustedInput)
			s += show3(&p) + fmt.Sprint(err)
			p2, err2 := cp.CurvePointFromYAndSignX_full(&y, 1, common.UntrustedInput)
			s += show3(&p2) + fmt.Sprint(err2)
			_, err3 := cp.CurvePointFromXYAffine_full(&x, &x, common.UntrustedInput)
			s += fmt.Sprint(err3)
			fx := f3(full3[i][0])
			_, err4 := cp.CurvePointFromXAndSignY_subgroup(&fx, 1, common.UntrustedInput)
			s += fmt.Sprint(err4)
		}
		return s
	})
	add("uninitialized points", func() string {
		var p, q cp.Point_xtw_full
		return fmt.Sprint(p.IsNaP(), p.IsEqual(&q), p.IsNeutralElement())
	})
	add("random elements", func() string {
		var a F
		a.SetRandomUnsafe(rand.New(rand.NewSource(3)))
		return sh(&a)
	})
	short, long := ps.BanderwagonShort, ps.BanderwagonLong
	derived := ps.BanderwagonLong.WithParameter("SinglePointHeader", []byte("h")).WithParameter("GlobalSliceFooter", []byte("f")).WithEndianness(binary.BigEndian)
	type sliceSer interface {
		SerializeSlice(outputStream interface{ Write([]byte) (int, error) }, points cp.CurvePointSlice) (int, ps.BatchSerializationError)
	}
	_ = sliceSer(nil)
	for _, s := range []struct {
		n string
		s ps.CurvePointSerializerModifyable
	}{{"BanderwagonShort", short}, {"BanderwagonLong", long}, {"derived serializer", derived}} {
		s := s
		add(s.n+": serialization", func() string {
			p := xs3(3)
			var w bytes.Buffer
			n, err := s.s.SerializeCurvePoint(&w, p)
			n2, err2 := s.s.SerializeCurvePoint(&w, es3(0))
			n3, err3 := s.s.SerializeCurvePoint(&w, xf3(0)) // not in the subgroup
			n4, err4 := s.s.SerializeCurvePoint(brokenWriter{}, p)
			return fmt.Sprintf("%x %d %v %d %v %d %v %d %v", w.Bytes(), n, err, n2, err2, n3, err3, n4, err4)
		})
		var enc bytes.Buffer
		if _, err := s.s.SerializeCurvePoint(&enc, xs3(3)); err != nil {
			panic(err)
		}
		encs := enc.String()
		add(s.n+": deserialization", func() string {
			var p cp.Point_xtw_full
			n, err := s.s.DeserializeCurvePoint(bytes.NewReader([]byte(encs)), common.UntrustedInput, &p)
			bad := []byte(encs)
			bad[len(bad)/2] ^= 1
			var q cp.Point_axtw_subgroup
			n2, err2 := s.s.DeserializeCurvePoint(bytes.NewReader(bad), common.UntrustedInput, &q)
			n3, err3 := s.s.DeserializeCurvePoint(bytes.NewReader(bad[:5]), common.UntrustedInput, &q)
			return show3(&p) + fmt.Sprint(n, err, n2, err2, n3, err3)
		})
		add(s.n+": batches", func() string {
			var w bytes.Buffer
			a, b := *xs3(0), *xs3(1)
			n, err := s.s.SerializeCurvePoints(&w, cp.GenericPointSlice{&a, &b})
			v := make([]cp.Point_xtw_subgroup, 2)
			m, k, err2 := ps.DeserializeCurvePoints_Bounded(s.s, bytes.NewReader(w.Bytes()), common.UntrustedInput, cp.CurvePointSlice_xtw_subgroup(v))
			return show3(&v[0]) + show3(&v[1]) + fmt.Sprint(n, err, m, k, err2)
		})
		add(s.n+": configuration", func() string {
			d := s.s.WithParameter("PerPointHeader", []byte("xy")).WithEndianness(binary.BigEndian).WithParameter("SubgroupOnly", true)
			l, err := d.SliceOutputLength(5)
			did, v := vk.Panics(func() { s.s.WithParameter("nope", 1) })
			return fmt.Sprint(d.OutputLength(), l, err, d.GetParameter("PerPointHeader"), s.s.GetParameter("PerPointHeader"), s.s.RecognizedParameters(), did, v, s.s.HasParameter("Endianness"))
		})
	}
	return
}

type brokenWriter struct{}

var errBroken = errors.New("broken writer")

func (brokenWriter) Write(p []byte) (int, error) { return 3, errBroken }

func c03(thorough bool) (out []scen) {
	out = reenter()
	ops := ops3()
	want := make([]string, len(ops))
	for i := range ops {
		want[i] = ops[i].f()
	}
	add := func(idx ...int) {
		name := ""
		for k, i := range idx {
			if k > 0 {
				name += " || "
			}
			name += ops[i].name
		}
		out = append(out, scen{name: name, bound: [2]int{1, 4 - len(idx)}, parts: [2]int{1, 1}, setup: func() ([]func(), func() string) {
			got := make([]string, len(idx))
			var fs []func()
			for k, i := range idx {
				k, i := k, i
				fs = append(fs, func() { got[k] = ops[i].f() })
			}
			return fs, func() string {
				for k, i := range idx {
					if got[k] != want[i] {
						return fmt.Sprintf("%s gives %q instead of %q", ops[i].name, got[k], want[i])
					}
				}
				return ""
			}
		}})
	}
	for i := range ops {
		for j := range ops[:i+1] {
			add(i, j)
			if thorough {
				for k := range ops[:j+1] {
					add(i, j, k)
				}
			}
		}
	}
	return
}
