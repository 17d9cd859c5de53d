//go:build go1.22

package main

import (
	"math/big"

	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

// reference classification of pairs of field elements, by the curve equation and multiplication with the group order (math/big)

func onCurve(x, y *big.Int) bool {
	x2, y2 := fm(x, x), fm(y, y)
	l := vk.Add(vk.Mul(curvA, x2), y2)
	r := vk.Add(vk.BI(1), vk.Mul(curvD, fm(x2, y2)))
	return vk.Mod(vk.Sub(l, r), vk.P).Sign() == 0
}

// inSubSlow: is the point on the curve in the subgroup of order r? By multiplication with r.
func inSubSlow(x, y *big.Int) bool {
	p := pj{x, y, vk.BI(1)}
	acc := pj{vk.BI(0), vk.BI(1), vk.BI(1)}
	for i := vk.R.BitLen() - 1; i >= 0; i-- {
		acc = pjAdd(acc, acc)
		if vk.R.Bit(i) == 1 {
			acc = pjAdd(acc, p)
		}
	}
	// exceptional cases of the addition law give z=0; they only occur outside of the subgroup
	return acc.z.Sign() != 0 && acc.x.Sign() == 0 && acc.y.Cmp(acc.z) == 0
}

// 2-descent on the Weierstrass form Y^2 = X(X-e1)(X-e2), X = B*(1+y)/(1-y): as the group is Z/r x Z/2 x Z/2,
// the subgroup of order r consists of the doubles, i.e. of the points for which X, X-e1, X-e2 are squares.
var descB, descE1, descE2 = func() (b, e1, e2 *big.Int) {
	i := finv(vk.Mod(vk.Sub(curvA, curvD), vk.P))
	a := fm(vk.Mul(vk.BI(2), vk.Add(curvA, curvD)), i)
	b = fm(vk.BI(4), i)
	s := new(big.Int).ModSqrt(vk.Mod(vk.Sub(vk.Mul(a, a), vk.BI(4)), vk.P), vk.P)
	h := finv(vk.BI(2))
	return b, fm(b, fm(vk.Sub(s, a), h)), fm(b, fm(vk.Sub(fneg(s), a), h))
}()

// inSub: is the point on the curve in the subgroup of order r?
func inSub(x, y *big.Int) bool {
	if x.Sign() == 0 {
		return y.Cmp(vk.BI(1)) == 0
	}
	X := fm(fm(descB, vk.Add(vk.BI(1), y)), finv(vk.Mod(vk.Sub(vk.BI(1), y), vk.P)))
	for _, e := range []*big.Int{vk.BI(0), descE1, descE2} {
		if big.Jacobi(vk.Mod(vk.Sub(X, e), vk.P), vk.P) != 1 {
			return false
		}
	}
	return true
}

func init() {
	for _, m := range append(models(kset(0)), mk(vk.BI(5), tA), mk(vk.BI(6), tN), mk(vk.BI(7), tE1), mk(vk.BI(8), tE2)) {
		if a := m.aff(); !a.inf && (inSub(a.x, a.y) != m.sub() || inSubSlow(a.x, a.y) != m.sub() || !onCurve(a.x, a.y)) {
			panic("reference model: subgroup criteria disagree")
		}
	}
}

// signs: Sign() is +1 for 1..(p-1)/2
func fsign(x *big.Int) int {
	if x.Sign() == 0 {
		return 0
	}
	if x.Cmp(new(big.Int).Rsh(vk.P, 1)) <= 0 {
		return 1
	}
	return -1
}

// yFromX: some y with (x,y) on the curve
func yFromX(x *big.Int) (*big.Int, bool) {
	x2 := fm(x, x)
	num := vk.Mod(vk.Sub(vk.BI(1), vk.Mul(curvA, x2)), vk.P)
	den := vk.Mod(vk.Sub(vk.BI(1), vk.Mul(curvD, x2)), vk.P)
	y := new(big.Int).ModSqrt(fm(num, finv(den)), vk.P)
	return y, y != nil
}

func xFromY(y *big.Int) (*big.Int, bool) {
	y2 := fm(y, y)
	num := vk.Mod(vk.Sub(y2, vk.BI(1)), vk.P)
	den := vk.Mod(vk.Sub(vk.Mul(curvD, y2), curvA), vk.P)
	if den.Sign() == 0 {
		return nil, false
	}
	x := new(big.Int).ModSqrt(fm(num, finv(den)), vk.P)
	return x, x != nil
}

// coset of x: does (x, +-y) contain a subgroup point mod A?
func subMod(x, y *big.Int) bool { return inSub(x, y) || inSub(fneg(x), fneg(y)) }
