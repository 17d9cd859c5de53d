//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"sync"

	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

// Reference model of the group of rational points of the curve, independent of the code under test.
// The group is Z/r x Z/2 x Z/2. A model point is k*G + (torsion t), t in {N, A, E1, E2}, with A+E1=E2.

const (
	tN  = 0
	tA  = 1
	tE1 = 2
	tE2 = 3
)

var (
	gx    = vk.Hex("0x29c132cc2c0b34c5743711777bbe42f32b79c022ad998465e1e71866a252ae18")
	gy    = vk.Hex("0x2a6c669eda123e0f157d8b50badcd586358cad81eee464605e3167b6cc974166")
	curvA = vk.BI(-5)
	curvD = vk.PrimeD
	sqDA  = vk.Hex("37446463827641770816307242315180085052603635617490163568005256780843403514038")
)

func init() {
	// s^2*a = d
	if vk.Mod(vk.Sub(vk.Mul(vk.Mul(sqDA, sqDA), curvA), curvD), vk.P).Sign() != 0 {
		panic("bad constant sqrt(d/a)")
	}
}

type mp struct {
	k *big.Int // mod r
	t int
}

func mk(k *big.Int, t int) mp { return mp{vk.Mod(k, vk.R), t} }
func (m mp) String() string {
	return fmt.Sprintf("%v*G+%v", kname(m.k), [4]string{"N", "A", "E1", "E2"}[m.t])
}
func (m mp) sub() bool    { return m.t == tN }
func (m mp) inf() bool    { return m.k.Sign() == 0 && m.t >= tE1 }
func (m mp) add(o mp) mp  { return mk(vk.Add(m.k, o.k), m.t^o.t) }
func (m mp) msub(o mp) mp { return mk(vk.Sub(m.k, o.k), m.t^o.t) }
func (m mp) neg() mp      { return mk(new(big.Int).Neg(m.k), m.t) }
func (m mp) dbl() mp      { return mk(vk.Add(m.k, m.k), tN) }
func (m mp) endo() mp {
	t := tN
	if m.t >= tE1 {
		t = tA
	}
	return mk(vk.Mul(m.k, vk.Lambda), t)
}
func (m mp) eq(o mp) bool { return m.t == o.t && m.k.Cmp(o.k) == 0 }
func (m mp) key() string  { return m.k.Text(62) + "," + string(rune('0'+m.t)) }

func kname(k *big.Int) string {
	if k.BitLen() < 20 {
		return k.String()
	}
	n := vk.Sub(vk.R, k)
	if n.BitLen() < 20 {
		return "-" + n.String()
	}
	return fmt.Sprintf("%#x", k)
}

func fm(a, b *big.Int) *big.Int { return vk.Mod(vk.Mul(a, b), vk.P) }
func finv(a *big.Int) *big.Int  { return new(big.Int).ModInverse(a, vk.P) }
func fneg(a *big.Int) *big.Int  { return vk.Mod(new(big.Int).Neg(a), vk.P) }

// projective twisted Edwards addition (complete on the subgroup generated by G and A)
type pj struct{ x, y, z *big.Int }

func pjAdd(p, q pj) pj {
	a := fm(p.z, q.z)
	b := fm(a, a)
	c := fm(p.x, q.x)
	d := fm(p.y, q.y)
	e := fm(curvD, fm(c, d))
	f := vk.Mod(vk.Sub(b, e), vk.P)
	g := vk.Mod(vk.Add(b, e), vk.P)
	h := vk.Sub(vk.Sub(fm(vk.Add(p.x, p.y), vk.Add(q.x, q.y)), c), d)
	return pj{fm(fm(a, f), h), fm(fm(a, g), vk.Sub(d, vk.Mul(curvA, c))), fm(f, g)}
}

// aff are affine coordinates (x,y,t) of a model point; inf: point at infinity, in the extended model (x:0:t:0)
type aff struct {
	x, y, t *big.Int
	inf     bool
}

var affMemo sync.Map // string -> *aff

func (m mp) aff() *aff {
	key := m.key()
	if v, ok := affMemo.Load(key); ok {
		return v.(*aff)
	}
	a := m.computeAff()
	v, _ := affMemo.LoadOrStore(key, a)
	return v.(*aff)
}

var gPowers = func() (out []pj) {
	g := pj{gx, gy, vk.BI(1)}
	for i := 0; i < 254; i++ {
		out = append(out, g)
		g = pjAdd(g, g)
	}
	return
}()

func (m mp) computeAff() *aff {
	if m.t != tN {
		b := mk(m.k, tN).aff()
		switch {
		case m.t == tA:
			return &aff{x: fneg(b.x), y: fneg(b.y), t: b.t}
		case m.k.Sign() == 0: // E1, E2: (s:0:1:0), (s:0:-1:0)
			t := vk.BI(1)
			if m.t == tE2 {
				t = fneg(t)
			}
			return &aff{x: sqDA, y: vk.BI(0), t: t, inf: true}
		default: // P+E1 = (s*y/(d*t), a*s*x/(d*t))
			i := finv(fm(curvD, b.t))
			x := fm(fm(sqDA, b.y), i)
			y := fm(fm(fm(curvA, sqDA), b.x), i)
			if m.t == tE2 {
				x, y = fneg(x), fneg(y)
			}
			return &aff{x: x, y: y, t: fm(x, y)}
		}
	}
	acc := pj{vk.BI(0), vk.BI(1), vk.BI(1)}
	for i := 0; i < m.k.BitLen(); i++ {
		if m.k.Bit(i) == 1 {
			acc = pjAdd(acc, gPowers[i])
		}
	}
	zi := finv(acc.z)
	x, y := fm(acc.x, zi), fm(acc.y, zi)
	return &aff{x: x, y: y, t: fm(x, y)}
}

// projective equality: is (X:Y:T:Z) the model point?
func (m mp) matches(X, Y, T, Z *big.Int) bool {
	a := m.aff()
	if a.inf {
		return Z.Sign() == 0 && Y.Sign() == 0 && T.Sign() != 0 && X.Cmp(fm(fm(T, a.t), sqDA)) == 0
	}
	return Z.Sign() != 0 && X.Cmp(fm(a.x, Z)) == 0 && Y.Cmp(fm(a.y, Z)) == 0 && T.Cmp(fm(a.t, Z)) == 0
}

// models returns the model points with the given multiples of G and all torsion parts
func models(ks []*big.Int) (out []mp) {
	for _, k := range ks {
		for t := 0; t < 4; t++ {
			out = append(out, mk(k, t))
		}
	}
	return
}

func kset(level int) []*big.Int {
	g1 := vk.Generic(101, vk.R)
	ks := []*big.Int{vk.BI(0), vk.BI(1), vk.BI(-1), g1}
	if level > 0 {
		ks = append(ks, vk.BI(2), new(big.Int).Neg(g1), vk.Lambda)
	}
	if level > 1 {
		half := new(big.Int).Rsh(vk.Add(vk.R, vk.BI(1)), 1)
		ks = append(ks, vk.BI(-2), half, vk.BI(3), vk.Sub(vk.R, vk.Lambda), vk.Generic(102, vk.R), vk.Generic(103, vk.R))
	}
	for i := range ks {
		ks[i] = vk.Mod(ks[i], vk.R)
	}
	return ks
}
