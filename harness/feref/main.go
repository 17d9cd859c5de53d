//go:build go1.22

// Harness for the field element interface and its implementations (F10, F11).
package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"

	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

type U = fe.Uint256

// ptr is what every implementation of the field element interface provides.
type ptr[T any] interface {
	*T
	fe.FieldElementInterface[*T]
}

func main() {
	vk.Main(
		vk.Property{ID: "F10", Level: "model_checking", Run: f10, Assumptions: []string{"math/big is correct", "operands outside the bounded value set are not executed"},
			Rule: "state = two registers of the implementation; every operation of the interface in every aliasing, with boundary constants, from all ordered pairs of boundary values, and breadth-first exploration of all operation sequences with de-duplication; in lockstep with a model of residues, every getter and relation compared in every state"},
		vk.Property{ID: "F11", Level: "exploration", Run: f11, Assumptions: []string{"math/big is correct"},
			Rule: "all moduli with every leading 16-bit pattern at every shift x tails, all 4-limb patterns over a limb alphabet, powers of two and multiples/divisors near 2^k and their neighbours; distinct = moduli"},
	)
}

// model of the two registers
type model struct{ a, b *big.Int }

func (m model) get(i int) *big.Int {
	if i == 0 {
		return m.a
	}
	return m.b
}

func (m model) with(i int, v *big.Int) model {
	v = vk.Mod(v, vk.P)
	if i == 0 {
		m.a = v
	} else {
		m.b = v
	}
	return m
}

type action[T any] struct {
	name string
	// f acts on the registers
	f func(r *[2]T)
	// ref gives the new model; nil value in ok=false: the operation must panic
	ref func(m model) (model, bool)
}

func inv(x *big.Int) *big.Int { return new(big.Int).ModInverse(x, vk.P) }
func neg(x *big.Int) *big.Int { return new(big.Int).Neg(x) }

func mkU(x *big.Int) U {
	w := vk.ToLimbs4(x)
	return U(w)
}

func toI(u *U) *big.Int { return vk.FromLimbs(u[:]) }

var bigExps = []*big.Int{vk.BI(0), vk.BI(1), vk.BI(2), vk.BI(3), vk.Sub(vk.P, vk.BI(2)), vk.Sub(vk.P, vk.BI(1)), vk.P, vk.Sub(vk.Pow2(256), vk.BI(1)), vk.Pow2(64), vk.Pow2(255)}
var i64s = []int64{0, 1, -1, 5, math.MinInt64, math.MinInt64 + 1, math.MaxInt64}
var u64s = []uint64{0, 1, 7, 1 << 63, 1<<63 - 1, math.MaxUint64}

func actions[T any, P ptr[T]](small bool) (out []action[T]) {
	add := func(name string, f func(r *[2]T), ref func(m model) (model, bool)) {
		out = append(out, action[T]{name, f, ref})
	}
	set := func(name string, z int, f func(r *[2]T), val func(m model) *big.Int) {
		add(name, f, func(m model) (model, bool) {
			v := val(m)
			if v == nil {
				return m, false
			}
			return m.with(z, v), true
		})
	}
	n := [2]string{"a", "b"}
	type op2 struct {
		name string
		f    func(z, x, y P)
		ref  func(x, y *big.Int) *big.Int
	}
	div := func(x, y *big.Int) *big.Int {
		if y.Sign() == 0 {
			return nil
		}
		return vk.Mul(x, inv(vk.Mod(y, vk.P)))
	}
	for _, o := range []op2{
		{"Add", func(z, x, y P) { z.Add(x, y) }, vk.Add},
		{"Sub", func(z, x, y P) { z.Sub(x, y) }, vk.Sub},
		{"Mul", func(z, x, y P) { z.Mul(x, y) }, vk.Mul},
		{"Divide", func(z, x, y P) { z.Divide(x, y) }, div},
	} {
		for k := 0; k < 8; k++ {
			z, x, y := k>>2, k>>1&1, k&1
			set(fmt.Sprintf("%s.%s(%s,%s)", n[z], o.name, n[x], n[y]), z, func(r *[2]T) { o.f(&r[z], &r[x], &r[y]) }, func(m model) *big.Int { return o.ref(m.get(x), m.get(y)) })
		}
	}
	type op2e struct {
		name string
		f    func(z, y P)
		ref  func(x, y *big.Int) *big.Int
	}
	for _, o := range []op2e{
		{"AddEq", func(z, y P) { z.AddEq(y) }, vk.Add},
		{"SubEq", func(z, y P) { z.SubEq(y) }, vk.Sub},
		{"MulEq", func(z, y P) { z.MulEq(y) }, vk.Mul},
		{"DivideEq", func(z, y P) { z.DivideEq(y) }, div},
	} {
		for k := 0; k < 4; k++ {
			z, y := k>>1, k&1
			set(fmt.Sprintf("%s.%s(%s)", n[z], o.name, n[y]), z, func(r *[2]T) { o.f(&r[z], &r[y]) }, func(m model) *big.Int { return o.ref(m.get(z), m.get(y)) })
		}
	}
	type op1 struct {
		name    string
		f       func(z, x P)
		inplace bool
		ref     func(x *big.Int) *big.Int
	}
	invz := func(x *big.Int) *big.Int {
		if x.Sign() == 0 {
			return nil
		}
		return inv(x)
	}
	id := func(x *big.Int) *big.Int { return x }
	five := func(x *big.Int) *big.Int { return vk.Mul(x, vk.BI(5)) }
	dbl := func(x *big.Int) *big.Int { return vk.Add(x, x) }
	sq := func(x *big.Int) *big.Int { return vk.Mul(x, x) }
	c := func(v int64) func(x *big.Int) *big.Int { return func(x *big.Int) *big.Int { return vk.BI(v) } }
	for _, o := range []op1{
		{"Neg", func(z, x P) { z.Neg(x) }, false, neg},
		{"Double", func(z, x P) { z.Double(x) }, false, dbl},
		{"Square", func(z, x P) { z.Square(x) }, false, sq},
		{"MulFive", func(z, x P) { z.MulFive(x) }, false, five},
		{"Inv", func(z, x P) { z.Inv(x) }, false, invz},
		{"copy via bytes", func(z, x P) { b := make([]byte, x.BytesLength()); x.ToBytes(b); z.SetBytes(b) }, false, id},
		{"copy via big.Int", func(z, x P) { z.SetBigInt(x.ToBigInt()) }, false, id},
		{"copy via Uint256", func(z, x P) { var u U; x.ToUint256(&u); z.SetUint256(&u) }, false, id},
		{"NegEq", func(z, x P) { z.NegEq() }, true, neg},
		{"DoubleEq", func(z, x P) { z.DoubleEq() }, true, dbl},
		{"SquareEq", func(z, x P) { z.SquareEq() }, true, sq},
		{"MulEqFive", func(z, x P) { z.MulEqFive() }, true, five},
		{"InvEq", func(z, x P) { z.InvEq() }, true, invz},
		{"SetZero", func(z, x P) { z.SetZero() }, true, c(0)},
		{"SetOne", func(z, x P) { z.SetOne() }, true, c(1)},
		{"Normalize", func(z, x P) { z.Normalize() }, true, id},
		{"RerandomizeRepresentation(0)", func(z, x P) { z.RerandomizeRepresentation(0) }, true, id},
		{"RerandomizeRepresentation(1)", func(z, x P) { z.RerandomizeRepresentation(1) }, true, id},
	} {
		for k := 0; k < 4; k++ {
			z, x := k>>1, k&1
			if o.inplace && z != x {
				continue
			}
			set(fmt.Sprintf("%s.%s(%s)", n[z], o.name, n[x]), z, func(r *[2]T) { o.f(&r[z], &r[x]) }, func(m model) *big.Int { return o.ref(m.get(x)) })
		}
	}
	// square roots: the model accepts either root
	for k := 0; k < 4; k++ {
		z, x := k>>1, k&1
		add(fmt.Sprintf("%s.SquareRoot(%s)", n[z], n[x]), nil, nil)
		a := &out[len(out)-1]
		a.f = func(r *[2]T) {
			before := *r
			var cp T = r[x]
			want := big.Jacobi(P(&cp).ToBigInt(), vk.P) >= 0
			if P(&r[z]).SquareRoot(&r[x]) != want {
				panic(fmt.Sprintf("SquareRoot reports %v", !want))
			}
			if !want {
				if rawOf[T, P](&before) != rawOf[T, P](r) {
					panic("failing SquareRoot changed a register")
				}
				return
			}
			root := P(&r[z]).ToBigInt()
			s := new(big.Int).ModSqrt(P(&cp).ToBigInt(), vk.P)
			if root.Cmp(s) != 0 {
				if root.Cmp(vk.Mod(neg(s), vk.P)) != 0 {
					panic("SquareRoot does not return a root")
				}
				P(&r[z]).NegEq()
			}
		}
		a.ref = func(m model) (model, bool) {
			v := m.get(x)
			if big.Jacobi(v, vk.P) < 0 {
				return m, true
			}
			return m.with(z, new(big.Int).ModSqrt(v, vk.P)), true
		}
	}
	if small {
		return
	}
	for _, k := range [][2]int{{0, 0}, {0, 1}, {1, 0}} {
		z, x := k[0], k[1]
		for _, v := range i64s {
			bv := vk.BI(v)
			for _, o := range []struct {
				name string
				f    func(z, x P)
				ref  func(x, y *big.Int) *big.Int
			}{
				{"AddInt64", func(z, x P) { z.AddInt64(x, v) }, vk.Add},
				{"SubInt64", func(z, x P) { z.SubInt64(x, v) }, vk.Sub},
				{"MulInt64", func(z, x P) { z.MulInt64(x, v) }, vk.Mul},
				{"DivideInt64", func(z, x P) { z.DivideInt64(x, v) }, div},
				{"SetInt64", func(z, x P) { z.SetInt64(v) }, func(x, y *big.Int) *big.Int { return y }},
			} {
				set(fmt.Sprintf("%s.%s(%s,%d)", n[z], o.name, n[x], v), z, func(r *[2]T) { o.f(&r[z], &r[x]) }, func(m model) *big.Int { return o.ref(m.get(x), bv) })
			}
		}
		for _, v := range u64s {
			bv := new(big.Int).SetUint64(v)
			for _, o := range []struct {
				name string
				f    func(z, x P)
				ref  func(x, y *big.Int) *big.Int
			}{
				{"AddUint64", func(z, x P) { z.AddUint64(x, v) }, vk.Add},
				{"SubUint64", func(z, x P) { z.SubUint64(x, v) }, vk.Sub},
				{"MulUint64", func(z, x P) { z.MulUint64(x, v) }, vk.Mul},
				{"DivideUint64", func(z, x P) { z.DivideUint64(x, v) }, div},
				{"SetUint64", func(z, x P) { z.SetUint64(v) }, func(x, y *big.Int) *big.Int { return y }},
			} {
				set(fmt.Sprintf("%s.%s(%s,%d)", n[z], o.name, n[x], v), z, func(r *[2]T) { o.f(&r[z], &r[x]) }, func(m model) *big.Int { return o.ref(m.get(x), bv) })
			}
		}
		for _, e := range bigExps {
			set(fmt.Sprintf("%s.Exp(%s,%v)", n[z], n[x], e), z, func(r *[2]T) {
				u := mkU(e)
				P(&r[z]).Exp(&r[x], &u)
				if u != mkU(e) {
					panic("Exp changed the exponent")
				}
			}, func(m model) *big.Int { return new(big.Int).Exp(m.get(x), e, vk.P) })
		}
	}
	for _, v := range vk.Around(1, vk.BI(0), vk.P, neg(vk.P), vk.Add(vk.P, vk.P), vk.Pow2(256), vk.Pow2(512), neg(vk.Pow2(300)), vk.Pow2(1025), neg(vk.Add(vk.Pow2(2100), vk.BI(5))), vk.Sub(vk.Pow2(256), vk.P)) {
		v := v
		set(fmt.Sprintf("a.SetBigInt(%#x)", v), 0, func(r *[2]T) {
			w := new(big.Int).Set(v)
			P(&r[0]).SetBigInt(w)
			if w.Cmp(v) != 0 {
				panic("SetBigInt changed its argument")
			}
		}, func(m model) *big.Int { return v })
		if v.Sign() >= 0 && v.BitLen() <= 256 {
			set(fmt.Sprintf("b.SetUint256(%#x)", v), 1, func(r *[2]T) {
				u := mkU(v)
				P(&r[1]).SetUint256(&u)
				if u != mkU(v) {
					panic("SetUint256 changed its argument")
				}
			}, func(m model) *big.Int { return v })
		}
	}
	return
}

var half = new(big.Int).Rsh(vk.P, 1)

// observe compares everything that can be seen of the registers with the model
func observe[T any, P ptr[T]](r *[2]T, m model) string {
	for i := 0; i < 2; i++ {
		v := m.get(i)
		c := r[i] // getters may normalize
		if g := P(&c).ToBigInt(); g.Cmp(v) != 0 {
			return fmt.Sprintf("register %d is %#x, should be %#x", i, g, v)
		}
		var u U
		if P(&c).ToUint256(&u); toI(&u).Cmp(v) != 0 {
			return fmt.Sprintf("ToUint256 of %#x is %v", v, u)
		}
		c = r[i]
		if P(&c).IsZero() != (v.Sign() == 0) || P(&c).IsOne() != (v.Cmp(vk.BI(1)) == 0) {
			return fmt.Sprintf("IsZero/IsOne of %#x is %v/%v", v, P(&c).IsZero(), P(&c).IsOne())
		}
		c = r[i]
		s := 0
		if v.Sign() > 0 {
			s = 1
			if v.Cmp(half) > 0 {
				s = -1
			}
		}
		if g := P(&c).Sign(); g != s {
			return fmt.Sprintf("Sign of %#x is %d", v, g)
		}
		c = r[i]
		if g := P(&c).Jacobi(); g != big.Jacobi(v, vk.P) {
			return fmt.Sprintf("Jacobi of %#x is %d", v, g)
		}
		c = r[i]
		if g, err := P(&c).ToUint64(); (err == nil) != v.IsUint64() || err == nil && g != v.Uint64() || err != nil && !errors.Is(err, fe.ErrCannotRepresentFieldElement) {
			return fmt.Sprintf("ToUint64 of %#x is %d, %v", v, g, err)
		}
		sv := v
		if s < 0 {
			sv = vk.Sub(v, vk.P)
		}
		c = r[i]
		if g, err := P(&c).ToInt64(); (err == nil) != sv.IsInt64() || err == nil && g != sv.Int64() || err != nil && !errors.Is(err, fe.ErrCannotRepresentFieldElement) {
			return fmt.Sprintf("ToInt64 of %#x is %d, %v", v, g, err)
		}
		if g := any(c).(fmt.Stringer).String(); g != v.String() {
			return fmt.Sprintf("String of %#x is %s", v, g)
		}
		if g := fmt.Sprintf("%#x", c); g != fmt.Sprintf("%#x", v) {
			return fmt.Sprintf("%%#x of %#x is %s", v, g)
		}
	}
	a, b := r[0], r[1]
	eq, eqn := m.a.Cmp(m.b) == 0, m.a.Cmp(vk.Mod(neg(m.b), vk.P)) == 0
	if P(&a).IsEqual(&b) != eq || P(&b).IsEqual(&a) != eq {
		return fmt.Sprintf("IsEqual of %#x and %#x should be %v", m.a, m.b, eq)
	}
	a, b = r[0], r[1]
	for i := 0; i < 2; i++ {
		if g, h := P(&a).CmpAbs(&b); g != (eq || eqn) || h != eq {
			return fmt.Sprintf("CmpAbs of %#x and %#x is %v, %v", m.a, m.b, g, h)
		}
		a, b = b, a
	}
	if g, h := P(&a).CmpAbs(&a); !g || !h || !P(&b).IsEqual(&b) {
		return fmt.Sprintf("%#x or %#x does not equal itself", m.a, m.b)
	}
	if P(&a).Normalize(); eq {
		if P(&b).Normalize(); raw1[T, P](a) != raw1[T, P](b) {
			return fmt.Sprintf("different normal forms of %#x", m.a)
		}
	}
	return ""
}

func raw1[T any, P ptr[T]](x T) string { return rawOf[T, P](&[2]T{x, x}) }

func rawOf[T any, P ptr[T]](r *[2]T) string {
	n := P(&r[0]).BytesLength()
	b := make([]byte, 2*n)
	P(&r[0]).ToBytes(b[:n])
	P(&r[1]).ToBytes(b[n:])
	return string(b)
}

func explore[T any, P ptr[T]](r *vk.Run, name string) {
	var vals []*big.Int
	vals = append(vals, vk.Around(1, vk.BI(0), half, vk.P, vk.Pow2(63), vk.Pow2(64), vk.Pow2(128), vk.Pow2(192), vk.Pow2(254))...)
	vals = append(vals, vk.Sub(vk.P, vk.Pow2(63)), vk.Sub(vk.P, vk.Pow2(64)), vk.Sub(vk.P, vk.Add(vk.Pow2(63), vk.BI(1))), inv(vk.BI(5)), inv(vk.Mod(vk.Pow2(256), vk.P)))
	for i := uint64(0); i < 4; i++ {
		vals = append(vals, vk.Generic(i+31, vk.P))
	}
	for i := range vals {
		vals[i] = vk.Mod(vals[i], vk.P)
	}
	vals = vk.Uniq(vals, vk.BI(0), vk.P)
	type node struct {
		r [2]T
		m model
	}
	start := func(x, y *big.Int, k int) (n node) {
		n.m = model{x, y}
		P(&n.r[0]).SetBigInt(x)
		P(&n.r[1]).SetBigInt(y)
		P(&n.r[0]).RerandomizeRepresentation(uint64(k & 1))
		P(&n.r[1]).RerandomizeRepresentation(uint64(k >> 1))
		return
	}
	full, few := actions[T, P](false), actions[T, P](true)
	step := func(t *vk.T, n node, a *action[T]) (node, bool) {
		old := n
		m, fine := a.ref(n.m)
		did, v := vk.Panics(func() { a.f(&n.r) })
		t.Trans(1)
		if did == fine {
			t.Failf("%s: %s on (%#x, %#x): panic: %v (%v)", name, a.name, old.m.a, old.m.b, did, v)
			return n, false
		}
		if !fine {
			if e, ok := v.(error); !ok || !errors.Is(e, fe.ErrDivisionByZero) {
				t.Failf("%s: %s on (%#x, %#x): panics with %v, not ErrDivisionByZero", name, a.name, old.m.a, old.m.b, v)
			}
			return n, false
		}
		n.m = m
		if bad := observe[T, P](&n.r, m); bad != "" {
			t.Failf("%s: after %s on (%#x, %#x): %s", name, a.name, old.m.a, old.m.b, bad)
			return n, false
		}
		return n, true
	}
	// every operation on every pair
	r.Each(len(vals)*len(vals), func(i int) string {
		return fmt.Sprintf("%s/pair (%#x, %#x)", name, vals[i%len(vals)], vals[i/len(vals)])
	}, func(t *vk.T, i int) {
		x, y := vals[i%len(vals)], vals[i/len(vals)]
		for k := 0; k < 4; k++ {
			n := start(x, y, k)
			if bad := observe[T, P](&n.r, n.m); bad != "" {
				t.Failf("%s: %s", name, bad)
			}
			acts := full
			if t.Quick() && (i/len(vals)+i%len(vals))%4 != k {
				acts = few
			}
			for j := range acts {
				step(t, n, &acts[j])
			}
			t.State(name, rawOf[T, P](&n.r))
		}
	})
	// sequences
	depth, width := 2, 20000
	acts := few
	if r.Thorough {
		depth, width = 3, 150000
	}
	var frontier []node
	for i, p := range [][2]*big.Int{{vk.BI(0), vk.BI(1)}, {vk.BI(1), vk.Sub(vk.P, vk.BI(1))}, {half, vk.Add(half, vk.BI(1))}, {vk.Generic(5, vk.P), vk.Generic(6, vk.P)}, {vk.Pow2(63), vk.Sub(vk.P, vk.Pow2(63))}} {
		frontier = append(frontier, start(p[0], p[1], i), start(p[0], p[1], 3-i&3))
	}
	seen := map[string]bool{}
	beyond := 0
	for d := 0; d <= depth && !r.Expired(); d++ {
		next := make([][]node, len(frontier))
		r.Each(len(frontier), func(i int) string { return fmt.Sprintf("%s/depth %d/%v", name, d, frontier[i].r) }, func(t *vk.T, i int) {
			next[i] = nil
			for j := range acts {
				if n, ok := step(t, frontier[i], &acts[j]); ok {
					next[i] = append(next[i], n)
				}
				t.Trace(1)
			}
			t.State(name, rawOf[T, P](&frontier[i].r))
		})
		frontier = frontier[:0:0]
		for _, ns := range next {
			for _, n := range ns {
				if k := rawOf[T, P](&n.r); !seen[k] {
					seen[k] = true
					if len(frontier) < width {
						frontier = append(frontier, n)
					} else {
						beyond++
					}
				}
			}
		}
	}
	r.Extra(name+"_sequence_depth", depth+1)
	r.Extra(name+"_states_beyond_the_width_limit_not_expanded", beyond)
	// pseudo-random elements depend on the generator only and are reduced
	r.Each(64, func(i int) string { return fmt.Sprintf("%s/SetRandomUnsafe %d", name, i) }, func(t *vk.T, i int) {
		var a, b T
		P(&b).SetInt64(-5)
		P(&a).SetRandomUnsafe(rand.New(rand.NewSource(int64(i))))
		P(&b).SetRandomUnsafe(rand.New(rand.NewSource(int64(i))))
		if raw1[T, P](a) != raw1[T, P](b) {
			t.Failf("%s: SetRandomUnsafe depends on the receiver", name)
		}
		for j := int64(0); j < 4; j++ {
			if P(&a).SetRandomUnsafe(rand.New(rand.NewSource(1000 + 4*int64(i) + j))); j > 0 && raw1[T, P](a) == raw1[T, P](b) {
				t.Failf("%s: SetRandomUnsafe is constant", name)
			}
			if v := P(&a).ToBigInt(); v.Sign() < 0 || v.Cmp(vk.P) >= 0 {
				t.Failf("%s: SetRandomUnsafe gives %v", name, v)
			} else if bad := observe[T, P](&[2]T{a, a}, model{v, v}); bad != "" {
				t.Failf("%s: SetRandomUnsafe: %s", name, bad)
			}
			b = a
		}
	})
}

func f10(r *vk.Run) {
	explore[fe.FieldElement](r, "main implementation")
	random(r, mainMakers, "main implementation")
	rerandomize[fe.FieldElement](r, "main implementation")
	reference(r)
	r.Sample("a.Divide(b,b) then b.SquareRoot(a) on (2^63, p-2^63), second representation, both implementations")
}
