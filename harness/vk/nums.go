//go:build go1.22

package vk

import (
	"math/big"
	"sort"
)

func BI(x int64) *big.Int { return big.NewInt(x) }
func Hex(s string) *big.Int {
	r, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic("bad constant " + s)
	}
	return r
}
func Pow2(k uint) *big.Int       { return new(big.Int).Lsh(big.NewInt(1), k) }
func Add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func Sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func Mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func Mod(a, m *big.Int) *big.Int { return new(big.Int).Mod(a, m) }

// The mathematical constants, written down independently of the code under test.
var (
	P      = Hex("0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001") // base field
	R      = Hex("0x1cfb69d4ca675f520cce760202687600ff8f87007419047174fd06b52876e7e1") // prime group order
	TwoR   = Mul(BI(2), R)
	Lambda = Hex("0x13b4f3dc4a39a493edf849562b38c72bcfc49db970a5056ed13d21408783df05") // endomorphism eigenvalue
	Two64  = Pow2(64)
	Two256 = Pow2(256)
	Two512 = Pow2(512)
	PrimeD = Hex("0x6389c12633c267cbc66e3bf86be3b6d8cb66677177e54f92b369f2f5188d58e7") // curve parameter d (a = -5)
)

// Uniq sorts and de-duplicates, and keeps only values in [lo, hi).
func Uniq(xs []*big.Int, lo, hi *big.Int) (out []*big.Int) {
	cp := append([]*big.Int(nil), xs...)
	sort.Slice(cp, func(i, j int) bool { return cp[i].Cmp(cp[j]) < 0 })
	for _, x := range cp {
		if x.Cmp(lo) < 0 || x.Cmp(hi) >= 0 {
			continue
		}
		if len(out) > 0 && out[len(out)-1].Cmp(x) == 0 {
			continue
		}
		out = append(out, x)
	}
	return
}

// Around returns c-k .. c+k for all centers c.
func Around(k int64, centers ...*big.Int) (out []*big.Int) {
	for _, c := range centers {
		for d := -k; d <= k; d++ {
			out = append(out, Add(c, BI(d)))
		}
	}
	return
}

// Limbs returns all values with the given number of 64-bit limbs, each limb from the alphabet.
func Limbs(n int, alphabet ...uint64) (out []*big.Int) {
	out = []*big.Int{BI(0)}
	for i := 0; i < n; i++ {
		var next []*big.Int
		for _, x := range out {
			for _, a := range alphabet {
				next = append(next, Add(new(big.Int).Lsh(x, 64), new(big.Int).SetUint64(a)))
			}
		}
		out = next
	}
	return
}

// Mix is a fixed full-period pseudo-random sequence (used to get generic, structure-free values; the same on every run).
func Mix(seed uint64) uint64 {
	z := seed*0x9e3779b97f4a7c15 + 0x632be59bd9b4e019
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Generic returns the i-th generic value below m.
func Generic(i uint64, m *big.Int) *big.Int {
	x := BI(0)
	for k := uint64(0); k < 9; k++ {
		x = Add(new(big.Int).Lsh(x, 64), new(big.Int).SetUint64(Mix(i*1000+k)))
	}
	return x.Mod(x, m)
}

func ToLimbs4(x *big.Int) (r [4]uint64) {
	y := new(big.Int).Set(x)
	m := new(big.Int).Sub(Two64, BI(1))
	for i := range r {
		r[i] = new(big.Int).And(y, m).Uint64()
		y.Rsh(y, 64)
	}
	return
}
func FromLimbs(l []uint64) *big.Int {
	x := BI(0)
	for i := len(l) - 1; i >= 0; i-- {
		x.Lsh(x, 64)
		x.Or(x, new(big.Int).SetUint64(l[i]))
	}
	return x
}
