//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"math/rand"

	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

// script is a crafted source of randomness: the given 32-bit words, then those of a fixed generator. It counts what is taken.
type script struct {
	words []uint32
	n     int
	g     uint64
}

func (s *script) Seed(int64) {}

func (s *script) word() (w uint32) {
	if s.n < len(s.words) {
		w = s.words[s.n]
	} else {
		s.g = s.g*6364136223846793005 + 1442695040888963407
		w = uint32(s.g >> 32)
	}
	s.n++
	return
}

func (s *script) Int63() int64   { return int64(uint64(s.word())<<31 | uint64(s.n)&1) }
func (s *script) Uint64() uint64 { w := uint64(s.word()); return w<<32 | w }

// blocks are the 32-bit words of one 256-bit number, least significant first (the order in which math/big takes them).
var blocks = func() (out [][]uint32) {
	for _, v := range []*big.Int{vk.BI(0), vk.BI(1), vk.Sub(vk.P, vk.BI(1)), vk.P, vk.Sub(vk.Pow2(256), vk.BI(1)), vk.Generic(77, vk.P)} {
		var b []uint32
		for _, l := range vk.ToLimbs4(v) {
			b = append(b, uint32(l), uint32(l>>32))
		}
		out = append(out, b)
	}
	return append(out, []uint32{1}) // a single word, so that what follows is not aligned with numbers
}()

func scriptOf(i int) *script {
	var w []uint32
	for ; i > 0; i /= len(blocks) + 1 {
		if d := i % (len(blocks) + 1); d > 0 {
			w = append(w, blocks[d-1]...)
		}
	}
	return &script{words: w, g: 12345}
}

// draws is what a script gives when elements are drawn repeatedly: values, representations and the amount of randomness taken.
type draws struct {
	vals  []*big.Int
	raws  []string
	taken []int
}

var randomOps = []string{"CreateRandomFieldElement_Unsafe", "CreateRandomNonZeroFieldElement_Unsafe", "SetRandomUnsafe"}

// makers are the creating functions, instantiated for the element type (a type parameter cannot be passed on to them).
type makers[T any] struct{ any, nonzero func(*rand.Rand) T }

var mainMakers = makers[fe.FieldElement]{fe.CreateRandomFieldElement_Unsafe[fe.FieldElement], fe.CreateRandomNonZeroFieldElement_Unsafe[fe.FieldElement]}

func draw[T any, P ptr[T]](m makers[T], i, op, k int) (d draws) {
	src := scriptOf(i)
	rnd := rand.New(src)
	for j := 0; j < k; j++ {
		var x T
		switch op {
		case 0:
			x = m.any(rnd)
		case 1:
			x = m.nonzero(rnd)
		case 2:
			P(&x).SetRandomUnsafe(rnd)
		}
		d.raws, d.taken = append(d.raws, raw1[T, P](x)), append(d.taken, src.n)
		d.vals = append(d.vals, P(&x).ToBigInt())
	}
	return
}

// random checks the documented behaviour of the pseudo-random creation of elements on crafted sources.
func random[T any, P ptr[T]](r *vk.Run, m makers[T], name string) {
	depth := 3
	if r.Thorough {
		depth = 4
	}
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(blocks) + 1
	}
	r.Each(n*len(randomOps), func(i int) string {
		return fmt.Sprintf("%s/crafted source %d/%s", name, i%n, randomOps[i/n])
	}, func(t *vk.T, i int) {
		op := i / n
		i %= n
		d, again, main := draw[T, P](m, i, op, 4), draw[T, P](m, i, op, 4), draw(mainMakers, i, op, 4)
		t.Trace(1)
		t.Trans(4)
		for j, v := range d.vals {
			if v.Sign() < 0 || v.Cmp(vk.P) >= 0 {
				t.Failf("%s: %s gives %v", name, randomOps[op], v)
			}
			if op == 1 && v.Sign() == 0 {
				t.Failf("%s: %s gives zero", name, randomOps[op])
			}
			if d.raws[j] != again.raws[j] || d.taken[j] != again.taken[j] {
				t.Failf("%s: %s is not a function of the source of randomness", name, randomOps[op])
			}
			if v.Cmp(main.vals[j]) != 0 {
				t.Failf("%s: %s, element %d: value depends on the type of the field element: %#x, %#x", name, randomOps[op], j, v, main.vals[j])
			}
			if d.taken[j] != main.taken[j] {
				t.Failf("%s: %s, element %d: amount of randomness taken depends on the type of the field element: %d, %d", name, randomOps[op], j, d.taken[j], main.taken[j])
			}
		}
		t.State("crafted", name, fmt.Sprint(op, d.vals))
	})
	r.Case(name+"/variety of random elements", func(t *vk.T) {
		for op := range randomOps {
			seen := map[string]bool{}
			for _, v := range draw[T, P](m, 0, op, 64).vals {
				seen[v.String()] = true
			}
			if len(seen) < 60 {
				t.Failf("%s: %s gives only %d different elements out of 64", name, randomOps[op], len(seen))
			}
		}
		t.Trans(192)
	})
}

// rerandomize checks that equal elements have the same internal representation after taking the same seed, and keep their value.
func rerandomize[T any, P ptr[T]](r *vk.Run, name string) {
	var seeds []uint64
	for i := 0; i < 64; i++ {
		seeds = append(seeds, 1<<i, 1<<i-1, ^(1 << i), uint64(i)*0x9e3779b97f4a7c15)
	}
	vals := vk.Around(2, vk.BI(0), half, vk.P, vk.Pow2(64), vk.Pow2(128), vk.Pow2(254), inv(vk.Mod(vk.Pow2(256), vk.P)))
	// Montgomery forms near the point where a second representation stops fitting into 256 bits
	rinv := inv(vk.Mod(vk.Pow2(256), vk.P))
	for _, v := range vk.Around(2, vk.Sub(vk.Pow2(256), vk.P), vk.Sub(vk.Pow2(256), vk.Add(vk.P, vk.P)), vk.P, half) {
		vals = append(vals, vk.Mul(vk.Mod(v, vk.P), rinv))
	}
	for i := uint64(0); i < 6; i++ {
		vals = append(vals, vk.Generic(i+900, vk.P))
	}
	for i := range vals {
		vals[i] = vk.Mod(vals[i], vk.P)
	}
	vals = vk.Uniq(vals, vk.BI(0), vk.P)
	r.Each(len(vals), func(i int) string { return fmt.Sprintf("%s/rerandomize %#x", name, vals[i]) }, func(t *vk.T, i int) {
		v := vals[i]
		for _, s := range seeds {
			// several ways of obtaining the same value
			var x [5]T
			P(&x[0]).SetBigInt(v)
			P(&x[1]).SetBigInt(v)
			P(&x[1]).RerandomizeRepresentation(1)
			P(&x[2]).SetBigInt(neg(v))
			P(&x[2]).NegEq()
			P(&x[3]).SetBigInt(vk.Sub(v, vk.BI(1)))
			var one T
			P(&one).SetOne()
			P(&one).RerandomizeRepresentation(1)
			P(&x[3]).AddEq(&one)
			P(&x[4]).SetBigInt(v)
			P(&x[4]).RerandomizeRepresentation(s + 1)
			for k := range x {
				P(&x[k]).RerandomizeRepresentation(s)
				if raw1[T, P](x[k]) != raw1[T, P](x[0]) {
					t.Failf("%s: equal elements of value %#x have different representations after RerandomizeRepresentation(%#x)", name, v, s)
				}
				if g := P(&x[k]).ToBigInt(); g.Cmp(v) != 0 {
					t.Failf("%s: RerandomizeRepresentation(%#x) changes %#x to %#x", name, s, v, g)
				}
				t.Trans(1)
			}
		}
		t.State("rerandomize", name, v.String())
	})
}
