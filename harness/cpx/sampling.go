//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"math/rand"

	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

// script is a crafted source of randomness: the given 32-bit words, then those of a fixed generator.
type script struct {
	words []uint32
	n     int
	g     uint64
}

func (s *script) Seed(int64) {}

func (s *script) word() (w uint32) {
	if s.n < len(s.words) {
		w = s.words[s.n]
	} else {
		s.g = s.g*6364136223846793005 + 1442695040888963407
		w = uint32(s.g >> 32)
	}
	s.n++
	return
}

func (s *script) Int63() int64   { return int64(uint64(s.word())<<31 | uint64(s.n)&1) }
func (s *script) Uint64() uint64 { w := uint64(s.word()); return w<<32 | w }

// scriptBlocks are the 32-bit words of one 256-bit number, least significant first (the order in which math/big takes them),
// and single words, which change the alignment of what follows.
var scriptBlocks = func() (out [][]uint32) {
	for _, v := range []*big.Int{vk.BI(0), vk.BI(1), vk.Sub(vk.P, vk.BI(1)), vk.P, vk.Generic(77, vk.P)} {
		var b []uint32
		for _, l := range vk.ToLimbs4(v) {
			b = append(b, uint32(l), uint32(l>>32))
		}
		out = append(out, b)
	}
	return append(out, []uint32{0}, []uint32{1 << 31})
}()

func scriptOf(i int) (*script, string) {
	var w []uint32
	s := ""
	for ; i > 0; i /= len(scriptBlocks) + 1 {
		if d := i % (len(scriptBlocks) + 1); d > 0 {
			w = append(w, scriptBlocks[d-1]...)
			s += fmt.Sprint(d-1, " ")
		}
	}
	return &script{words: w, g: 12345}, s
}

// crafted: sampling and rerandomizing from every crafted source
func crafted(r *vk.Run, check func(t *vk.T, typ int, p PI, what string) string) {
	depth := 4
	if r.Thorough {
		depth = 5
	}
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(scriptBlocks) + 1
	}
	const chunk = 64
	r.Each(n/chunk, func(i int) string { return fmt.Sprintf("sampling from crafted sources/%d", i) }, func(t *vk.T, i int) {
		for k := i * chunk; k < (i+1)*chunk; k++ {
			_, name := scriptOf(k)
			with := func(what string, typ int, f func(rnd *rand.Rand) PI) {
				s, _ := scriptOf(k)
				var p PI
				if did, val := vk.Panics(func() { p = f(rand.New(s)) }); did {
					t.Failf("%s from source [%s]: panic %v", what, name, val)
				} else if p != nil {
					check(t, typ, p, fmt.Sprintf("%s from source [%s]", what, name))
				}
				t.State("crafted", what, name)
			}
			with("MakeRandomPointUnsafe_xtw_full", xtwF, func(rnd *rand.Rand) PI { p := cp.MakeRandomPointUnsafe_xtw_full(rnd); return &p })
			with("MakeRandomPointUnsafe_xtw_subgroup", xtwS, func(rnd *rand.Rand) PI { p := cp.MakeRandomPointUnsafe_xtw_subgroup(rnd); return &p })
			if !haveShim {
				continue
			}
			for typ := 0; typ < nTypes; typ++ {
				with(typeNames[typ]+".sampleRandomUnsafe", typ, func(rnd *rand.Rand) PI {
					p := fresh(typ)
					if !sample(p, rnd) {
						return nil
					}
					return p
				})
				if k >= 8*8*8 {
					continue
				}
				for _, m := range []mp{mk(vk.BI(0), tN), mk(vk.BI(7), tN), mk(vk.BI(7), tA), mk(vk.BI(0), tE1)} {
					rs := reps(typ, m, 0)
					if len(rs) == 0 {
						continue
					}
					p := copyRaw(rs[0].p)
					s, _ := scriptOf(k)
					if did, val := vk.Panics(func() { rerandomize(p, rand.New(s)) }); did {
						t.Failf("rerandomizing %v (%s) from source [%s]: panic %v", m, typeNames[typ], name, val)
					} else if bad := shows(p, m); bad != "" {
						t.Failf("rerandomizing %v (%s) from source [%s]: %s", m, typeNames[typ], name, bad)
					}
					t.Eval(1)
				}
			}
		}
	})
}
