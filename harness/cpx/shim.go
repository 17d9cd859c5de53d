//go:build go1.22 && !vk_noshim

package main

import (
	"math/big"
	"math/rand"

	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
)

const haveShim = true

func torsion(p PI, which int) bool                   { return cp.ZZTorsion(p, which) }
func flip(p PI) (bool, bool)                         { return cp.ZZFlip(p) }
func sampleNaP(p PI, rnd *rand.Rand, index int) bool { return cp.ZZSampleNaP(p, rnd, index) }
func sample(p PI, rnd *rand.Rand) bool               { return cp.ZZSample(p, rnd) }
func rerandomize(p PI, rnd *rand.Rand) bool          { return cp.ZZRerandomize(p, rnd) }
func addNaive(p, q PI, alias int) PI {
	r := cp.ZZAddNaive(*p.(*cp.Point_xtw_full), *q.(*cp.Point_xtw_full), alias)
	return &r
}
func expNaive(p PI, e *big.Int, alias bool) PI {
	r := cp.ZZExpNaive(*p.(*cp.Point_xtw_full), e, alias)
	return &r
}
