//go:build go1.22 && vk_noshim

package main

import (
	"math/big"
	"math/rand"
)

const haveShim = false

func torsion(p PI, which int) bool                   { return false }
func flip(p PI) (bool, bool)                         { return false, false }
func sampleNaP(p PI, rnd *rand.Rand, index int) bool { return false }
func sample(p PI, rnd *rand.Rand) bool               { return false }
func rerandomize(p PI, rnd *rand.Rand) bool          { return false }
func addNaive(p, q PI, alias int) PI                 { return nil }
func expNaive(p PI, e *big.Int, alias bool) PI       { return nil }
