//go:build vk_noshim

package main

import "math/big"

// the decomposition is not exported; without the in-package shim only the GLV part is decided
var decompose func(x *big.Int, maxbits uint) (pos []uint, coeff []uint, sign []int)
