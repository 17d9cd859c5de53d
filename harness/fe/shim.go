//go:build go1.22 && !vk_noshim

package main

import fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"

func reduceVariants() map[string]func(z *U)    { return fe.ZZReduceVariants() }
func mulVariants() map[string]func(z, x, y *U) { return fe.ZZMulVariants() }
func expVariants() map[string]func(z, b, e *U) { return fe.ZZExpVariants() }
