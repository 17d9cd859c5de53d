//go:build go1.22 && vk_noshim

package main

func reduceVariants() map[string]func(z *U)    { return nil }
func mulVariants() map[string]func(z, x, y *U) { return nil }
func expVariants() map[string]func(z, b, e *U) { return nil }
