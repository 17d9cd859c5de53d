package fieldElements

// Unexported alternative implementations, exposed to the harness. Each has the same documented contract as the exported operation it is an alternative to.

func ZZReduceVariants() map[string]func(z *Uint256) {
	return map[string]func(z *Uint256){
		"reduce_fa_optimistic": (*Uint256).reduce_fa_optimistic,
		"reduce_fa_loop":       (*Uint256).reduce_fa_loop,
		"reduce_fa_barret":     (*Uint256).reduce_fa_barret,
		"reduce_fb_exact":      (*Uint256).reduce_fb_exact,
		"reduce_fb_optimistic": (*Uint256).reduce_fb_optimistic,
	}
}

func ZZMulVariants() map[string]func(z, x, y *Uint256) {
	return map[string]func(z, x, y *Uint256){
		"mulMontgomerySlow_c":      (*Uint256).mulMontgomerySlow_c,
		"mulMontgomery_Unrolled_c": (*Uint256).mulMontgomery_Unrolled_c,
	}
}

func ZZExpVariants() map[string]func(z, base, exponent *Uint256) {
	return map[string]func(z, base, exponent *Uint256){
		"modularExponentiationSlidingWindowMontgomery_fa":     (*Uint256).modularExponentiationSlidingWindowMontgomery_fa,
		"modularExponentiationSquareAndMultiplyMontgomery_fa": (*Uint256).modularExponentiationSquareAndMultiplyMontgomery_fa,
	}
}
