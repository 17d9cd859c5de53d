package fieldElements

// ZZModulus exposes the precomputation for an arbitrary modulus to the harness.
func ZZModulus(m Uint256) (re [5]uint64, mmu0, mmu1, back [4]uint64) {
	var z modulus
	z.FromUint256(m)
	return z.re, z.mmu0, z.mmu1, z.ToUint256()
}
