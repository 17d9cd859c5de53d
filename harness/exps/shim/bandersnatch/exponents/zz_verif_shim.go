package exponents

import "math/big"

// ZZDecompose exposes the signed-adic decomposition to the harness.
func ZZDecompose(x *big.Int, maxbits uint) (pos []uint, coeff []uint, sign []int) {
	var g glvExponent
	g.SetBigInt(x)
	for _, d := range decomposeUnalignedSignedAdic(g, maxbits) {
		pos = append(pos, d.position)
		coeff = append(coeff, d.coeff)
		sign = append(sign, d.sign)
	}
	return
}
