package fieldElements

// ZZReference exposes the reference implementation (the one that forwards to math/big) to the harness.
type ZZReference = bsFieldElement_BigInt
