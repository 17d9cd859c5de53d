package curvePoints

import (
	"math/big"
	"math/rand"
)

// accessors for the unexported parts of the point types' test interface

func ZZTorsion(p CurvePointPtrInterface, which int) bool {
	t, ok := p.(torsionAdder)
	if !ok {
		return false
	}
	switch which {
	case 1:
		t.torsionAddA()
	case 2:
		t.torsionAddE1()
	case 3:
		t.torsionAddE2()
	}
	return true
}

func ZZFlip(p CurvePointPtrInterface) (has, ok bool) {
	d, ok := p.(curvePointPtrInterfaceDecaf)
	if !ok {
		return false, false
	}
	if d.HasDecaf() {
		d.flipDecaf()
		return true, true
	}
	return false, true
}

func ZZSampleNaP(p CurvePointPtrInterface, rnd *rand.Rand, index int) bool {
	s, ok := p.(sampleableNaP)
	if ok {
		s.sampleNaP(rnd, index)
	}
	return ok
}

func ZZSample(p CurvePointPtrInterface, rnd *rand.Rand) bool {
	s, ok := p.(testSampleable)
	if ok {
		s.sampleRandomUnsafe(rnd)
	}
	return ok
}

func ZZRerandomize(p CurvePointPtrInterface, rnd *rand.Rand) bool {
	s, ok := p.(rerandomizeable)
	if ok {
		s.rerandomizeRepresentation(rnd)
	}
	return ok
}

// alias: 0 none, 1: out is the first, 2: the second argument
func ZZAddNaive(p, q Point_xtw_full, alias int) (out Point_xtw_full) {
	switch alias {
	case 1:
		out = p
		out.addNaive_ttt(&out.point_xtw_base, &q.point_xtw_base)
	case 2:
		out = q
		out.addNaive_ttt(&p.point_xtw_base, &out.point_xtw_base)
	default:
		out.addNaive_ttt(&p.point_xtw_base, &q.point_xtw_base)
	}
	return
}

func ZZExpNaive(p Point_xtw_full, e *big.Int, alias bool) (out Point_xtw_full) {
	if alias {
		out = p
		out.exp_naive_xx(&out.point_xtw_base, e)
		return
	}
	out.exp_naive_xx(&p.point_xtw_base, e)
	return
}
