package curvePoints

// ZZFormula runs one of the unexported formulas; alias: bit 0: the output is the first input, bit 1: the second.
// Both inputs are given as Point_xtw_full; where a formula takes an affine point, the input must have Z == 1.
func ZZFormula(name string, x, y Point_xtw_full, alias int) Point_xtw_full {
	var o Point_xtw_full
	out, a, b := &o, &x, &y
	if alias&1 != 0 {
		out = a
	}
	if alias&2 != 0 {
		if alias&1 != 0 {
			b = a
		} else {
			out = b
		}
	}
	aff := func(p *Point_xtw_full) *point_axtw_base {
		return &point_axtw_base{x: p.x, y: p.y, t: p.t}
	}
	switch name {
	case "add_ttt":
		out.point_xtw_base.add_ttt(&a.point_xtw_base, &b.point_xtw_base)
	case "sub_ttt":
		out.point_xtw_base.sub_ttt(&a.point_xtw_base, &b.point_xtw_base)
	case "add_safe_ttt":
		out.point_xtw_base.add_safe_ttt(&a.point_xtw_base, &b.point_xtw_base)
	case "sub_safe_ttt":
		out.point_xtw_base.sub_safe_ttt(&a.point_xtw_base, &b.point_xtw_base)
	case "add_tta":
		out.point_xtw_base.add_tta(&a.point_xtw_base, aff(b))
	case "sub_tta":
		out.point_xtw_base.sub_tta(&a.point_xtw_base, aff(b))
	case "sub_tat":
		out.point_xtw_base.sub_tat(aff(a), &b.point_xtw_base)
	case "add_taa":
		out.point_xtw_base.add_taa(aff(a), aff(b))
	case "sub_taa":
		out.point_xtw_base.sub_taa(aff(a), aff(b))
	}
	return *out
}
