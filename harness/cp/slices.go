//go:build go1.22

package main

import (
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
)

func mkSlice(typ int, ps []PI) (s cp.CurvePointSlice, at func(i int) PI) {
	switch typ {
	case xtwF:
		v := make([]cp.Point_xtw_full, len(ps))
		for i := range ps {
			v[i] = *ps[i].(*cp.Point_xtw_full)
		}
		return cp.CurvePointSlice_xtw_full(v), func(i int) PI { return &v[i] }
	case xtwS:
		v := make([]cp.Point_xtw_subgroup, len(ps))
		for i := range ps {
			v[i] = *ps[i].(*cp.Point_xtw_subgroup)
		}
		return cp.CurvePointSlice_xtw_subgroup(v), func(i int) PI { return &v[i] }
	case axtwF:
		v := make([]cp.Point_axtw_full, len(ps))
		for i := range ps {
			v[i] = *ps[i].(*cp.Point_axtw_full)
		}
		return cp.CurvePointSlice_axtw_full(v), func(i int) PI { return &v[i] }
	case axtwS:
		v := make([]cp.Point_axtw_subgroup, len(ps))
		for i := range ps {
			v[i] = *ps[i].(*cp.Point_axtw_subgroup)
		}
		return cp.CurvePointSlice_axtw_subgroup(v), func(i int) PI { return &v[i] }
	case efghF:
		v := make([]cp.Point_efgh_full, len(ps))
		for i := range ps {
			v[i] = *ps[i].(*cp.Point_efgh_full)
		}
		return cp.CurvePointSlice_efgh_full(v), func(i int) PI { return &v[i] }
	default:
		v := make([]cp.Point_efgh_subgroup, len(ps))
		for i := range ps {
			v[i] = *ps[i].(*cp.Point_efgh_subgroup)
		}
		return cp.CurvePointSlice_efgh_subgroup(v), func(i int) PI { return &v[i] }
	}
}
