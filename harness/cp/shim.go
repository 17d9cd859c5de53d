//go:build go1.22 && !vk_noshim

package main

import cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"

const haveShim = true

func formula(name string, x, y PI, alias int) PI {
	r := cp.ZZFormula(name, *x.(*cp.Point_xtw_full), *y.(*cp.Point_xtw_full), alias)
	return &r
}
