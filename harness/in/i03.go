//go:build go1.22

package main

import (
	"fmt"
	"math"
	"reflect"

	"github.com/GottfriedHerold/Bandersnatch/internal/stack"
	"github.com/GottfriedHerold/Bandersnatch/internal/testutils"
	"github.com/GottfriedHerold/Bandersnatch/internal/utils"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

type big3 struct{ a, b int }

func i03(r *vk.Run) {
	i03stack(r)
	i03lists(r)
	i03maps(r)
	i03alias(r)
	i03deep(r)
}

// i03deep: large stacks (every push a / pop b / push c / pop all with a, b, c from a list of sizes) and long lists and maps
func i03deep(r *vk.Run) {
	sizes := []int{1, 7, 31, 64, 65, 100, 127, 256, 257, 300, 512, 1000, 1025}
	if r.Thorough {
		sizes = append(sizes, 2, 3, 15, 16, 17, 32, 33, 63, 128, 129, 255, 511, 513, 1023, 1024, 3000, 5000)
	}
	r.Extra("deep_sizes", sizes)
	n := len(sizes)
	r.Each(n*n*n, func(i int) string {
		return fmt.Sprintf("deep stack/%d,-%d,%d", sizes[i/n/n], sizes[i/n%n], sizes[i%n])
	}, func(t *vk.T, ci int) {
		a, b, c := sizes[ci/n/n], sizes[ci/n%n], sizes[ci%n]
		if b > a {
			b = a
		}
		st := stack.NewStack[big3]()
		var model []big3
		next := 0
		where := ""
		check := func(full bool) bool {
			if st.Len() != len(model) || st.IsEmpty() != (len(model) == 0) {
				t.Failf("push %d, pop %d, push %d, pop all: %s: Len() = %d, IsEmpty() = %v for %d elements", a, b, c, where, st.Len(), st.IsEmpty(), len(model))
				return false
			}
			for p := range model {
				if !full && p > 1 && p < len(model)-2 {
					continue
				}
				if *st.Peek(p) != model[len(model)-1-p] {
					t.Failf("push %d, pop %d, push %d, pop all: %s: Peek(%d) = %v, expected %v", a, b, c, where, p, *st.Peek(p), model[len(model)-1-p])
					return false
				}
			}
			for _, bad := range []int{-1, len(model)} {
				if did, _ := vk.Panics(func() { st.Peek(bad) }); !did {
					t.Failf("push %d, pop %d, push %d, pop all: %s: Peek(%d) accepted", a, b, c, where, bad)
					return false
				}
			}
			t.Eval(1)
			return true
		}
		push := func(k int) bool {
			for j := 0; j < k; j++ {
				v := big3{next, -next}
				next++
				if next%2 == 0 {
					st.Push(v)
				} else {
					w := v
					st.PushPtr(&w)
					w = big3{}
				}
				model = append(model, v)
				where = fmt.Sprintf("after pushing %v", v)
				if !check(false) {
					return false
				}
			}
			return check(true)
		}
		pop := func(k int) bool {
			for j := 0; j < k; j++ {
				want := model[len(model)-1]
				model = model[:len(model)-1]
				where = fmt.Sprintf("after popping %v", want)
				if got := st.Pop(); got != want {
					t.Failf("push %d, pop %d, push %d, pop all: popped %v, expected %v", a, b, c, got, want)
					return false
				}
				if !check(false) {
					return false
				}
			}
			return check(true)
		}
		if push(a) && pop(b) && push(c) && pop(len(model)) {
			if did, _ := vk.Panics(func() { st.Pop() }); !did {
				t.Failf("Pop from the empty stack accepted")
			}
			push(3)
		}
		t.State("deep", fmt.Sprint(a, b, c))
		t.Trans(2 * next)
		t.Trace(1)
	})
	// values that are not equal to themselves, and lists that share their memory
	vals := []float64{1, 2, math.NaN()}
	r.Each(1, func(int) string { return "values not equal to themselves, shared memory" }, func(t *vk.T, _ int) {
		for n := 0; n <= 5; n++ {
			total := 1
			for i := 0; i < n; i++ {
				total *= len(vals)
			}
			for code := 0; code < total; code++ {
				mem := make([]float64, n)
				for i, c := 0, code; i < n; i, c = i+1, c/len(vals) {
					mem[i] = vals[c%len(vals)]
				}
				cpy := append([]float64{}, mem...)
				for a := 0; a <= n; a++ {
					for b := a; b <= n; b++ {
						for c := 0; c+b-a <= n; c++ {
							for _, y := range [][]float64{mem[c : c+b-a], cpy[c : c+b-a]} {
								x := mem[a:b]
								want := true
								for i := range x {
									want = want && x[i] == y[i]
								}
								if utils.CompareSlices(x, y) != want {
									t.Failf("CompareSlices(%v, %v) = %v (positions %d and %d of the same memory or of a copy)", x, y, !want, a, c)
								}
								if did, _ := vk.Panics(func() { utils.AssertSliceEquals(x, y...) }); did == want {
									t.Failf("AssertSliceEquals(%v, %v) panics: %v", x, y, did)
								}
								t.Eval(2)
							}
						}
					}
				}
				m1, a1 := map[int]float64{}, map[int]any{}
				clean := true
				for i, v := range mem {
					m1[i], a1[i] = v, v
					clean = clean && v == v
				}
				if utils.CompareMaps(m1, m1) != clean || utils.CompareParamMaps(a1, a1) != clean {
					t.Failf("comparing the map of %v with itself should give %v", mem, clean)
				}
				for _, v := range vals {
					want := false
					for _, w := range mem {
						want = want || v == w
					}
					id := func(f float64) float64 { return f }
					if utils.ElementInList(v, mem) != want || utils.ElementInList(v, mem, id) != want {
						t.Failf("ElementInList(%v, %v) should be %v", v, mem, want)
					}
				}
				var want []float64
				for _, v := range append(append([]float64{}, mem...), mem...) {
					dup := false
					for _, w := range want {
						dup = dup || v == w
					}
					if !dup {
						want = append(want, v)
					}
				}
				if got := utils.ConcatenateListsWithoutDuplicates(mem, mem); fmt.Sprint(got) != fmt.Sprint(want) {
					t.Failf("ConcatenateListsWithoutDuplicates(%v, itself) = %v, expected %v", mem, got, want)
				}
				if len(mem) > 0 && fmt.Sprint(mem) != fmt.Sprint(cpy) {
					t.Failf("argument %v changed to %v", cpy, mem)
				}
				t.State("selfunequal", fmt.Sprint(mem))
			}
		}
	})
	r.Each(n, func(i int) string { return fmt.Sprintf("long lists/%d", sizes[i]) }, func(t *vk.T, i int) {
		L := sizes[i]
		x := make([]int, L)
		for k := range x {
			x[k] = (k*7919 + 13) % 100003
		}
		orig := append([]int(nil), x...)
		pos := map[int]bool{0: true, L / 2: true, L - 1: true}
		for _, k := range sizes {
			for d := -1; d <= 1; d++ {
				if k+d >= 0 && k+d < L {
					pos[k+d] = true
				}
			}
		}
		if !utils.CompareSlices(x, append([]int(nil), x...)) {
			t.Failf("CompareSlices: equal slices of length %d differ", L)
		}
		for k := range pos {
			y := append([]int(nil), x...)
			y[k]++
			if utils.CompareSlices(x, y) || utils.CompareSlices(y, x) {
				t.Failf("CompareSlices: slices of length %d that differ at %d are equal", L, k)
			}
			if did, _ := vk.Panics(func() { utils.AssertSliceEquals(x, y...) }); !did {
				t.Failf("AssertSliceEquals: slices of length %d that differ at %d are accepted", L, k)
			}
			if !utils.ElementInList(x[k], x) || utils.ElementInList(-1, x) {
				t.Failf("ElementInList: element %d of a list of length %d", k, L)
			}
			if utils.CompareSlices(x, x[:k]) || utils.CompareSlices(x[:k], x) {
				t.Failf("CompareSlices: slices of length %d and %d are equal", L, k)
			}
			// overlap of k elements
			y = append(append([]int(nil), x[L-k:]...), -5, -6, -5, x[0])
			got := utils.ConcatenateListsWithoutDuplicates(x, y)
			want := append(append([]int(nil), x...), -5, -6)
			if len(got) != len(want) {
				t.Failf("ConcatenateListsWithoutDuplicates: lengths %d, %d with %d common: length %d, expected %d", L, len(y), k, len(got), len(want))
			} else {
				for q := range want {
					if got[q] != want[q] {
						t.Failf("ConcatenateListsWithoutDuplicates: lengths %d, %d with %d common: element %d is %v, expected %v", L, len(y), k, q, got[q], want[q])
						break
					}
				}
			}
			// a duplicate within one list
			dup := append(append([]int(nil), x...), x[k])
			id := func(v int) int { return v }
			for q, got := range [][]int{
				utils.ConcatenateListsWithoutDuplicates(dup, nil), utils.ConcatenateListsWithoutDuplicates(nil, dup),
				utils.ConcatenateListsWithoutDuplicates(dup, nil, id), utils.ConcatenateListsWithoutDuplicates(nil, dup, id),
				utils.ConcatenateListsWithoutDuplicates(x, dup, id), utils.ConcatenateListsWithoutDuplicates(dup, x),
			} {
				if !utils.CompareSlices(got, x) {
					t.Failf("ConcatenateListsWithoutDuplicates: %d elements, the %d-th repeated at the end (form %d): %v", L, k, q, got)
				}
			}
			// duplicates within one list, and a normalizer
			got = utils.ConcatenateListsWithoutDuplicates(append(x[:L:L], x...), nil, func(v int) int { return v / 2 * 2 })
			seen, m := map[int]bool{}, 0
			for _, v := range x {
				if !seen[v/2*2] {
					seen[v/2*2] = true
					if m >= len(got) || got[m] != v {
						t.Failf("ConcatenateListsWithoutDuplicates with normalizer: lengths %d: element %d", 2*L, m)
						break
					}
					m++
				}
			}
			if m != len(got) {
				t.Failf("ConcatenateListsWithoutDuplicates with normalizer: length %d, expected %d", len(got), m)
			}
			t.Eval(7)
			t.Alive()
		}
		m1, m2 := map[int]int{}, map[int]int{}
		a1, a2 := map[int]any{}, map[int]any{}
		for _, v := range x {
			m1[v], m2[v], a1[v], a2[v] = v, v, v, v
		}
		if !utils.CompareMaps(m1, m2) || !utils.CompareParamMaps(a1, a2) {
			t.Failf("equal maps of %d elements differ", L)
		}
		for k := range pos {
			m2[x[k]]++
			a2[x[k]] = "x"
			if utils.CompareMaps(m1, m2) || utils.CompareParamMaps(a1, a2) {
				t.Failf("maps of %d elements that differ in one value are equal", L)
			}
			delete(m2, x[k])
			delete(a2, x[k])
			m2[-1], a2[-1] = x[k], x[k]
			if utils.CompareMaps(m1, m2) || utils.CompareParamMaps(a1, a2) || utils.CompareMaps(m2, m1) || utils.CompareParamMaps(a2, a1) {
				t.Failf("maps of %d elements that differ in one key are equal", L)
			}
			delete(m2, -1)
			delete(a2, -1)
			if utils.CompareMaps(m1, m2) || utils.CompareParamMaps(a1, a2) || utils.CompareMaps(m2, m1) || utils.CompareParamMaps(a2, a1) {
				t.Failf("maps of %d and %d elements are equal", L, L-1)
			}
			m2[x[k]], a2[x[k]] = x[k], x[k]
			t.Eval(6)
		}
		for k := range x {
			if x[k] != orig[k] {
				t.Failf("argument changed at %d", k)
			}
		}
		t.State("long", fmt.Sprint(L))
	})
}

// ---- stack: ops: push v, pushptr v (then change the source), pop, modify top, modify bottom through Peek
func i03stack(r *vk.Run) {
	depth := 8
	if r.Thorough {
		depth = 10
	}
	r.Extra("stack_depth", depth)
	const nOps = 5
	names := []string{"Push", "PushPtr", "Pop", "Top=", "PeekBottom="}
	r.Each(2*nOps*nOps*nOps, func(i int) string {
		return fmt.Sprintf("stack/%d/%s,%s,%s", i/(nOps*nOps*nOps), names[i%nOps], names[i/nOps%nOps], names[i/nOps/nOps%nOps])
	}, func(t *vk.T, ci int) {
		path := make([]int, depth)
		path[0], path[1], path[2] = ci%nOps, ci/nOps%nOps, ci/nOps/nOps%nOps
		for {
			st := stack.NewStack[big3]()
			if ci >= nOps*nOps*nOps {
				s := stack.MakeStack[big3]()
				st = &s
			}
			var model []big3
			var popped []big3 // copies handed out must not change later
			var poppedWant []big3
			for step, o := range path {
				v := big3{step + 1, -step}
				did, _ := vk.Panics(func() {
					switch o {
					case 0:
						st.Push(v)
					case 1:
						w := v
						st.PushPtr(&w)
						w = big3{99, 99}
					case 2:
						popped = append(popped, st.Pop())
					case 3:
						*st.Top() = v
					case 4:
						*st.Peek(st.Len() - 1) = v
					}
				})
				exp := o >= 2 && len(model) == 0
				if did != exp {
					t.Failf("%v: step %d %s: panic=%v", path, step, names[o], did)
				}
				if !exp {
					switch o {
					case 0, 1:
						model = append(model[:len(model):len(model)], v)
					case 2:
						poppedWant = append(poppedWant, model[len(model)-1])
						model = model[:len(model)-1]
					case 3, 4:
						model = append([]big3(nil), model...)
						if o == 3 {
							model[len(model)-1] = v
						} else {
							model[0] = v
						}
					}
				}
				if st.Len() != len(model) || st.IsEmpty() != (len(model) == 0) {
					t.Failf("%v: after step %d: Len=%d IsEmpty=%v, expected %d", path, step, st.Len(), st.IsEmpty(), len(model))
				}
				for pos := range model {
					if pos < st.Len() && *st.Peek(pos) != model[len(model)-1-pos] {
						t.Failf("%v: after step %d: Peek(%d) = %v, expected %v", path, step, pos, *st.Peek(pos), model[len(model)-1-pos])
					}
				}
				if len(model) > 0 && st.Len() > 0 && st.Top() != st.Peek(0) {
					t.Failf("%v: Top and Peek(0) differ", path)
				}
				for _, bad := range []int{-1, len(model), len(model) + 3} {
					if did, _ := vk.Panics(func() { st.Peek(bad) }); !did {
						t.Failf("%v: after step %d: Peek(%d) accepted", path, step, bad)
					}
				}
				if len(popped) == len(poppedWant) {
					for i := range popped {
						if popped[i] != poppedWant[i] {
							t.Failf("%v: after step %d: %d-th popped value is %v, expected %v", path, step, i, popped[i], poppedWant[i])
						}
					}
				}
				t.Eval(1)
				t.Trans(1)
				t.State("stack", fmt.Sprint(path[:step+1]))
				if t.Failed() {
					return
				}
			}
			t.Trace(1)
			k := depth - 1
			for ; k >= 3; k-- {
				if path[k]++; path[k] < nOps {
					break
				}
				path[k] = 0
			}
			if k < 3 {
				return
			}
		}
	})
}

// all lists up to a length over 0..2, plus nil
func allLists(maxLen int) (out [][]int) {
	out = append(out, nil, []int{})
	prev := [][]int{{}}
	for n := 1; n <= maxLen; n++ {
		var next [][]int
		for _, p := range prev {
			for v := 0; v < 3; v++ {
				next = append(next, append(append([]int(nil), p...), v))
			}
		}
		out = append(out, next...)
		prev = next
	}
	return
}

func i03lists(r *vk.Run) {
	maxLen := 4
	if r.Thorough {
		maxLen = 5
	}
	ls := allLists(maxLen)
	r.Extra("lists", len(ls))
	eq := func(a, b []int) bool { // reference: fmt-free elementwise equality
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	// idempotent normalizers on {0,1,2}
	var norms []func(int) int
	var normNames []string
	for a := 0; a < 3; a++ {
		for b := 0; b < 3; b++ {
			for c := 0; c < 3; c++ {
				f := [3]int{a, b, c}
				if f[f[0]] == f[0] && f[f[1]] == f[1] && f[f[2]] == f[2] {
					norms = append(norms, func(x int) int { return f[x] })
					normNames = append(normNames, fmt.Sprint(f))
				}
			}
		}
	}
	r.Extra("normalizers", len(norms))
	r.Each(len(ls), func(i int) string { return fmt.Sprintf("lists/%#v", ls[i]) }, func(t *vk.T, i int) {
		x := ls[i]
		xin := append([]int(nil), x...)
		for _, y := range ls {
			// CompareSlices: nil is different from empty
			want := eq(x, y) && (x == nil) == (y == nil)
			if got := utils.CompareSlices(x, y); got != want {
				t.Failf("CompareSlices(%#v,%#v) = %v", x, y, got)
			}
			if x != nil {
				if did, _ := vk.Panics(func() { utils.AssertSliceEquals(x, y...) }); did == eq(x, y) {
					t.Failf("AssertSliceEquals(%#v,%#v): panic=%v", x, y, did)
				}
			} else if did, _ := vk.Panics(func() { utils.AssertSliceEquals(x, y...) }); !did {
				t.Failf("AssertSliceEquals(nil,%#v) accepted", y)
			}
			t.Eval(2)
			check := func(name string, got []int, f func(int) int) {
				// reference: scan, keep first occurrence of every class
				var want []int
				seen := map[int]bool{}
				for _, v := range append(append([]int(nil), x...), y...) {
					if !seen[f(v)] {
						seen[f(v)] = true
						want = append(want, v)
					}
				}
				if !eq(got, want) || got == nil {
					t.Failf("ConcatenateListsWithoutDuplicates(%#v,%#v%s) = %#v, expected %v", x, y, name, got, want)
				}
				t.Eval(1)
			}
			check("", utils.ConcatenateListsWithoutDuplicates(x, y), func(v int) int { return v })
			if len(x)+len(y) <= 6 {
				for k, f := range norms {
					check(","+normNames[k], utils.ConcatenateListsWithoutDuplicates(x, y, f), f)
				}
			}
			// the result must not share memory with the arguments
			if got := utils.ConcatenateListsWithoutDuplicates(x, y); len(got) > 0 && len(x) > 0 {
				got[0] = 77
				_ = append(got, 78)
				if !eq(x, xin) {
					t.Failf("ConcatenateListsWithoutDuplicates(%#v,%#v): result shares memory with the argument", x, y)
					copy(x, xin)
				}
			}
			t.State("pair", fmt.Sprintf("%#v %#v", x, y))
		}
		for v := 0; v < 3; v++ {
			want := false
			for _, w := range x {
				want = want || w == v
			}
			if got := utils.ElementInList(v, x); got != want {
				t.Failf("ElementInList(%v,%#v) = %v", v, x, got)
			}
			for k, f := range norms {
				want := false
				for _, w := range x {
					want = want || f(w) == f(v)
				}
				if got := utils.ElementInList(v, x, f); got != want {
					t.Failf("ElementInList(%v,%#v,%v) = %v", v, x, normNames[k], got)
				}
				t.Eval(1)
			}
			if did, _ := vk.Panics(func() { utils.ElementInList(v, x, norms[0], norms[0]) }); !did {
				t.Failf("ElementInList with two normalizers accepted")
			}
		}
		if !eq(x, xin) {
			t.Failf("argument %#v changed to %#v", xin, x)
		}
		t.Sample(fmt.Sprintf("%#v", x))
	})
}

func i03maps(r *vk.Run) {
	// all maps from subsets of {0,1,2} to {0,1}, plus nil
	var ms []map[int]int
	ms = append(ms, nil)
	for c := 0; c < 27; c++ {
		m := map[int]int{}
		for k, d := 0, c; k < 3; k, d = k+1, d/3 {
			if d%3 > 0 {
				m[k] = d%3 - 1
			}
		}
		ms = append(ms, m)
	}
	toAny := func(m map[int]int, variant int) map[int]any {
		if m == nil {
			return nil
		}
		o := map[int]any{}
		for k, v := range m {
			switch {
			case variant == 1 && v == 0:
				o[k] = nil
			case variant == 1:
				o[k] = "x"
			case variant == 2 && k == 0:
				o[k] = int64(v)
			default:
				o[k] = v
			}
		}
		return o
	}
	r.Each(len(ms), func(i int) string { return fmt.Sprintf("maps/%v", ms[i]) }, func(t *vk.T, i int) {
		x := ms[i]
		for _, y := range ms {
			want := (x == nil) == (y == nil) && fmt.Sprint(x) == fmt.Sprint(y)
			if got := utils.CompareMaps(x, y); got != want {
				t.Failf("CompareMaps(%v,%v) = %v", x, y, got)
			}
			for vx := 0; vx < 3; vx++ {
				for vy := 0; vy < 3; vy++ {
					ax, ay := toAny(x, vx), toAny(y, vy)
					w := reflect.DeepEqual(ax, ay)
					if got := utils.CompareParamMaps(ax, ay); got != w {
						t.Failf("CompareParamMaps(%#v,%#v) = %v", ax, ay, got)
					}
					t.Eval(1)
				}
			}
			t.Eval(1)
			t.State("maps", fmt.Sprint(x == nil, y == nil, x, y))
		}
	})
}

func i03alias(r *vk.Run) {
	// all sub-slices (start, length) of two arrays of length 4, without shrinking the capacity
	a, b := make([]int, 4), make([]int, 4)
	type sl struct {
		name string
		s    []int
		arr  int
	}
	var ss []sl
	ss = append(ss, sl{"nil", nil, 0}, sl{"empty", []int{}, 0})
	for k, arr := range [][]int{a, b} {
		for i := 0; i <= 4; i++ {
			for j := i; j <= 4; j++ {
				n := k + 1
				if i == 4 {
					n = 0 // no capacity
				}
				ss = append(ss, sl{fmt.Sprintf("%c[%d:%d]", 'a'+k, i, j), arr[i:j], n})
			}
		}
	}
	r.Case("alias", func(t *vk.T) {
		for _, x := range ss {
			for _, y := range ss {
				want := x.arr != 0 && x.arr == y.arr
				if got := testutils.CheckSliceAlias(x.s, y.s); got != want {
					t.Failf("CheckSliceAlias(%s,%s) = %v", x.name, y.name, got)
				}
				t.Eval(1)
				t.State("alias", x.name, y.name)
			}
		}
		for i := range a {
			if a[i] != 0 || b[i] != 0 {
				t.Failf("CheckSliceAlias changed a slice")
			}
		}
	})
}
