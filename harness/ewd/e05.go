//go:build go1.22

package main

import (
	"errors"
	"fmt"

	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

type n5 struct {
	real  error
	id    int   // identity of the (unboxed) error
	chain []int // identities of everything it wraps, itself included
	boxed bool
	msg   string
	data  map[string]any
	typed bool // is an ErrorWithData[JustA]
	ewd   bool // made by the package
}

func e05(r *vk.Run) {
	e05ctors(r)
	type op5 struct {
		name string
		f    func(n n5, fresh int) (n5, bool)
	}
	wrap := func(n n5, fresh int, e error, prefix string, data map[string]any, typed bool) n5 {
		return n5{real: e, id: fresh, chain: append([]int{fresh}, n.chain...), msg: prefix + n.msg, data: data, typed: typed, ewd: true}
	}
	with := func(m map[string]any, k string, v any) map[string]any { r := cp(m); r[k] = v; return r }
	ops := []op5{
		{"AddData", func(n n5, f int) (n5, bool) {
			return wrap(n, f, ewd.AddDataToError_any_params(n.real, ewd.ReplacePreviousData, "B", f), "", with(n.data, "B", f), false), true
		}},
		{"New(w:%w)", func(n n5, f int) (n5, bool) {
			return wrap(n, f, ewd.NewErrorWithData_any_map(n.real, "w:%w", ewd.PreferPreviousData, nil), "w:", cp(n.data), false), true
		}},
		{"New_struct", func(n n5, f int) (n5, bool) {
			return wrap(n, f, ewd.NewErrorWithData_struct(n.real, "", &JustA{f}), "", with(n.data, "A", f), true), true
		}},
		{"fmt", func(n n5, f int) (n5, bool) {
			r := wrap(n, f, fmt.Errorf("f:%w", n.real), "f:", cp(n.data), false)
			r.ewd = false
			return r, true
		}},
		{"box", func(n n5, f int) (n5, bool) {
			x, ok := n.real.(ewd.IncomparableMaker)
			if !ok {
				return n, false
			}
			r := n
			r.real, r.boxed, r.typed = ewd.MakeErrorIncomparable(x), true, false
			return r, true
		}},
		{"box_any", func(n n5, f int) (n5, bool) {
			x, ok := n.real.(ewd.ErrorWithData_any)
			if !ok {
				return n, false
			}
			r := n
			r.real, r.boxed, r.typed = ewd.MakeErrorIncomparable_any(x), true, false
			return r, true
		}},
		{"box_struct", func(n n5, f int) (n5, bool) {
			x, ok := n.real.(ewd.ErrorWithData[JustA])
			if !ok {
				return n, false
			}
			r := n
			r.real, r.boxed = ewd.MakeErrorIncomparable_struct[JustA](x), true
			return r, true
		}},
		{"unbox", func(n n5, f int) (n5, bool) {
			r := n
			r.real, r.boxed = ewd.UnboxError(n.real), false
			_, r.typed = r.real.(ewd.ErrorWithData[JustA])
			return r, true
		}},
		{"unbox_typed", func(n n5, f int) (n5, bool) {
			r := n
			if x, ok := n.real.(ewd.ErrorWithData[JustA]); ok {
				r.real = ewd.UnboxError_struct[JustA](x)
			} else if x, ok := n.real.(ewd.ErrorWithData_any); ok {
				r.real = ewd.UnboxError_any(x)
			} else {
				return n, false
			}
			r.boxed = false
			_, r.typed = r.real.(ewd.ErrorWithData[JustA])
			return r, true
		}},
		{"Delete(A)", func(n n5, f int) (n5, bool) {
			d := cp(n.data)
			delete(d, "A")
			return wrap(n, f, ewd.DeleteParameterFromError_any(n.real, "A"), "", d, false), true
		}},
		{"sentinel", func(n n5, f int) (n5, bool) {
			return n5{real: ewd.NewErrorWithData_any_params(nil, "s", ewd.ReplacePreviousData), id: f, chain: []int{f}, msg: "s", data: map[string]any{}, ewd: true}, true
		}},
	}
	starts := []n5{
		{real: ewd.NewErrorWithData_any_params(nil, "s0", ewd.ReplacePreviousData), msg: "s0", data: map[string]any{}, ewd: true},
		{real: ewd.NewErrorWithData_struct(nil, "s1 %{A}", &JustA{5}), msg: "s1 5", data: map[string]any{"A": 5}, typed: true, ewd: true},
		{real: errors.New("p"), msg: "p", data: map[string]any{}},
	}
	in := func(x int, l []int) bool {
		for _, y := range l {
			if x == y {
				return true
			}
		}
		return false
	}
	observe := func(t *vk.T, h []n5, nm string) {
		for i, a := range h {
			if m := a.real.Error(); m != a.msg {
				t.Failf("history %s: message of error %d is %q, expected %q", nm, i, m, a.msg)
			}
			if m := ewd.GetData_map(a.real); !eqmap(m, a.data) {
				t.Failf("history %s: data of error %d is %v, expected %v", nm, i, m, a.data)
			}
			for _, k := range []string{"A", "B"} {
				v, ok := ewd.GetParameter(a.real, k)
				w, has := a.data[k]
				if ok != has || ewd.HasParameter(a.real, k) != has || !eqv(v, w) {
					t.Failf("history %s: GetParameter/HasParameter(%s) of error %d give %v,%v, expected %v,%v", nm, k, i, v, ok, w, has)
				}
			}
			if u := ewd.UnboxError(a.real); u == nil || ewd.UnboxError(u) != u {
				t.Failf("history %s: unboxing error %d twice differs from unboxing it once", nm, i)
			}
			u := ewd.UnboxError(a.real)
			if x, ok := a.real.(ewd.ComparableMaker); ok != a.boxed || ok && error(x.AsComparable()) != u {
				t.Failf("history %s: AsComparable of error %d is wrong", nm, i)
			}
			switch x := a.real.(type) {
			case interface{ AsComparable_typed() ewd.ErrorWithData_any }:
				if error(x.AsComparable_typed()) != u {
					t.Failf("history %s: AsComparable_typed of error %d differs from the unboxed error", nm, i)
				}
			case interface {
				AsComparable_typed() ewd.ErrorWithData[JustA]
			}:
				if error(x.AsComparable_typed()) != u {
					t.Failf("history %s: AsComparable_typed of error %d differs from the unboxed error", nm, i)
				}
			}
			if a, b := errors.Unwrap(a.real), errors.Unwrap(u); ewd.UnboxError(a) != ewd.UnboxError(b) {
				t.Failf("history %s: Unwrap of error %d is %v, of the unboxed error %v", nm, i, a, b)
			}
			links, hidden := 0, false
			for e := a.real; e != nil; e = errors.Unwrap(e) {
				links++
				if _, ok := e.(ewd.ErrorWithData_any); ok {
					if _, ok := e.(ewd.ComparableMaker); !ok {
						if _, ok := errors.Unwrap(e).(ewd.ComparableMaker); ok {
							t.Failf("history %s: link %d in the chain of error %d directly wraps an incomparable error", nm, links, i)
						}
					}
				}
				if _, ok := e.(ewd.ComparableMaker); ok {
					if _, ok := e.(ewd.ErrorWithData_any); !ok {
						hidden = true // boxed as a plain error: does not show its data to errors.As
					}
				}
			}
			if links != len(a.chain) {
				t.Failf("history %s: error chain of %d has %d links, expected %d", nm, i, links, len(a.chain))
			}
			var found ewd.ErrorWithData_any
			if hidden {
			} else if errors.As(a.real, &found) != hasEwd(h, a.chain) {
				t.Failf("history %s: errors.As on error %d is %v", nm, i, found != nil)
			} else if found != nil && !eqmap(found.GetData_map(), a.data) {
				t.Failf("history %s: errors.As on error %d finds data %v, expected %v", nm, i, found.GetData_map(), a.data)
			}
			if x, ok := a.real.(ewd.ErrorWithData[JustA]); ok {
				if did, v := vk.Panics(func() {
					if got := x.GetData_struct(); got.A != a.data["A"] {
						t.Failf("history %s: GetData_struct of error %d is %v, expected %v", nm, i, got, a.data)
					}
				}); did {
					t.Failf("history %s: GetData_struct of error %d panics: %v", nm, i, v)
				}
			} else if a.typed {
				t.Failf("history %s: error %d lost its typed interface", nm, i)
			}
			for j, b := range h {
				want := in(b.id, a.chain)
				var got bool
				if did, v := vk.Panics(func() { got = errors.Is(a.real, b.real) }); did {
					t.Failf("history %s: errors.Is(#%d,#%d) panics: %v", nm, i, j, v)
				} else if got != want {
					t.Failf("history %s: errors.Is(#%d,#%d) is %v, expected %v", nm, i, j, got, want)
				}
				eq, _ := same(a.real, b.real)
				if want := a.id == b.id && !a.boxed && !b.boxed; eq != want {
					t.Failf("history %s: #%d == #%d is %v, expected %v", nm, i, j, eq, want)
				}
				if ua, ub := ewd.UnboxError(a.real), ewd.UnboxError(b.real); (ua == ub) != (a.id == b.id) {
					t.Failf("history %s: unboxed #%d == unboxed #%d is %v", nm, i, j, ua == ub)
				}
				t.Eval(1)
			}
		}
	}
	depth := 5
	if r.Thorough {
		depth = 7
	}
	r.Extra("bounds", fmt.Sprintf("depth %d, %d operations, %d starting errors; operations apply to the latest error, or (last step) to any", depth, len(ops), len(starts)))
	lead := len(ops) * len(ops)
	r.Each(len(starts)*lead, func(i int) string {
		return fmt.Sprintf("%d/%s,%s", i/lead, ops[i%len(ops)].name, ops[i%lead/len(ops)].name)
	}, func(t *vk.T, i int) {
		var rec func(h []n5, nm string, d int)
		rec = func(h []n5, nm string, d int) {
			observe(t, h, nm)
			if t.Failed() {
				return
			}
			if d == 0 {
				t.Trace(1)
				return
			}
			step := depth - d
			for oi, o := range ops {
				if step == 0 && oi != i%len(ops) || step == 1 && oi != i%lead/len(ops) {
					continue
				}
				at := len(h) - 1
				var n n5
				var ok bool
				if did, v := vk.Panics(func() { n, ok = o.f(h[at], len(h)) }); did {
					t.Failf("history %s; %s panics: %v", nm, o.name, v)
					return
				}
				if !ok {
					continue
				}
				t.Trans(1)
				next := append(append([]n5{}, h...), n)
				t.State(fmt.Sprint(n.id, n.chain, n.boxed, n.data, n.typed, n.msg), fmt.Sprint(len(h)))
				rec(next, nm+"; "+o.name, d-1)
			}
		}
		s := starts[i/lead]
		s.id, s.chain = 0, []int{0}
		rec([]n5{s}, fmt.Sprintf("start %q", s.msg), depth)
	})
}

// e05ctors: every constructor applied to a boxed error gives what it gives for the error inside the box
func e05ctors(r *vk.Run) {
	pm := ewd.ParamMap{"B": 7}
	var ctors []struct {
		name string
		f    func(e error) error
	}
	add := func(name string, f func(e error) error) {
		ctors = append(ctors, struct {
			name string
			f    func(e error) error
		}{name, f})
	}
	for _, s := range []string{"", "w:%w", "w:$w", "n %{B}", "%{A}|$w"} {
		s := s
		add(fmt.Sprintf("NewErrorWithData_any_map(%q)", s), func(e error) error { return ewd.NewErrorWithData_any_map(e, s, ewd.ReplacePreviousData, pm) })
		add(fmt.Sprintf("NewErrorWithData_any_params(%q)", s), func(e error) error {
			return ewd.NewErrorWithData_any_params(e, s, ewd.ReplacePreviousData, "B", 7)
		})
		add(fmt.Sprintf("NewErrorWithData_map[JustA](%q)", s), func(e error) error {
			return ewd.NewErrorWithData_map[JustA](e, s, ewd.PreferPreviousData, ewd.MissingDataAsZero, pm)
		})
		add(fmt.Sprintf("NewErrorWithData_params[JustA](%q)", s), func(e error) error {
			return ewd.NewErrorWithData_params[JustA](e, s, ewd.PreferPreviousData, ewd.MissingDataAsZero, "B", 7)
		})
		add(fmt.Sprintf("NewErrorWithData_struct[JustA](%q)", s), func(e error) error { return ewd.NewErrorWithData_struct(e, s, &JustA{8}) })
	}
	add("AddDataToError_any_map", func(e error) error { return ewd.AddDataToError_any_map(e, ewd.ReplacePreviousData, pm) })
	add("AddDataToError_any_params", func(e error) error { return ewd.AddDataToError_any_params(e, ewd.ReplacePreviousData, "B", 7) })
	add("AddDataToError_map[JustA]", func(e error) error {
		return ewd.AddDataToError_map[JustA](e, ewd.ReplacePreviousData, ewd.MissingDataAsZero, pm)
	})
	add("AddDataToError_params[JustA]", func(e error) error {
		return ewd.AddDataToError_params[JustA](e, ewd.ReplacePreviousData, ewd.MissingDataAsZero, "B", 7)
	})
	add("AddDataToError_struct[JustA]", func(e error) error { return ewd.AddDataToError_struct(e, &JustA{8}) })
	add("DeleteParameterFromError_any", func(e error) error { return ewd.DeleteParameterFromError_any(e, "A") })
	add("DeleteParameterFromError[JustA]", func(e error) error { return ewd.DeleteParameterFromError[JustA](e, "B", ewd.MissingDataAsZero) })
	add("AsErrorWithData[JustA]", func(e error) error {
		x, ok := ewd.AsErrorWithData[JustA](e, ewd.MissingDataAsZero)
		if !ok {
			return nil
		}
		return x
	})
	inner := ewd.NewErrorWithData_struct(errors.New("root"), "in %{A} $!m=0{empty}%w", &JustA{5})
	mid := ewd.NewErrorWithData_struct(inner, "m $w %{A}", &JustA{6})
	out := ewd.AddDataToError_any_params(mid, ewd.ReplacePreviousData, "C", 1)
	type box struct {
		name         string
		boxed, plain error
	}
	var boxes []box
	for k, e := range []ewd.ErrorWithData[JustA]{inner, mid} {
		boxes = append(boxes, box{fmt.Sprintf("plain box %d", k), ewd.MakeErrorIncomparable(e), e}, box{fmt.Sprintf("any box %d", k), ewd.MakeErrorIncomparable_any(e), e}, box{fmt.Sprintf("struct box %d", k), ewd.MakeErrorIncomparable_struct[JustA](e), e})
	}
	boxes = append(boxes, box{"plain box 2", ewd.MakeErrorIncomparable(out), out}, box{"any box 2", ewd.MakeErrorIncomparable_any(out), out})
	r.Each(len(ctors)*len(boxes), func(i int) string {
		return "constructor/" + ctors[i/len(boxes)].name + "/" + boxes[i%len(boxes)].name
	}, func(t *vk.T, i int) {
		c, b := ctors[i/len(boxes)], boxes[i%len(boxes)]
		var x, y error
		dx, vx := vk.Panics(func() { x = c.f(b.boxed) })
		dy, vy := vk.Panics(func() { y = c.f(b.plain) })
		t.Eval(1)
		t.State(c.name, b.name)
		if dx || dy {
			t.Failf("%s of a %s panics: %v (%v); of the error inside the box: %v (%v)", c.name, b.name, dx, vx, dy, vy)
			return
		}
		for name, e := range map[string]error{"of the " + b.name: x, "of the error inside the " + b.name: y} {
			if e == nil {
				t.Failf("%s %s is nil", c.name, name)
				return
			}
			if _, ok := e.(ewd.ComparableMaker); ok {
				t.Failf("%s %s is itself incomparable", c.name, name)
			}
			for l := e; l != nil; l = errors.Unwrap(l) {
				if _, ok := errors.Unwrap(l).(ewd.ComparableMaker); ok {
					t.Failf("%s %s has a box in its chain", c.name, name)
				}
			}
			if c.name != "AsErrorWithData[JustA]" && (!errors.Is(e, b.boxed) || !errors.Is(e, b.plain)) {
				t.Failf("%s %s: errors.Is does not find it", c.name, name)
			}
		}
		if x.Error() != y.Error() {
			t.Failf("%s of a %s has message %q, of the error inside it %q", c.name, b.name, x.Error(), y.Error())
		}
		if !eqmap(ewd.GetData_map(x), ewd.GetData_map(y)) {
			t.Failf("%s of a %s has data %v, of the error inside it %v", c.name, b.name, ewd.GetData_map(x), ewd.GetData_map(y))
		}
		if ux, uy := errors.Unwrap(x), errors.Unwrap(y); ux != uy {
			t.Failf("%s of a %s wraps %v, of the error inside it %v", c.name, b.name, ux, uy)
		}
	})
}

// hasEwd: is there an error of this package among those with the given identities?
func hasEwd(h []n5, ids []int) bool {
	for _, x := range h {
		for _, id := range ids {
			if x.id == id && x.ewd {
				return true
			}
		}
	}
	return false
}
