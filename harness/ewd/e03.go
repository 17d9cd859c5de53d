//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

type AB struct{ A, B any }
type JustA struct{ A int }

var modes = []ewd.PreviousDataTreatment{ewd.ReplacePreviousData, ewd.PreferPreviousData, ewd.AssertDataIsNotReplaced}
var modeNames = []string{"replace", "prefer", "assert"}

type h3 struct {
	real  error
	model map[string]any
	msg   string
	chain []int // indices (into the history) of errors that must be found by errors.Is
	boxed bool
}

// op is one operation: given the history, produce a new error from the error at index at.
type op struct {
	name string
	run  func(cur error) error                                    // nil error = operation is not applicable
	eff  func(m map[string]any) (res map[string]any, panics bool) // effect on the model
	text string                                                   // "" : message stays; "x": message becomes this + old message if it ends in ':'
	box  bool
}

func cp(m map[string]any) map[string]any {
	r := map[string]any{}
	for k, v := range m {
		r[k] = v
	}
	return r
}
func same(a, b any) (eq bool, comparable bool) {
	did, _ := vk.Panics(func() { eq = a == b })
	return eq, !did
}

func ops3(full bool) (ops []op) {
	sl := []int{1}
	adds := []map[string]any{{"A": 1}, {"A": 2}, {"B": nil}, {"A": 1, "B": 2}, {}, {"A": sl}}
	if !full {
		adds = []map[string]any{{"A": 1}, {"A": 2, "B": nil}}
	}
	merge := func(add map[string]any, mode int) func(m map[string]any) (map[string]any, bool) {
		return func(m map[string]any) (map[string]any, bool) {
			r := cp(m)
			for k, v := range add {
				old, ok := r[k]
				switch {
				case !ok || mode == 0:
					r[k] = v
				case mode == 2:
					if eq, c := same(old, v); !c || !eq {
						return nil, true
					}
				}
			}
			return r, false
		}
	}
	for ai, add := range adds {
		for mi := range modes {
			add, mode := add, modes[mi]
			flat := func() (r []any) {
				var ks []string
				for k := range add {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					r = append(r, k, add[k])
				}
				return
			}
			// every map handed in is mutated afterwards: the error must not notice
			withMap := func(f func(m map[string]any) error) error {
				m := cp(add)
				e := f(m)
				m["A"] = "mutated"
				m["Z"] = 1
				delete(m, "B")
				return e
			}
			vars := map[string]func(cur error) error{
				"NewErrorWithData_any_params": func(cur error) error { return ewd.NewErrorWithData_any_params(cur, "", mode, flat()...) },
				"NewErrorWithData_any_map": func(cur error) error {
					return withMap(func(m map[string]any) error { return ewd.NewErrorWithData_any_map(cur, "n:%w", mode, m) })
				},
				"AddDataToError_any_params": func(cur error) error { return ewd.AddDataToError_any_params(cur, mode, flat()...) },
				"AddDataToError_any_map": func(cur error) error {
					return withMap(func(m map[string]any) error { return ewd.AddDataToError_any_map(cur, mode, m) })
				},
				"NewErrorWithData_params": func(cur error) error {
					return ewd.NewErrorWithData_params[struct{}](cur, "n:%w", mode, ewd.EnsureDataIsPresent, flat()...)
				},
				"AddDataToError_map": func(cur error) error {
					return withMap(func(m map[string]any) error {
						return ewd.AddDataToError_map[struct{}](cur, mode, ewd.MissingDataAsZero, m)
					})
				},
				"AddDataToError_params": func(cur error) error {
					return ewd.AddDataToError_params[struct{}](cur, mode, ewd.MissingDataAsZero, flat()...)
				},
				"NewErrorWithData_map": func(cur error) error {
					return withMap(func(m map[string]any) error {
						return ewd.NewErrorWithData_map[struct{}](cur, "", mode, ewd.EnsureDataIsPresent, m)
					})
				},
			}
			if len(add) == 2 {
				vars["NewErrorWithData_struct"] = func(cur error) error {
					d := AB{add["A"], add["B"]}
					e := ewd.NewErrorWithData_struct(cur, "n:%w", &d, mode)
					d.A, d.B = "mutated", "mutated"
					return e
				}
				vars["AddDataToError_struct"] = func(cur error) error { return ewd.AddDataToError_struct(cur, &AB{add["A"], add["B"]}, mode) }
				if mi == 0 {
					vars["AddDataToError_struct(default mode)"] = func(cur error) error { return ewd.AddDataToError_struct(cur, &AB{add["A"], add["B"]}) }
				}
			}
			var ns []string
			for n := range vars {
				ns = append(ns, n)
			}
			sort.Strings(ns)
			if !full {
				ns = []string{ns[(ai*3+mi)%len(ns)], ns[(ai*3+mi+4)%len(ns)]}
			}
			for _, n := range ns {
				o := op{name: fmt.Sprintf("%s(%v,%s)", n, add, modeNames[mi]), run: vars[n], eff: merge(add, mi)}
				if n == "NewErrorWithData_any_map" || n == "NewErrorWithData_params" || n == "NewErrorWithData_struct" {
					o.text = "n:"
				}
				ops = append(ops, o)
			}
		}
	}
	keep := func(m map[string]any) (map[string]any, bool) { return cp(m), false }
	for _, k := range []string{"A", "B", "Nope"} {
		k := k
		del := func(m map[string]any) (map[string]any, bool) { r := cp(m); delete(r, k); return r, false }
		ops = append(ops, op{name: "DeleteParameterFromError_any(" + k + ")", run: func(c error) error { return ewd.DeleteParameterFromError_any(c, k) }, eff: del})
		if !full {
			continue
		}
		ops = append(ops, op{name: "DeleteParameterFromError[struct{}](" + k + ")", run: func(c error) error {
			return ewd.DeleteParameterFromError[struct{}](c, k, ewd.EnsureDataIsPresent)
		}, eff: del})
		ops = append(ops, op{name: "DeleteParameterFromError[AB](" + k + ",zero)", run: func(c error) error {
			return ewd.DeleteParameterFromError[AB](c, k, ewd.MissingDataAsZero)
		}, eff: func(m map[string]any) (map[string]any, bool) {
			r, _ := del(m)
			for _, x := range []string{"A", "B"} {
				if _, ok := r[x]; !ok {
					r[x] = nil
				}
			}
			return r, false
		}})
		ops = append(ops, op{name: "DeleteParameterFromError[AB](" + k + ",ensure)", run: func(c error) error {
			return ewd.DeleteParameterFromError[AB](c, k, ewd.EnsureDataIsPresent)
		}, eff: func(m map[string]any) (map[string]any, bool) {
			r, _ := del(m)
			_, a := r["A"]
			_, b := r["B"]
			return r, !a || !b
		}})
	}
	ops = append(ops,
		op{name: "fmt.Errorf", run: func(c error) error { return fmt.Errorf("f:%w", c) }, eff: keep, text: "f:"},
		op{name: "box_plain", run: func(c error) error {
			if x, ok := c.(ewd.IncomparableMaker); ok {
				return ewd.MakeErrorIncomparable(x)
			}
			return nil
		}, eff: keep, box: true},
		op{name: "box_any", run: func(c error) error {
			if x, ok := c.(ewd.ErrorWithData_any); ok {
				return ewd.MakeErrorIncomparable_any(x)
			}
			return nil
		}, eff: keep, box: true},
		op{name: "AsErrorWithData[struct{}]", run: func(c error) error {
			e, ok := ewd.AsErrorWithData[struct{}](c, ewd.EnsureDataIsPresent)
			if !ok {
				return errors.New("AsErrorWithData[struct{}] failed")
			}
			return e
		}, eff: keep})
	return
}

func observe3(t *vk.T, hist []h3, upto string) {
	for i, h := range hist {
		m := ewd.GetData_map(h.real)
		if len(m) != len(h.model) || (len(m) > 0 && !reflect.DeepEqual(m, h.model)) || m == nil {
			t.Failf("after %s: GetData_map of error %d is %v, expected %v", upto, i, m, h.model)
		}
		if x, ok := h.real.(ewd.ErrorWithData_any); ok {
			if m2 := x.GetData_map(); len(m2) != len(h.model) || (len(m2) > 0 && !reflect.DeepEqual(m2, h.model)) {
				t.Failf("after %s: method GetData_map of error %d is %v, expected %v", upto, i, m2, h.model)
			}
			for _, k := range []string{"A", "B", "Z"} {
				want, has := h.model[k]
				v, ok := x.GetParameter(k)
				if ok != has || x.HasParameter(k) != has || !reflect.DeepEqual(v, want) {
					t.Failf("after %s: methods GetParameter/HasParameter(%s) of error %d give %v %v %v, expected %v %v", upto, k, i, v, ok, x.HasParameter(k), want, has)
				}
			}
		}
		for _, k := range []string{"A", "B", "Z"} {
			want, has := h.model[k]
			v, ok := ewd.GetParameter(h.real, k)
			if ok != has || ewd.HasParameter(h.real, k) != has || !reflect.DeepEqual(v, want) {
				t.Failf("after %s: GetParameter/HasParameter(%s) of error %d give %v %v %v, expected %v %v", upto, k, i, v, ok, ewd.HasParameter(h.real, k), want, has)
			}
		}
		_, hasA := h.model["A"]
		_, hasB := h.model["B"]
		if got := ewd.HasData[AB](h.real); got != (hasA && hasB) {
			t.Failf("after %s: HasData[AB] of error %d is %v for %v", upto, i, got, h.model)
		}
		_, isInt := h.model["A"].(int)
		if got := ewd.HasData[JustA](h.real); got != isInt {
			t.Failf("after %s: HasData[JustA] of error %d is %v for %v", upto, i, got, h.model)
		}
		if got := h.real.Error(); got != h.msg {
			t.Failf("after %s: message of error %d is %q, was %q", upto, i, got, h.msg)
		}
		for _, c := range h.chain {
			if !errors.Is(h.real, hist[c].real) {
				t.Failf("after %s: error %d does not wrap error %d, from which it was made", upto, i, c)
			}
		}
		// maps handed out are copies
		m["A"] = "handed-out map mutated"
		delete(m, "B")
		t.Eval(1)
	}
}

func e03(r *vk.Run) {
	starts := []func() (error, map[string]any){
		func() (error, map[string]any) { return errors.New("start"), map[string]any{} },
		func() (error, map[string]any) {
			return ewd.NewErrorWithData_any_params(nil, "start", ewd.ReplacePreviousData, "A", 1), map[string]any{"A": 1}
		},
		func() (error, map[string]any) {
			return ewd.NewErrorWithData_struct(nil, "start", &AB{nil, 2}), map[string]any{"A": nil, "B": 2}
		},
		func() (error, map[string]any) {
			return fmt.Errorf("start%w", ewd.NewErrorWithData_any_params(nil, "", ewd.PreferPreviousData)), map[string]any{}
		},
	}[:3]
	sweep := func(label string, O []op, depth int) {
		N := len(O) * len(starts)
		r.Each(N, func(i int) string { return fmt.Sprintf("%s/%d/%s", label, i%len(starts), O[i/len(starts)].name) }, func(t *vk.T, i int) {
			e, m := starts[i%len(starts)]()
			hist := []h3{{real: e, model: m, msg: "start"}}
			var rec func(hist []h3, names string, d int, o op)
			rec = func(hist []h3, names string, d int, o op) {
				// the new error is made from the latest one; at depth 2 and more also from the first one (branching)
				from := []int{len(hist) - 1}
				if len(hist) > 1 {
					from = append(from, 0)
				}
				for _, at := range from {
					cur := hist[at]
					nm := fmt.Sprintf("%s; %s from #%d", names, o.name, at)
					want, wantPanic := o.eff(cur.model)
					var e error
					did, v := vk.Panics(func() { e = o.run(cur.real) })
					t.Trans(1)
					if did != wantPanic {
						t.Failf("history %s: panics=%v (%v), expected %v", nm, did, v, wantPanic)
						continue
					}
					next := hist
					if !did {
						if e == nil { // not applicable
							continue
						}
						chain := append([]int{at}, cur.chain...)
						msg := cur.msg
						if strings.HasSuffix(o.text, ":") {
							msg = o.text + msg
						}
						next = append(append([]h3{}, hist...), h3{real: e, model: want, msg: msg, chain: chain})
					}
					observe3(t, next, nm)
					if t.Failed() {
						return
					}
					if d > 1 && !did {
						for _, o2 := range O {
							rec(next, nm, d-1, o2)
						}
					} else {
						t.Trace(1)
						t.State(label, fmt.Sprint(models(next)))
					}
				}
			}
			rec(hist, "start", depth, O[i/len(starts)])
		})
	}
	full, small := ops3(true), ops3(false)
	r.Extra("operations", map[string]int{"full": len(full), "small": len(small)})
	sweep("full", full, 2)
	if r.Thorough {
		sweep("small", small, 5)
		sweep("full", full, 3)
	} else {
		sweep("small", small, 4)
	}
	e03scale(r)
	e03pairs(r)
	r.Case("nil", func(t *vk.T) {
		for name, f := range map[string]func() error{
			"AddDataToError_any_params": func() error {
				x := ewd.AddDataToError_any_params(nil, ewd.ReplacePreviousData, "A", 1)
				if x == nil {
					return nil
				}
				return x
			},
			"AddDataToError_any_map": func() error {
				x := ewd.AddDataToError_any_map(nil, ewd.ReplacePreviousData, map[string]any{"A": 1})
				if x == nil {
					return nil
				}
				return x
			},
			"AddDataToError_params": func() error {
				x := ewd.AddDataToError_params[AB](nil, ewd.ReplacePreviousData, ewd.MissingDataAsZero, "A", 1)
				if x == nil {
					return nil
				}
				return x
			},
			"AddDataToError_map": func() error {
				x := ewd.AddDataToError_map[AB](nil, ewd.ReplacePreviousData, ewd.MissingDataAsZero, nil)
				if x == nil {
					return nil
				}
				return x
			},
			"AddDataToError_struct": func() error {
				x := ewd.AddDataToError_struct(nil, &AB{})
				if x == nil {
					return nil
				}
				return x
			},
			"DeleteParameterFromError": func() error {
				x := ewd.DeleteParameterFromError[AB](nil, "A", ewd.MissingDataAsZero)
				if x == nil {
					return nil
				}
				return x
			},
			"DeleteParameterFromError_any": func() error {
				x := ewd.DeleteParameterFromError_any(nil, "A")
				if x == nil {
					return nil
				}
				return x
			},
			"AsErrorWithData": func() error {
				x, ok := ewd.AsErrorWithData[AB](nil, ewd.EnsureDataIsPresent)
				if !ok {
					return errors.New("not ok")
				}
				if x == nil {
					return nil
				}
				return x
			},
		} {
			if e := f(); e != nil {
				t.Failf("%s on a nil error returns %v instead of nil", name, e)
			}
			t.Eval(1)
		}
		if m := ewd.GetData_map(nil); m == nil || len(m) != 0 {
			t.Failf("GetData_map(nil) is %v", m)
		}
		if ewd.HasParameter(nil, "A") || ewd.HasData[AB](nil) || !ewd.HasData[struct{}](nil) {
			t.Failf("getters on nil are wrong")
		}
		if v, ok := ewd.GetParameter(nil, "A"); v != nil || ok {
			t.Failf("GetParameter(nil) is %v %v", v, ok)
		}
		for _, f := range []func(){
			func() { ewd.NewErrorWithData_any_params(nil, "", ewd.ReplacePreviousData) },
			func() { ewd.NewErrorWithData_any_map(nil, "", ewd.ReplacePreviousData, nil) },
			func() { ewd.NewErrorWithData_struct(nil, "", &AB{}) },
			func() { ewd.NewErrorWithData_any_params(nil, "x", ewd.ReplacePreviousData, "A") },
			func() { ewd.NewErrorWithData_any_params(nil, "x", ewd.ReplacePreviousData, 1, 1) },
			func() { ewd.NewErrorWithData_any_params(nil, "x", ewd.PreviousDataTreatment{}, "A", 1) },
		} {
			if did, _ := vk.Panics(f); !did {
				t.Failf("a call with arguments outside the contract does not panic")
			}
		}
		// duplicate names: the last one wins
		e := ewd.NewErrorWithData_any_params(nil, "x", ewd.AssertDataIsNotReplaced, "A", 1, "A", 2)
		if v, _ := e.GetParameter("A"); v != 2 {
			t.Failf("repeated parameter name: got %v", v)
		}
	})
}
func models(h []h3) (r []map[string]any) {
	for _, x := range h {
		r = append(r, x.model)
	}
	return
}

// e03pairs: one parameter replaced by another value, for all pairs of a list of values that are easily confused with each other
func e03pairs(r *vk.Run) {
	type s1 struct{ X any }
	type s2 struct{ X any }
	n1, n2 := 1, 1
	e1, e2 := errors.New("1"), errors.New("1")
	f := func() {}
	vals := []any{nil, 1, int64(1), uint8(1), 1.0, "1", "", "<nil>", true, "true", 'a', (*int)(nil), (*string)(nil), error(nil), &n1, &n2, e1, e2,
		s1{1}, s1{int64(1)}, s2{1}, &s1{1}, [1]int{1}, [1]any{1}, [1]any{int64(1)}, []int{1}, []int(nil), []int{}, map[string]int{}, map[string]int(nil), f, struct{}{}, [0]int{}, complex(1, 0), "{1}", "[1]", "1 ", "\x00", "\ufffd", "\xff"}
	type mk struct {
		name string
		f    func(base error, mode ewd.PreviousDataTreatment, v any) ewd.ErrorWithData_any
	}
	mks := []mk{
		{"NewErrorWithData_any_params", func(b error, m ewd.PreviousDataTreatment, v any) ewd.ErrorWithData_any {
			return ewd.NewErrorWithData_any_params(b, "m", m, "X", v)
		}},
		{"NewErrorWithData_any_map", func(b error, m ewd.PreviousDataTreatment, v any) ewd.ErrorWithData_any {
			return ewd.NewErrorWithData_any_map(b, "m", m, map[string]any{"X": v})
		}},
		{"NewErrorWithData_struct", func(b error, m ewd.PreviousDataTreatment, v any) ewd.ErrorWithData_any {
			return ewd.NewErrorWithData_struct(b, "m", &s1{v}, m)
		}},
		{"NewErrorWithData_params[s1]", func(b error, m ewd.PreviousDataTreatment, v any) ewd.ErrorWithData_any {
			return ewd.NewErrorWithData_params[s1](b, "m", m, ewd.EnsureDataIsPresent, "X", v)
		}},
		{"NewErrorWithData_map[s1]", func(b error, m ewd.PreviousDataTreatment, v any) ewd.ErrorWithData_any {
			return ewd.NewErrorWithData_map[s1](b, "m", m, ewd.EnsureDataIsPresent, map[string]any{"X": v})
		}},
	}
	show := func(v any) string { return fmt.Sprintf("%T:%#v", v, v) }
	ident := func(a, b any) bool {
		if reflect.TypeOf(a) != reflect.TypeOf(b) {
			return false
		}
		if eq, cmp := same(a, b); cmp {
			return eq
		}
		va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
		if va.Kind() == reflect.Func {
			return va.Pointer() == vb.Pointer()
		}
		return va.IsNil() == vb.IsNil() && reflect.DeepEqual(a, b)
	}
	r.Each(len(vals)*len(mks), func(i int) string { return fmt.Sprintf("pairs/%d/%s", i/len(mks), mks[i%len(mks)].name) }, func(t *vk.T, i int) {
		old, first := vals[i/len(mks)], mks[i%len(mks)]
		for _, v := range vals {
			for _, second := range mks {
				for mi, mode := range modes {
					base := first.f(nil, ewd.ReplacePreviousData, old)
					var e ewd.ErrorWithData_any
					did, why := vk.Panics(func() { e = second.f(base, mode, v) })
					eq, cmp := same(old, v)
					wantPanic := mi == 2 && (!cmp || !eq)
					t.Trans(1)
					what := fmt.Sprintf("%s(%s) on %s(%s), %s", second.name, show(v), first.name, show(old), modeNames[mi])
					if did != wantPanic {
						t.Failf("%s: panics=%v (%v), expected %v", what, did, why, wantPanic)
						continue
					}
					if b, ok := base.GetParameter("X"); !ok || !ident(b, old) {
						t.Failf("%s: the base error now has %s", what, show(b))
					}
					if did {
						continue
					}
					want := v
					if mi == 1 {
						want = old
					}
					if got, ok := e.GetParameter("X"); !ok || !ident(got, want) || !ident(e.GetData_map()["X"], want) {
						t.Failf("%s: GetParameter gives %s, expected %s", what, show(got), show(want))
					}
					if d, ok := e.(ewd.ErrorWithData[s1]); ok && !ident(d.GetData_struct().X, want) {
						t.Failf("%s: GetData_struct gives %s, expected %s", what, show(d.GetData_struct().X), show(want))
					}
					t.State("pair", show(want), modeNames[mi])
				}
			}
		}
	})
}

type twelve struct{ V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11 any }

// e03scale: many parameters, long chains
func e03scale(r *vk.Run) {
	var sizes []int
	for n := 0; n <= 20; n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 31, 32, 33, 64, 65, 128, 129, 257, 513, 1025)
	if r.Thorough {
		for n := 21; n <= 80; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 127, 255, 256, 511, 512, 513, 1024, 1025)
	}
	sizes = vkUniq(sizes)
	name := func(i int) string { return fmt.Sprintf("V%d", i) }
	flat := func(from, to, f int) (r []any) {
		for i := to - 1; i >= from; i-- {
			r = append(r, name(i), i*f)
		}
		return
	}
	mp := func(from, to, f int) map[string]any {
		m := map[string]any{}
		for i := from; i < to; i++ {
			m[name(i)] = i * f
		}
		return m
	}
	type mk struct {
		name string
		f    func(base error, mode ewd.PreviousDataTreatment, from, to, f int) ewd.ErrorWithData_any
	}
	mks := []mk{
		{"New_params", func(b error, mode ewd.PreviousDataTreatment, from, to, f int) ewd.ErrorWithData_any {
			return ewd.NewErrorWithData_any_params(b, "m", mode, flat(from, to, f)...)
		}},
		{"New_map", func(b error, mode ewd.PreviousDataTreatment, from, to, f int) ewd.ErrorWithData_any {
			return ewd.NewErrorWithData_any_map(b, "m", mode, mp(from, to, f))
		}},
		{"Add_params", func(b error, mode ewd.PreviousDataTreatment, from, to, f int) ewd.ErrorWithData_any {
			return ewd.AddDataToError_any_params(b, mode, flat(from, to, f)...)
		}},
		{"Add_map", func(b error, mode ewd.PreviousDataTreatment, from, to, f int) ewd.ErrorWithData_any {
			return ewd.AddDataToError_any_map(b, mode, mp(from, to, f))
		}},
		{"typed New_params", func(b error, mode ewd.PreviousDataTreatment, from, to, f int) ewd.ErrorWithData_any {
			return ewd.NewErrorWithData_params[struct{}](b, "m", mode, ewd.EnsureDataIsPresent, flat(from, to, f)...)
		}},
	}
	eq := func(t *vk.T, what string, e error, want map[string]any) {
		t.Eval(1)
		if g := ewd.GetData_map(e); len(g) != len(want) || len(g) > 0 && !reflect.DeepEqual(g, want) {
			t.Failf("%s: data is %v, expected %v", what, g, want)
		} else {
			for k := range g {
				g[k] = "mutated"
			}
			g["Extra"] = 1
		}
		for k, v := range want {
			if x, ok := ewd.GetParameter(e, k); !ok || x != v || !ewd.HasParameter(e, k) {
				t.Failf("%s: GetParameter(%s) is %v %v, expected %v", what, k, x, ok, v)
			}
		}
		if len(ewd.GetData_map(e)) != len(want) || ewd.HasParameter(e, "Extra") || ewd.HasParameter(e, "V") {
			t.Failf("%s: data changed, or a parameter is reported that is not there", what)
		}
		if got, want := ewd.HasData[twelve](e), len(want) > 11 && func() bool {
			for i := 0; i < 12; i++ {
				if _, ok := want[name(i)]; !ok {
					return false
				}
			}
			return true
		}(); got != want {
			t.Failf("%s: HasData of a struct with 12 fields is %v", what, got)
		} else if want {
			if d := ewd.GetData_struct[twelve](e, ewd.EnsureDataIsPresent); fmt.Sprint(d.V11) != fmt.Sprint(mustGet(e, "V11")) || fmt.Sprint(d.V0) != fmt.Sprint(mustGet(e, "V0")) {
				t.Failf("%s: GetData_struct of a struct with 12 fields is %v", what, d)
			}
		}
	}
	r.Each(len(sizes)*len(mks), func(i int) string { return fmt.Sprintf("scale/%s/%d", mks[i%len(mks)].name, sizes[i/len(mks)]) }, func(t *vk.T, i int) {
		n, k := sizes[i/len(mks)], mks[i%len(mks)]
		plain := errors.New("plain")
		for _, f0 := range mks {
			e0 := f0.f(plain, ewd.ReplacePreviousData, 0, n, 1)
			w0 := mp(0, n, 1)
			eq(t, fmt.Sprintf("%s with %d parameters", f0.name, n), e0, w0)
			for _, base := range []error{e0, fmt.Errorf("f:%w", e0)} {
				for _, ov := range [][2]int{{0, n}, {n / 2, n + n/2}, {n, 2 * n}, {n - 1, n + 1}} { // overlaps
					if ov[0] < 0 {
						continue
					}
					for mi, mode := range modes {
						for f := 1; f <= 2; f++ {
							want, panics := cp(w0), false
							for j := ov[0]; j < ov[1]; j++ {
								old, has := want[name(j)]
								if mi == 2 && has && old != j*f {
									panics = true
								}
								if !has || mi == 0 {
									want[name(j)] = j * f
								}
							}
							var e ewd.ErrorWithData_any
							did, v := vk.Panics(func() { e = k.f(base, mode, ov[0], ov[1], f) })
							what := fmt.Sprintf("%s with V%d..V%d (value times %d, %s) of %s with V0..V%d", k.name, ov[0], ov[1]-1, f, modeNames[mi], f0.name, n-1)
							t.Trans(1)
							if did != panics {
								t.Failf("%s: panics=%v (%v), expected %v", what, did, v, panics)
								continue
							}
							if did {
								continue
							}
							eq(t, what, e, want)
							for _, d := range []int{0, n / 2, n - 1, n} {
								if d < 0 {
									continue
								}
								w2 := cp(want)
								delete(w2, name(d))
								eq(t, what+" without "+name(d), ewd.DeleteParameterFromError_any(e, name(d)), w2)
							}
							eq(t, what+" afterwards", e, want)
							t.State("scale", what)
						}
					}
				}
			}
			eq(t, fmt.Sprintf("%s with %d parameters, afterwards", f0.name, n), e0, w0)
			t.Alive()
		}
	})
	r.Each(len(sizes), func(i int) string { return fmt.Sprintf("chain/%d", sizes[i]) }, func(t *vk.T, i int) {
		n := sizes[i]
		for variant := 0; variant < 7; variant++ {
			var e error = errors.New("start")
			want := map[string]any{}
			first := e
			var all []error
			var wants []map[string]any
			for k := 0; k < n; k++ {
				switch variant {
				case 0: // one parameter each
					e = ewd.AddDataToError_any_params(e, ewd.ReplacePreviousData, name(k), k)
					want[name(k)] = k
				case 1: // the same parameter again and again
					e = ewd.AddDataToError_any_params(e, ewd.ReplacePreviousData, "V0", k)
					want["V0"] = k
				case 2: // foreign wrappers
					if k%3 == 0 {
						e = ewd.NewErrorWithData_any_params(e, "%w", ewd.PreferPreviousData, "V0", k, name(k), k)
						if _, ok := want["V0"]; !ok {
							want["V0"] = k
						}
						want[name(k)] = k
						if k == 0 {
							want["V0"] = 0
						}
					} else {
						e = fmt.Errorf("%w", e)
					}
				case 4, 5, 6: // data at the bottom of ever more foreign wrappers
					if k == 0 {
						d := ewd.AddDataToError_any_params(e, ewd.ReplacePreviousData, "V0", 7, "V1", nil)
						want["V0"], want["V1"] = 7, nil
						if e = d; variant == 5 {
							e = ewd.MakeErrorIncomparable(d.(ewd.IncomparableMaker))
						}
					} else if variant == 6 {
						e = foreign3{e}
					} else {
						e = fmt.Errorf("%w", e)
					}
				case 3: // added and deleted
					e = ewd.AddDataToError_any_params(e, ewd.ReplacePreviousData, name(k), k)
					want[name(k)] = k
					if k%2 == 1 {
						e = ewd.DeleteParameterFromError_any(e, name(k-1))
						delete(want, name(k-1))
					}
				}
				all, wants = append(all, e), append(wants, cp(want))
				t.Trans(1)
			}
			for k := range all {
				if n > 40 && k%7 != 0 && k != n-1 {
					continue
				}
				eq(t, fmt.Sprintf("chain of kind %d, error %d", variant, k), all[k], wants[k])
				if !errors.Is(all[k], first) || all[k].Error() != "start" {
					t.Failf("chain of kind %d, error %d: does not wrap the first error or message %q is wrong", variant, k, all[k].Error())
				}
				t.Alive()
			}
		}
	})
}

type foreign3 struct{ error }

func (f foreign3) Unwrap() error { return f.error }

func mustGet(e error, k string) any { v, _ := ewd.GetParameter(e, k); return v }
