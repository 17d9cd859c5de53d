//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

type MyInt int
type Stringer interface{ String() string }

func (MyInt) String() string { return "myint" }

type Inner struct {
	X int
	W uint8
}
type Inner2 struct {
	Inner
	V string
}
type S1 struct {
	X int
	Y string
}
type S2 struct {
	P *int
	I any
	E error
}
type S3 struct {
	Inner
	Z int
}
type S4 struct { // shadows Inner.X
	X string
	Inner
}
type S5 struct{}
type S6 struct {
	F func()
	M map[string]int
	S []int
}
type S7 struct{ MyInt }
type S8 struct{ Stringer }
type S9 struct{ Inner2 }
type S10 struct {
	Inner2
	X bool // shadows Inner2.Inner.X
}
type S11 struct {
	A [2]int
	B struct{ q int }
	C MyInt
}
type Nest1 struct{ X int }
type Nest2 struct{ Nest1 }
type S12 struct { // the example of the documentation, made unambiguous by an own X
	Nest1
	Nest2
	X int
}

type NamedL []int
type NamedF func()
type S13 struct { // named and directed types: assignability differs from identity
	L NamedL
	C <-chan int
	F NamedF
}

type S14 struct { // names that look like those of the types
	Foo    int
	Bool   bool
	String string
	Int8   int8
}

// unsuitable types
type U1 struct{ x int }
type U2 struct{ *Inner }
type U3 struct { // the documentation's example
	Nest1
	Nest2
}
type U4 struct {
	Inner
	Nest1
}
type U5 struct {
	X int
	y int
}
type U6 struct{ inn }
type inn struct{ q int }

var i5, i6 = 5, 6
var errX = errors.New("X")

var pool = []any{5, 7, "s", nil, &i5, (*int)(nil), errX, MyInt(3), true, uint8(9), []int(nil), map[string]int(nil), (func())(nil), NamedL{2}, (chan int)(nil), (<-chan int)(nil), NamedF(nil)}

type absentT struct{}

var absent any = absentT{}

type spec[T any] struct {
	name   string
	fields []string
	get    func(T) []any
	vals   []T
	extra  []any // further candidates for types with many fields
}

func nilable(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return true
	}
	return false
}
func fits(v any, ft reflect.Type) bool {
	if v == nil {
		return nilable(ft)
	}
	if ft.Kind() == reflect.Interface {
		return reflect.TypeOf(v).Implements(ft)
	}
	return reflect.TypeOf(v) == ft
}
func norm(v any, ft reflect.Type) any {
	if v == nil {
		return reflect.Zero(ft).Interface()
	}
	return v
}
func eqv(a, b any) bool {
	if a != nil && b != nil && reflect.TypeOf(a) == reflect.TypeOf(b) && reflect.TypeOf(a).Kind() == reflect.Func {
		return reflect.ValueOf(a).IsNil() == reflect.ValueOf(b).IsNil()
	}
	return reflect.DeepEqual(a, b) && (a == nil) == (b == nil)
}
func eqmap(a, b map[string]any) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !eqv(v, w) {
			return false
		}
	}
	return true
}

var missings = []ewd.MissingDataTreatment{ewd.EnsureDataIsPresent, ewd.MissingDataAsZero}

func run4[T any](r *vk.Run, s spec[T]) {
	// the types of the fields, by field name (own flattening: the listed names, resolved by the language's selector rules)
	rt := reflect.TypeOf((*T)(nil)).Elem()
	ft := map[string]reflect.Type{}
	for _, f := range s.fields {
		sf, ok := rt.FieldByName(f)
		if !ok {
			panic("bad spec " + s.name + f)
		}
		ft[f] = sf.Type
	}
	fieldsOf := func(v T) map[string]any {
		m := map[string]any{}
		for i, x := range s.get(v) {
			m[s.fields[i]] = x
		}
		return m
	}
	// per field: absent, everything of the pool for <= 2 fields, a reduced pool beyond
	P := append([]any{absent}, pool...)
	if len(s.fields) > 2 && !r.Thorough {
		P = append([]any{absent, 5, "s", nil, errX, (*int)(nil)}, s.extra...)
	}
	n := 1
	for range s.fields {
		n *= len(P)
	}
	r.Each(n, func(i int) string { return fmt.Sprintf("%s/%d", s.name, i) }, func(t *vk.T, i int) {
		inh := map[string]any{"Other": 1}
		for k, c := 0, i; k < len(s.fields); k++ {
			v := P[c%len(P)]
			if v != absent {
				inh[s.fields[k]] = v
			} else if k < len(s.vals) { // absent here: sometimes take a right-typed value
				if c%len(P) == 0 && k%2 == 1 && len(s.fields) > 2 {
					inh[s.fields[k]] = s.get(s.vals[0])[k]
				}
			}
			c /= len(P)
		}
		check4(t, s, ft, fieldsOf, inh)
		for _, v := range s.vals { // right-typed data with one field taken from the pool
			for k, f := range s.fields {
				m := fieldsOf(v)
				m["Other"] = 1
				x := P[(i+k)%len(P)]
				if x == absent {
					delete(m, f)
				} else {
					m[f] = x
				}
				if i < len(P)*4 {
					check4(t, s, ft, fieldsOf, m)
				}
			}
			if i == 0 {
				check4(t, s, ft, fieldsOf, fieldsOf(v))
				check4(t, s, ft, fieldsOf, map[string]any{})
			}
		}
		t.State(s.name, fmt.Sprint(i))
	})
}

func check4[T any](t *vk.T, s spec[T], ft map[string]reflect.Type, fieldsOf func(T) map[string]any, inh map[string]any) {
	bases := map[string]error{"error with data": ewd.NewErrorWithData_any_map(nil, "b", ewd.ReplacePreviousData, inh)}
	bases["wrapping error"] = fmt.Errorf("w:%w", bases["error with data"])
	if len(inh) == 0 {
		bases["nil"] = nil
	}
	complete := func(m map[string]any, missing int) bool { // may a T be made from m?
		for _, f := range s.fields {
			v, ok := m[f]
			if !ok && missing == 0 || ok && !fits(v, ft[f]) {
				return false
			}
		}
		return true
	}
	fill := func(m map[string]any, missing int) map[string]any {
		r := cp(m)
		for _, f := range s.fields {
			if _, ok := r[f]; !ok && missing == 1 {
				r[f] = reflect.Zero(ft[f]).Interface()
			}
		}
		return r
	}
	want := func(m map[string]any) (w []any) {
		for _, f := range s.fields {
			w = append(w, norm(m[f], ft[f]))
		}
		return
	}
	checkStruct := func(what string, got T, m map[string]any) {
		w, g := want(m), s.get(got)
		for i := range w {
			if !eqv(w[i], g[i]) {
				t.Failf("type %s, inherited %v: %s yields field %s = %#v, expected %#v", s.name, inh, what, s.fields[i], g[i], w[i])
			}
		}
	}
	// result checks one construction: m is the data in effect, ok whether it has to succeed
	result := func(what string, m map[string]any, ok bool, f func() ewd.ErrorWithData[T]) {
		if t.Failed() {
			return
		}
		var e ewd.ErrorWithData[T]
		did, v := vk.Panics(func() { e = f() })
		t.Eval(1)
		if did == ok {
			t.Failf("type %s, inherited %v: %s panics=%v (%v), expected success=%v", s.name, inh, what, did, v, ok)
		}
		if did || !ok {
			return
		}
		if did, v := vk.Panics(func() {
			if got := e.GetData_map(); !eqmap(got, m) {
				t.Failf("type %s, inherited %v: %s has data %v, expected %v", s.name, inh, what, got, m)
			}
			checkStruct(what+".GetData_struct", e.GetData_struct(), m)
			checkStruct("GetData_struct of "+what, ewd.GetData_struct[T](e, ewd.EnsureDataIsPresent), m)
			if !ewd.HasData[T](e) {
				t.Failf("type %s, inherited %v: HasData of %s is false", s.name, inh, what)
			}
			w := ewd.AddDataToError_any_params(fmt.Errorf("f:%w", e), ewd.AssertDataIsNotReplaced, "Unrelated", 1)
			checkStruct("GetData_struct of an error wrapping "+what, ewd.GetData_struct[T](w, ewd.EnsureDataIsPresent), m)
			box := ewd.MakeErrorIncomparable_struct[T](e)
			checkStruct("GetData_struct of boxed "+what, box.GetData_struct(), m)
			checkStruct("GetData_struct of unboxed "+what, ewd.UnboxError_struct[T](box).GetData_struct(), m)
		}); did {
			t.Failf("type %s, inherited %v: %s was made, but retrieving its data panics: %v", s.name, inh, what, v)
		}
	}
	merge := func(a, b map[string]any, mode int) (map[string]any, bool) {
		r := cp(a)
		for k, v := range b {
			old, has := r[k]
			if !has || mode == 0 {
				r[k] = v
			} else if mode == 2 {
				if eq, c := same(old, v); !eq || !c {
					return nil, false
				}
			}
		}
		return r, true
	}
	for bn, base := range bases {
		eff := inh
		if base == nil {
			eff = map[string]any{}
		}
		for mi, mode := range modes {
			for vi, v := range s.vals {
				m, ok := merge(eff, fieldsOf(v), mi)
				ok = ok && complete(m, 0)
				val := v
				result(fmt.Sprintf("NewErrorWithData_struct(%s,#%d,%s)", bn, vi, modeNames[mi]), m, ok, func() ewd.ErrorWithData[T] { return ewd.NewErrorWithData_struct(base, "n", &val, mode) })
				if base != nil {
					result(fmt.Sprintf("AddDataToError_struct(%s,#%d,%s)", bn, vi, modeNames[mi]), m, ok, func() ewd.ErrorWithData[T] { return ewd.AddDataToError_struct(base, &val, mode) })
				}
				if mi == 0 {
					result("NewErrorWithData_struct(default mode)", m, ok, func() ewd.ErrorWithData[T] { return ewd.NewErrorWithData_struct(base, "n", &val) })
				}
			}
			adds := []map[string]any{{}, fieldsOf(s.vals[len(s.vals)-1]), {"Extra": 2}}
			if len(s.fields) > 0 {
				f := s.fields[len(s.fields)-1]
				adds = append(adds, map[string]any{f: fieldsOf(s.vals[0])[f]}, map[string]any{f: nil}, map[string]any{f: struct{ q int }{}})
			}
			for mm, missing := range missings {
				for _, add := range adds {
					m, ok := merge(eff, add, mi)
					ok = ok && complete(m, mm)
					m = fill(m, mm)
					id := fmt.Sprintf("(%s,%v,%s,%v)", bn, add, modeNames[mi], missing)
					result("NewErrorWithData_map"+id, m, ok, func() ewd.ErrorWithData[T] { return ewd.NewErrorWithData_map[T](base, "n", mode, missing, add) })
					var flat []any
					for k, v := range add {
						flat = append(flat, k, v)
					}
					result("NewErrorWithData_params"+id, m, ok, func() ewd.ErrorWithData[T] {
						return ewd.NewErrorWithData_params[T](base, "n", mode, missing, flat...)
					})
					if base != nil {
						result("AddDataToError_map"+id, m, ok, func() ewd.ErrorWithData[T] { return ewd.AddDataToError_map[T](base, mode, missing, add) })
						result("AddDataToError_params"+id, m, ok, func() ewd.ErrorWithData[T] { return ewd.AddDataToError_params[T](base, mode, missing, flat...) })
					}
				}
			}
		}
		for mm, missing := range missings {
			ok := complete(eff, mm)
			if base != nil {
				e, k := ewd.AsErrorWithData[T](base, missing)
				t.Eval(1)
				if k != ok {
					t.Failf("type %s, inherited %v: AsErrorWithData(%s,%v) ok=%v, expected %v", s.name, inh, bn, missing, k, ok)
				} else if ok {
					result("AsErrorWithData", fill(eff, mm), true, func() ewd.ErrorWithData[T] { return e })
				}
				if len(s.fields) > 0 {
					f := s.fields[0]
					m := cp(eff)
					delete(m, f)
					result(fmt.Sprintf("DeleteParameterFromError(%s,%s,%v)", bn, f, missing), fill(m, mm), complete(m, mm), func() ewd.ErrorWithData[T] {
						return ewd.DeleteParameterFromError[T](base, f, missing)
					})
				}
			}
			var got T
			did, v := vk.Panics(func() { got = ewd.GetData_struct[T](base, missing) })
			if did == ok {
				t.Failf("type %s, inherited %v: GetData_struct(%s,%v) panics=%v (%v), expected %v", s.name, inh, bn, missing, did, v, !ok)
			} else if ok {
				checkStruct("GetData_struct", got, fill(eff, mm))
			}
		}
		if got := ewd.HasData[T](base); got != complete(eff, 0) {
			t.Failf("type %s, inherited %v: HasData(%s) is %v", s.name, inh, bn, got)
		}
	}
}

func e04(r *vk.Run) {
	f1 := func() {}
	_ = f1
	run4(r, spec[S1]{"plain{X int,Y string}", []string{"X", "Y"}, func(v S1) []any { return []any{v.X, v.Y} }, []S1{{}, {5, "s"}, {7, "t"}}, nil})
	run4(r, spec[S2]{"nilable{P *int,I any,E error}", []string{"P", "I", "E"}, func(v S2) []any { return []any{v.P, v.I, v.E} }, []S2{{}, {&i5, 5, errX}, {&i6, nil, nil}, {nil, errX, nil}}, nil})
	run4(r, spec[S3]{"embedded{Inner,Z}", []string{"X", "W", "Z"}, func(v S3) []any { return []any{v.Inner.X, v.W, v.Z} }, []S3{{}, {Inner{5, 9}, 7}}, nil})
	run4(r, spec[S4]{"shadowing{X string,Inner}", []string{"X", "W"}, func(v S4) []any { return []any{v.X, v.W} }, []S4{{}, {X: "s", Inner: Inner{W: 9}}}, nil})
	run4(r, spec[S5]{"empty", nil, func(v S5) []any { return nil }, []S5{{}}, nil})
	run4(r, spec[S6]{"reference{F func,M map,S slice}", []string{"F", "M", "S"}, func(v S6) []any { return []any{v.F, v.M, v.S} }, []S6{{}, {nil, map[string]int{"a": 1}, []int{1}}}, nil})
	run4(r, spec[S7]{"embedded non-struct", []string{"MyInt"}, func(v S7) []any { return []any{v.MyInt} }, []S7{{}, {3}}, nil})
	run4(r, spec[S8]{"embedded interface", []string{"Stringer"}, func(v S8) []any { return []any{v.Stringer} }, []S8{{}, {MyInt(3)}}, nil})
	run4(r, spec[S9]{"doubly embedded", []string{"V", "X", "W"}, func(v S9) []any { return []any{v.V, v.X, v.W} }, []S9{{}, {Inner2{Inner{5, 9}, "s"}}}, nil})
	run4(r, spec[S10]{"doubly embedded, shadowing", []string{"X", "V", "W"}, func(v S10) []any { return []any{v.X, v.V, v.W} }, []S10{{}, {X: true, Inner2: Inner2{V: "s", Inner: Inner{W: 9}}}}, nil})
	run4(r, spec[S11]{"array, struct and named fields", []string{"A", "B", "C"}, func(v S11) []any { return []any{v.A, v.B, v.C} }, []S11{{}, {[2]int{1, 2}, struct{ q int }{3}, 3}}, nil})
	run4(r, spec[S12]{"shadowing several embedded", []string{"X"}, func(v S12) []any { return []any{v.X} }, []S12{{}, {X: 5}}, nil})
	run4(r, spec[S13]{"named slice, directed channel, named func", []string{"L", "C", "F"}, func(v S13) []any { return []any{v.L, v.C, v.F} }, []S13{{}, {L: NamedL{1}}},
		[]any{[]int{1}, NamedL{2}, (chan int)(nil), (<-chan int)(nil), (func())(nil), NamedF(nil)}})
	// types that print alike, but have different fields (declared in different scopes), generic and unnamed types, deep and wide ones
	sameName1(r)
	sameName2(r)
	sameName3(r)
	run4(r, spec[G[int]]{"generic over int", []string{"X", "Y"}, func(v G[int]) []any { return []any{v.X, v.Y} }, []G[int]{{}, {5, 7}}, nil})
	run4(r, spec[G[string]]{"generic over string", []string{"X", "Y"}, func(v G[string]) []any { return []any{v.X, v.Y} }, []G[string]{{}, {"s", 7}}, nil})
	run4(r, spec[G[any]]{"generic over any", []string{"X", "Y"}, func(v G[any]) []any { return []any{v.X, v.Y} }, []G[any]{{}, {"s", 7}}, nil})
	type un1 = struct{ X int }
	type un2 = struct {
		Inner
		V string
	}
	run4(r, spec[un1]{"unnamed", []string{"X"}, func(v un1) []any { return []any{v.X} }, []un1{{}, {5}}, nil})
	run4(r, spec[un2]{"unnamed embedding", []string{"V", "X", "W"}, func(v un2) []any { return []any{v.V, v.X, v.W} }, []un2{{}, {Inner{5, 9}, "s"}}, nil})
	run4(r, spec[Deep]{"embedded four levels deep", []string{"Q", "V", "W", "X"}, func(v Deep) []any { return []any{v.Q, v.V, v.W, v.X} }, []Deep{{}, {D3: D3{D2: D2{Inner2: Inner2{Inner{5, 9}, "s"}}}, Q: true, X: "t"}}, nil})
	wideCase(r)
	e04shapes(r)
	r.Case("suitability", func(t *vk.T) {
		suit := func(name string, want bool, suitable func() error, uses ...func()) {
			for k := 0; k < 2; k++ { // second time: from the cache
				var e error
				if did, v := vk.Panics(func() { e = suitable() }); did {
					t.Failf("StructSuitableForErrorsWithData[%s] panics: %v", name, v)
				}
				if (e == nil) != want {
					t.Failf("StructSuitableForErrorsWithData[%s] = %v, expected suitable=%v", name, e, want)
				}
				for i, u := range uses {
					if did, _ := vk.Panics(u); did == want {
						t.Failf("use #%d of %s panics=%v", i, name, did)
					}
				}
				t.Eval(1)
			}
		}
		suit("S1", true, ewd.StructSuitableForErrorsWithData[S1], use4[S1]()...)
		suit("S2", true, ewd.StructSuitableForErrorsWithData[S2], use4[S2]()...)
		suit("S3", true, ewd.StructSuitableForErrorsWithData[S3], use4[S3]()...)
		suit("S4", true, ewd.StructSuitableForErrorsWithData[S4], use4[S4]()...)
		suit("S5", true, ewd.StructSuitableForErrorsWithData[S5], use4[S5]()...)
		suit("S12", true, ewd.StructSuitableForErrorsWithData[S12], use4[S12]()...)
		suit("unexported", false, ewd.StructSuitableForErrorsWithData[U1], use4[U1]()...)
		suit("embedded pointer", false, ewd.StructSuitableForErrorsWithData[U2], use4[U2]()...)
		suit("doc example", false, ewd.StructSuitableForErrorsWithData[U3], use4[U3]()...)
		suit("ambiguous", false, ewd.StructSuitableForErrorsWithData[U4], use4[U4]()...)
		suit("partly unexported", false, ewd.StructSuitableForErrorsWithData[U5], use4[U5]()...)
		suit("unexported in embedded", false, ewd.StructSuitableForErrorsWithData[U6], use4[U6]()...)
		suit("int", false, ewd.StructSuitableForErrorsWithData[int], use4[int]()...)
		suit("*S1", false, ewd.StructSuitableForErrorsWithData[*S1], use4[*S1]()...)
		suit("any", false, ewd.StructSuitableForErrorsWithData[any], use4[any]()...)
	})
	r.Case("field lists", func(t *vk.T) {
		perms := func(n string, f func([]string), names []string) {
			for mask := 0; mask < 1<<len(names); mask++ {
				for _, extra := range []string{"", "Nope", "dup"} {
					var l []string
					for i, x := range names {
						if mask>>i&1 == 1 {
							l = append([]string{x}, l...)
						}
					}
					if extra == "dup" {
						l = append(l, names[0])
					} else if extra != "" {
						l = append(l, extra)
					}
					good := extra == "" && mask == 1<<len(names)-1 || extra == "dup" && mask == 1<<len(names)-2
					if did, _ := vk.Panics(func() { f(l) }); did == good {
						t.Failf("CheckParametersForStruct_all[%s](%q) panics=%v", n, l, did)
					}
					t.Eval(1)
				}
			}
		}
		perms("S1", ewd.CheckParametersForStruct_all[S1], []string{"X", "Y"})
		perms("S3", ewd.CheckParametersForStruct_all[S3], []string{"X", "W", "Z"})
		perms("S4", ewd.CheckParametersForStruct_all[S4], []string{"X", "W"})
		for f, want := range map[string]bool{"X": true, "W": true, "Inner": false, "": false, "x": false} {
			if did, _ := vk.Panics(func() { ewd.CheckParameterForStruct[S4](f) }); did == want {
				t.Failf("CheckParameterForStruct[S4](%q) panics=%v", f, did)
			}
		}
		names := []string{"", " ", "T", "X ", " X", "X.Y", "int", "uint8", "bool", "string", "any", "error", "ewd", "inn", "q", "MyInt", "Inner", "Inner2", "Nest1", "Nest2", "D2", "S5", "0", "1", "_", "-", "*Inner"}
		for _, l := range subtypeFields {
			for _, x := range l {
				names = append(names, x, x+x, strings.ToLower(x), strings.ToUpper(x), x[:len(x)-1], x+"_")
			}
		}
		for i, f := range subtypeChecks {
			for _, n := range names {
				want := false
				for _, x := range subtypeFields[i] {
					want = want || x == n
				}
				if did, v := vk.Panics(func() { f(n) }); did == want {
					t.Failf("CheckParameterForStruct(%q) for a type with fields %q panics=%v (%v)", n, subtypeFields[i], did, v)
				}
				t.Eval(1)
			}
		}
		for i, row := range subtypes() {
			for j, f := range row.with {
				a, b := row.fields, subtypeFields[j]
				good := a != nil && b != nil
				for _, x := range a {
					found := false
					for _, y := range b {
						found = found || x == y
					}
					good = good && found
				}
				if did, _ := vk.Panics(f); did == good {
					t.Failf("CheckIsSubtype of types %d (%q) and %d (%q) panics=%v", i, a, j, b, did)
				}
				t.Eval(1)
			}
		}
	})
}

// subtypeFields are the parameter names of the types that subtypes goes through; nil: unsuitable
var subtypeFields = [][]string{{"X", "W"}, {"X", "W", "V"}, {"X", "Y"}, {"P", "I", "E"}, {"X", "W", "Z"}, {"X", "W"}, {}, {"F", "M", "S"}, {"MyInt"},
	{"Stringer"}, {"X", "W", "V"}, {"X", "W", "V"}, {"X"}, {"X"}, {"X"}, nil, nil, nil, nil, nil, nil, nil, nil, nil, {}, {"Foo", "Bool", "String", "Int8"}}

var subtypeChecks = []func(string){ewd.CheckParameterForStruct[Inner], ewd.CheckParameterForStruct[Inner2], ewd.CheckParameterForStruct[S1], ewd.CheckParameterForStruct[S2], ewd.CheckParameterForStruct[S3], ewd.CheckParameterForStruct[S4], ewd.CheckParameterForStruct[S5], ewd.CheckParameterForStruct[S6], ewd.CheckParameterForStruct[S7], ewd.CheckParameterForStruct[S8], ewd.CheckParameterForStruct[S9], ewd.CheckParameterForStruct[S10], ewd.CheckParameterForStruct[Nest1], ewd.CheckParameterForStruct[Nest2], ewd.CheckParameterForStruct[S12], ewd.CheckParameterForStruct[U1], ewd.CheckParameterForStruct[U2], ewd.CheckParameterForStruct[U3], ewd.CheckParameterForStruct[U4], ewd.CheckParameterForStruct[U5], ewd.CheckParameterForStruct[U6], ewd.CheckParameterForStruct[int], ewd.CheckParameterForStruct[*S1], ewd.CheckParameterForStruct[any], ewd.CheckParameterForStruct[struct{}], ewd.CheckParameterForStruct[S14]}

type subtypeRow struct {
	fields []string
	with   []func()
}

func subtypesOf[T any]() []func() {
	return []func(){ewd.CheckIsSubtype[T, Inner], ewd.CheckIsSubtype[T, Inner2], ewd.CheckIsSubtype[T, S1], ewd.CheckIsSubtype[T, S2], ewd.CheckIsSubtype[T, S3],
		ewd.CheckIsSubtype[T, S4], ewd.CheckIsSubtype[T, S5], ewd.CheckIsSubtype[T, S6], ewd.CheckIsSubtype[T, S7], ewd.CheckIsSubtype[T, S8], ewd.CheckIsSubtype[T, S9],
		ewd.CheckIsSubtype[T, S10], ewd.CheckIsSubtype[T, Nest1], ewd.CheckIsSubtype[T, Nest2], ewd.CheckIsSubtype[T, S12],
		ewd.CheckIsSubtype[T, U1], ewd.CheckIsSubtype[T, U2], ewd.CheckIsSubtype[T, U3], ewd.CheckIsSubtype[T, U4], ewd.CheckIsSubtype[T, U5], ewd.CheckIsSubtype[T, U6],
		ewd.CheckIsSubtype[T, int], ewd.CheckIsSubtype[T, *S1], ewd.CheckIsSubtype[T, any], ewd.CheckIsSubtype[T, struct{}], ewd.CheckIsSubtype[T, S14]}
}

func subtypes() (out []subtypeRow) {
	for i, w := range [][]func(){subtypesOf[Inner](), subtypesOf[Inner2](), subtypesOf[S1](), subtypesOf[S2](), subtypesOf[S3](), subtypesOf[S4](), subtypesOf[S5](), subtypesOf[S6](),
		subtypesOf[S7](), subtypesOf[S8](), subtypesOf[S9](), subtypesOf[S10](), subtypesOf[Nest1](), subtypesOf[Nest2](), subtypesOf[S12](), subtypesOf[U1](), subtypesOf[U2](),
		subtypesOf[U3](), subtypesOf[U4](), subtypesOf[U5](), subtypesOf[U6](), subtypesOf[int](), subtypesOf[*S1](), subtypesOf[any](), subtypesOf[struct{}](), subtypesOf[S14]()} {
		out = append(out, subtypeRow{subtypeFields[i], w})
	}
	return
}

type G[K any] struct {
	X K
	Y int
}
type D2 struct{ Inner2 }
type D3 struct {
	D2
	X bool // shadows Inner.X
}
type Deep struct {
	D3
	Q bool
	X string // shadows both
}

func sameName1(r *vk.Run) {
	type T struct {
		X int
		Y string
	}
	type I struct{ A int }
	type E struct{ I }
	run4(r, spec[T]{"same name #1", []string{"X", "Y"}, func(v T) []any { return []any{v.X, v.Y} }, []T{{}, {5, "s"}}, nil})
	run4(r, spec[E]{"same name embedding #1", []string{"A"}, func(v E) []any { return []any{v.A} }, []E{{}, {I{5}}}, nil})
}
func sameName2(r *vk.Run) {
	type T struct{ Y, X string }
	type I struct{ B, A string }
	type E struct{ I }
	run4(r, spec[T]{"same name #2", []string{"X", "Y"}, func(v T) []any { return []any{v.X, v.Y} }, []T{{}, {"t", "s"}}, nil})
	run4(r, spec[E]{"same name embedding #2", []string{"A", "B"}, func(v E) []any { return []any{v.A, v.B} }, []E{{}, {I{"s", "t"}}}, nil})
}
func sameName3(r *vk.Run) {
	type T struct{ x int }
	type E struct{ Z uint8 }
	r.Case("same name #3", func(t *vk.T) {
		if ewd.StructSuitableForErrorsWithData[T]() == nil || ewd.StructSuitableForErrorsWithData[E]() != nil {
			t.Failf("types named like others are judged as those")
		}
		for i, u := range use4[T]() {
			if did, _ := vk.Panics(u); !did {
				t.Failf("use #%d of an unsuitable type that is named like a suitable one does not panic", i)
			}
		}
	})
	run4(r, spec[E]{"same name #3", []string{"Z"}, func(v E) []any { return []any{v.Z} }, []E{{}, {9}}, nil})
}

// a struct with many fields: every field keeps its own value
type Wide struct {
	F00, F01, F02, F03, F04, F05, F06, F07, F08, F09, F10, F11, F12, F13, F14, F15, F16 int
	Inner2
	G00, G01, G02, G03, G04, G05, G06, G07, G08, G09, G10, G11, G12, G13, G14, G15, G16 string
	H00, H01, H02, H03, H04, H05, H06, H07, H08, H09, H10, H11, H12, H13, H14, H15, H16 any
	I00, I01, I02, I03, I04, I05, I06, I07, I08, I09, I10, I11, I12, I13, I14, I15, I16 *int
}

func wideCase(r *vk.Run) {
	var w Wide
	rt := reflect.TypeOf(w)
	var names []string
	val := map[string]any{}
	n := 0
	for _, f := range reflect.VisibleFields(rt) {
		if f.Anonymous {
			continue
		}
		n++
		names = append(names, f.Name)
		fv := reflect.ValueOf(&w).Elem().FieldByIndex(f.Index)
		switch f.Type.Kind() {
		case reflect.Int:
			fv.SetInt(int64(n))
		case reflect.Uint8:
			fv.SetUint(uint64(n))
		case reflect.String:
			fv.SetString(fmt.Sprint("s", n))
		case reflect.Interface:
			fv.Set(reflect.ValueOf(n))
		case reflect.Pointer:
			x := n
			fv.Set(reflect.ValueOf(&x))
		}
		val[f.Name] = fv.Interface()
	}
	same := func(a, b Wide) bool { return a == b }
	r.Each(len(names)+1, func(i int) string { return fmt.Sprintf("wide struct/%d", i) }, func(t *vk.T, i int) {
		m := cp(val)
		want := w
		if i < len(names) { // one field missing
			delete(m, names[i])
			f := reflect.ValueOf(&want).Elem().FieldByName(names[i])
			f.Set(reflect.Zero(f.Type()))
		}
		base := ewd.NewErrorWithData_any_map(nil, "b", ewd.ReplacePreviousData, m)
		if got := ewd.GetData_struct[Wide](base, ewd.MissingDataAsZero); !same(got, want) {
			t.Failf("GetData_struct without field %d: %v, expected %v", i, got, want)
		}
		if got := ewd.HasData[Wide](base); got != (i == len(names)) {
			t.Failf("HasData without field %d is %v", i, got)
		}
		did, _ := vk.Panics(func() { ewd.GetData_struct[Wide](base, ewd.EnsureDataIsPresent) })
		if did != (i < len(names)) {
			t.Failf("GetData_struct without field %d panics=%v", i, did)
		}
		e := ewd.NewErrorWithData_struct(base, "n", &want)
		if got := e.GetData_struct(); !same(got, want) {
			t.Failf("struct #%d was stored, but %v is returned instead of %v", i, got, want)
		}
		em := e.GetData_map()
		for _, f := range reflect.VisibleFields(rt) {
			if f.Anonymous {
				continue
			}
			if x := reflect.ValueOf(want).FieldByIndex(f.Index).Interface(); !reflect.DeepEqual(em[f.Name], x) {
				t.Failf("struct #%d: parameter %s is %v, expected %v", i, f.Name, em[f.Name], x)
			}
		}
		if len(em) != len(names) {
			t.Failf("struct #%d: %d parameters, expected %d", i, len(em), len(names))
		}
		t.Eval(1)
		t.State("wide", fmt.Sprint(i))
	})
}
func use4[T any]() []func() {
	var z T
	return []func(){
		func() { ewd.NewErrorWithData_struct(nil, "x", &z) },
		func() { ewd.NewErrorWithData_map[T](nil, "x", ewd.ReplacePreviousData, ewd.MissingDataAsZero, nil) },
		func() { ewd.HasData[T](errX) },
		func() { ewd.GetData_struct[T](errX, ewd.MissingDataAsZero) },
		func() { ewd.AsErrorWithData[T](errX, ewd.MissingDataAsZero) },
	}
}
