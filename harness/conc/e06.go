//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	"github.com/GottfriedHerold/Bandersnatch/internal/errorconsts"
)

type dA struct {
	Foo int
	Bar error
}
type dB struct {
	dAx
	Baz []int
}
type dAx = DEmb
type DEmb struct{ Foo int }
type dBad struct{ foo int }
type dBadPtr struct{ *DEmb }
type dEmpty struct{}

// fix6 is what the goroutines share
type fix6 struct {
	plain  error
	base   ewd.ErrorWithData_any // refers to passed parameters
	wrap   ewd.ErrorWithData_any // wraps base with $w and has data
	typed  ewd.ErrorWithData[dA]
	box    error // incomparable version of typed
	broken ewd.ErrorWithData_any
	over   error // fmt.Errorf around box
	params map[string]any
}

func newFix6(typed, broken bool) *fix6 {
	f := &fix6{}
	f.plain = errors.New("plain")
	f.base = ewd.NewErrorWithData_any_params(f.plain, `base ${Foo} %v{Foo} $!m>0{got %+d{Foo}: %w} $!m=0{nothing \} %w}`, ewd.ReplacePreviousData, "Foo", 1)
	f.wrap = ewd.NewErrorWithData_any_params(f.base, `wrap %x{Foo} ${Bar} %{!m}: $w`, ewd.ReplacePreviousData, "Foo", 255, "Bar", f.plain)
	f.params = map[string]any{"Foo": "shared", "Bar": 3}
	if broken {
		f.broken = ewd.NewErrorWithData_any_params(f.base, `broken %{Nope} $!m>0{%{`, ewd.ReplacePreviousData)
	}
	if !typed {
		return f
	}
	f.typed = ewd.NewErrorWithData_params[dA](f.wrap, `typed %{Foo} %!m>0{%{Bar}}: $w`, ewd.PreferPreviousData, ewd.EnsureDataIsPresent, "Foo", 7)
	f.box = ewd.MakeErrorIncomparable_struct[dA](f.typed.(interface {
		ewd.ErrorWithData[dA]
		ewd.IncomparableMaker
	}))
	f.over = fmt.Errorf("over: %w", f.box)
	return f
}

func showMap(m map[string]any) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%v;", k, m[k])
	}
	return b.String()
}

func showErr(e error) string {
	if e == nil {
		return "nil"
	}
	return e.Error()
}

func try6(f func() string) (s string) {
	defer func() {
		if v := recover(); v != nil {
			s = fmt.Sprintf("panic: %v", v)
		}
	}()
	return f()
}

type op6 struct {
	name  string
	cache bool   // uses the cache of struct types
	needs string // t: typed errors, b: the malformed error
	f     func(x *fix6) string
}

func ops6() []op6 {
	return []op6{
		{"Error of the wrapping error", false, "", func(x *fix6) string { return x.wrap.Error() }},
		{"Error of the sentinel", false, "", func(x *fix6) string { return x.base.Error() }},
		{"Error through fmt and the incomparable wrapper", false, "t", func(x *fix6) string { return x.over.Error() }},
		{"Error of a malformed error", false, "b", func(x *fix6) string { return x.broken.Error() }},
		{"Error_interpolate", false, "", func(x *fix6) string {
			return x.base.(ewd.ErrorInterpolater).Error_interpolate(x.params) + "|" + x.base.(ewd.ErrorInterpolater).Error_interpolate(nil)
		}},
		{"validate", false, "b", func(x *fix6) string {
			s := ""
			for _, e := range []ewd.ErrorWithData_any{x.base, x.wrap, x.broken} {
				i := e.(validator6)
				s += showErr(i.ValidateSyntax()) + "|" + showErr(i.ValidateError_Base()) + "|" + showErr(i.ValidateError_Final()) + "|" + showErr(i.ValidateError_Params(x.params)) + "\n"
			}
			return s
		}},
		{"GetData_map", false, "t", func(x *fix6) string {
			m := x.wrap.GetData_map()
			s := showMap(m)
			m["Foo"], m["new"] = 17, 18 // the caller's own copy
			delete(m, "Bar")
			m = ewd.GetData_map(x.over)
			s += showMap(m)
			clear(m)
			return s
		}},
		{"GetParameter", false, "t", func(x *fix6) string {
			v, ok := ewd.GetParameter(x.over, "Foo")
			w, ok2 := ewd.GetParameter(x.over, "nope")
			return fmt.Sprint(v, ok, w, ok2, x.wrap.HasParameter("Bar"), ewd.HasParameter(x.box, "Baz"))
		}},
		{"wrap with new data", false, "", func(x *fix6) string {
			e := ewd.NewErrorWithData_any_params(x.wrap, "new %{Foo} %{Bar}: $w", ewd.ReplacePreviousData, "Foo", -1, "Baz", []int{1})
			d := ewd.DeleteParameterFromError_any(e, "Foo")
			return e.Error() + showMap(e.GetData_map()) + showMap(d.GetData_map())
		}},
		{"add data", false, "", func(x *fix6) string {
			e := ewd.AddDataToError_any_map(x.base, ewd.PreferPreviousData, x.params)
			return e.Error() + showMap(e.GetData_map())
		}},
		{"chain", false, "t", func(x *fix6) string {
			u := ewd.UnboxError(x.box)
			return fmt.Sprint(errors.Is(x.over, x.plain), errors.Is(x.over, x.typed), errors.Is(x.box, x.base), errors.Is(x.wrap, x.typed), u == error(x.typed), x.box == error(x.typed))
		}},
		{"box", false, "", func(x *fix6) string {
			b := ewd.MakeErrorIncomparable_any(x.wrap.(interface {
				ewd.ErrorWithData_any
				ewd.IncomparableMaker
			}))
			return b.Error() + fmt.Sprint(errors.Is(b, x.wrap), showMap(b.GetData_map()))
		}},
		{"GetData_struct", true, "t", func(x *fix6) string {
			d := x.typed.GetData_struct()
			return fmt.Sprint(d.Foo, d.Bar)
		}},
		{"GetData_struct with another type", true, "t", func(x *fix6) string {
			d := ewd.GetData_struct[dB](x.over, ewd.MissingDataAsZero)
			return fmt.Sprint(d.Foo, d.Baz) + try6(func() string { return fmt.Sprint(ewd.GetData_struct[dB](x.over, ewd.EnsureDataIsPresent)) })
		}},
		{"typed constructor", true, "", func(x *fix6) string {
			e := ewd.NewErrorWithData_struct(x.plain, "s %{Foo}", &dA{Foo: 3, Bar: x.plain})
			d := e.GetData_struct()
			return e.Error() + fmt.Sprint(d.Foo, d.Bar)
		}},
		{"typed constructor with another type", true, "", func(x *fix6) string {
			return try6(func() string {
				e := ewd.NewErrorWithData_struct(x.base, "s %{Foo}", &dB{Baz: []int{2}}, ewd.PreferPreviousData)
				return e.Error() + fmt.Sprint(e.GetData_struct())
			})
		}},
		{"unsuitable types", true, "", func(x *fix6) string {
			return showErr(ewd.StructSuitableForErrorsWithData[dBad]()) + showErr(ewd.StructSuitableForErrorsWithData[dBadPtr]()) + showErr(ewd.StructSuitableForErrorsWithData[dA]()) +
				try6(func() string { ewd.NewErrorWithData_struct(x.plain, "x", &dBad{}); return "accepted" })
		}},
		{"HasData and conversion", true, "t", func(x *fix6) string {
			c, ok := ewd.AsErrorWithData[dA](x.over, ewd.EnsureDataIsPresent)
			s := ""
			if ok {
				s = fmt.Sprint(c.GetData_struct().Foo)
			}
			_, ok2 := ewd.AsErrorWithData[dEmpty](x.base, ewd.EnsureDataIsPresent)
			return fmt.Sprint(ewd.HasData[dA](x.over), ewd.HasData[dB](x.over), ewd.HasData[dEmpty](x.wrap), ok, s, ok2)
		}},
		{"serialization errors", true, "", func(x *fix6) string {
			e := ewd.NewErrorWithData_struct(x.plain, "w %{BytesWritten}: %w", errorconsts.NewIntermediateWriteErrorData(1, 2))
			return showErr(e) + fmt.Sprint(errors.Is(e, x.plain), be.ErrNotOnCurve)
		}},
	}
}

func e06(thorough bool) (out []scen) {
	ops := ops6()
	// what sequential execution gives
	want := make([]string, len(ops))
	for i := range ops {
		ewd.ZzReset()
		want[i] = ops[i].f(newFix6(true, true))
	}
	add := func(name string, b0, b1 int, s0, s1 bool, parts int, reset bool, idx ...int) {
		n, needs := 0, ""
		for _, i := range idx {
			needs += ops[i].needs
		}
		out = append(out, scen{name: name, bound: [2]int{b0, b1}, stmts: [2]bool{s0, s1}, parts: [2]int{1, parts}, setup: func() ([]func(), func() string) {
			n++
			x := newFix6(strings.Contains(needs, "t"), strings.Contains(needs, "b"))
			if reset {
				ewd.ZzReset()
			}
			got := make([]string, len(idx))
			var fs []func()
			for k, i := range idx {
				k, i := k, i
				fs = append(fs, func() { got[k] = ops[i].f(x) })
			}
			return fs, func() string {
				for k, i := range idx {
					if got[k] != want[i] {
						return fmt.Sprintf("%s gives\n%s\ninstead of\n%s", ops[i].name, got[k], want[i])
					}
				}
				if n%16 != 1 {
					return ""
				}
				for k, i := range idx {
					if g := ops[i].f(x); g != want[i] {
						return fmt.Sprintf("%s gives afterwards (%d)\n%s\ninstead of\n%s", ops[i].name, k, g, want[i])
					}
				}
				return ""
			}
		}})
	}
	for i, a := range ops {
		for j, b := range ops[:i+1] {
			add(a.name+" || "+b.name, 1, 2, i == j || (i+j)%2 == 1, true, 4, a.cache || b.cache, i, j)
			if a.cache && b.cache {
				add(a.name+" || "+b.name+" (switching at locks)", 2, 4, false, false, 1, true, i, j)
				for k, c := range ops[:j+1] {
					if c.cache {
						add(a.name+" || "+b.name+" || "+c.name+" (switching at locks)", 1, 2, false, false, 1, true, i, j, k)
					}
				}
			}
		}
	}
	return
}

type validator6 interface {
	ValidateSyntax() error
	ValidateError_Base() error
	ValidateError_Final() error
	ValidateError_Params(ewd.ParamMap) error
}
