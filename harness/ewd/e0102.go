//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

var rawTokens = []string{"a", "A", "%", "$", "%!", "$!", "{", "}", "%w", "$w", `\`, "m=0", "m>0", "!m", "v", "é "}
var pieces = []string{"t ", "%{A}", "%{B}", "$x{A}", "$v{B}", "%!m>0{", "%!m=0{", "$!m>0{", "$!m=0{", "}", "%w", "$w", `\%`, `\{`, "%{!m}", "$+v{!params}",
	"%!bad{", "%{low}", `%v\%{A}`, "%{C}", "%{A_1}"}
var narrow = []string{"t", "%{A}", "$v{B}", "%!m>0{", "$!m=0{", "}", "%w", "$w", "%!bad{", "%{", "$!m>0{"}

func bases() (r []*desc) {
	plain := &desc{kind: 'p', name: "plain", msg: "P%{A}", real: errors.New("P%{A}")}
	ib := mk(nil, `i%{B}$!m>0{,$v{A}}$!m=0{none}%{!m}`, ewd.ParamMap{"B": 2, "A": 7})
	empty := mk(nil, `e$!m>0{$v{A}}$!m=0{none}`, nil)
	deep := mk(ib, `d[%w|$w]`, ewd.ParamMap{"A": "dA"})
	broken := mk(nil, `broken%{`, ewd.ParamMap{"A": 3})
	miss := mk(nil, `miss$v{B}`, nil)
	f := &desc{kind: 'f', name: "fmt", msg: "f:", base: ib, real: fmt.Errorf("f:%w", ib.real)}
	box := *ib
	box.name = "box"
	box.real = ewd.MakeErrorIncomparable_any(ib.real.(ewd.ErrorWithData_any))
	overf := mk(f, `o%w`, ewd.ParamMap{"C": 1})
	dollar := mk(miss, `s$w,$v{D}`, ewd.ParamMap{"A": 4})
	dollar2 := mk(dollar, `%!m>0{t$w}`, nil)
	for i, d := range []*desc{ib, empty, deep, broken, miss, overf, dollar, dollar2} {
		d.name = []string{"interp", "empty", "deep", "broken", "missing", "overfmt", "passes on", "passes on twice"}[i]
	}
	return []*desc{nil, plain, ib, empty, deep, broken, miss, f, &box, overf, dollar, dollar2}
}

var paramSets = []ewd.ParamMap{{}, {"A": 1}, {"A": 10, "B": "x"}, {"B": nil}}
var passedSets = []ewd.ParamMap{nil, {}, {"A": 255}, {"B": "pb", "A": 16}, {"B": 5, "D": 6}}

func bname(d *desc) string {
	if d == nil {
		return "nil"
	}
	return d.name
}

// langRun enumerates format strings x parameter maps x base errors.
func langRun(r *vk.Run, check func(t *vk.T, d *desc, s string)) {
	B := bases()
	one := func(t *vk.T, s string, full, minimal bool) {
		tr, err := parse(s)
		uses := err == nil && usesBase(tr)
		for bi, b := range B {
			if !full && bi > 2 || !uses && bi > 2 && err == nil || err != nil && bi > 2 && bi != 5 {
				continue
			}
			if b == nil && s == "" {
				continue
			}
			if minimal && (bi == 1 || bi == 2 && !uses && err == nil) {
				continue
			}
			for pi, p := range paramSets {
				if minimal && pi != 1 {
					continue
				}
				if !full && pi > 1 {
					break
				}
				var d *desc
				if did, v := vk.Panics(func() { d = mk(b, s, p) }); did {
					t.Failf("creating an error with format string %q (base %s, parameters %v) panics: %v", s, bname(b), p, v)
					continue
				}
				t.Eval(1)
				check(t, d, s)
			}
		}
		h := "malformed"
		if err == nil && syntaxOK(tr) {
			h = "ok"
			if uses {
				h = "uses base"
			}
			t.State(s)
		} else if err == nil {
			h = "outside language"
		}
		t.Sample(map[string]any{"format": s, "class": h})
	}
	// sweep enumerates all concatenations of n pieces, one case per pair of leading pieces
	sweep := func(label string, al []string, n int, full bool) {
		var rec func(t *vk.T, s string, k int)
		rec = func(t *vk.T, s string, k int) {
			if k == 0 {
				one(t, s, full, label == "raw" && n >= 5 && !r.Thorough)
				return
			}
			for _, p := range al {
				rec(t, s+p, k-1)
			}
		}
		lead := 2
		if n < 2 {
			lead = n
		}
		tot := 1
		for i := 0; i < lead; i++ {
			tot *= len(al)
		}
		r.Each(tot, func(i int) string { return fmt.Sprintf("%s/%d/%d", label, n, i) }, func(t *vk.T, i int) {
			s := ""
			for k := 0; k < lead; k++ {
				s += al[i%len(al)]
				i /= len(al)
			}
			rec(t, s, n-lead)
		})
	}
	r.Each(len(B), func(i int) string { return "base/" + bname(B[i]) }, func(t *vk.T, i int) {
		if B[i] != nil && B[i].kind == 'e' {
			check(t, B[i], "base "+B[i].name)
		}
	})
	r.Case("utf8", func(t *vk.T) {
		// invalid UTF-8 is shown as the replacement character
		repaired := map[string]string{"\xff": "\uFFFD", "\xc3": "\uFFFD", "a\xffb%{A}": "a\uFFFDb1", "a\xc3": "a\uFFFD", "\xe2\x82x": "\uFFFDx", "%{A}\xff\xffz": "1\uFFFDz", "\xff%%": "\uFFFD%"}
		for _, s := range []string{"a\xc3", "\xe2\x82x", "%{A}\xff\xffz", "\xff%%", "\xff", "a\xffb%{A}", "%\xff{A}", "%{\xff}", "%!\xff{a}", "\xc3", "%{é}", "%{É}", "%{Éa_1}", "\x00%{A}\n%w"} {
			for _, b := range B {
				if did, v := vk.Panics(func() {
					e := ewd.NewErrorWithData_any_map(realOf(b), s, ewd.ReplacePreviousData, ewd.ParamMap{"A": 1, "É": 2})
					m := e.Error()
					if want, ok := repaired[s]; ok && b == nil && m != want {
						t.Failf("format string %q: message %q, expected %q", s, m, want)
					}
					if strings.ContainsAny(s, "{") && !strings.ContainsAny(s, "\xff") && b == nil && m == "" {
						t.Failf("empty message for %q", s)
					}
					e.ValidateSyntax()
					e.ValidateError_Final()
					e.ValidateError_Base()
				}); did {
					t.Failf("format string %q with base %s panics: %v", s, bname(b), v)
				}
			}
		}
		d := mk(nil, "%{É}|$x{Éa_1}\n\x00é", ewd.ParamMap{"É": 2, "Éa_1": 255})
		check(t, d, "unicode")
	})
	for n := 0; n <= 3; n++ {
		sweep("raw", rawTokens, n, true)
		sweep("piece", pieces, n, true)
	}
	sweep("raw", rawTokens, 4, true)
	if r.Thorough {
		sweep("piece", pieces, 4, true)
		sweep("raw", rawTokens, 5, true)
		sweep("piece", pieces, 5, false)
		sweep("narrow", narrow, 6, true)
		sweep("raw", rawTokens, 6, false)
	} else {
		sweep("piece", pieces, 4, false)
		sweep("narrow", narrow, 5, false)
		sweep("raw", rawTokens, 5, false)
	}
	// scale: regular format strings of many sizes
	gens := []struct {
		name string
		f    func(n int) (string, ewd.ParamMap)
	}{
		{"literal", func(n int) (string, ewd.ParamMap) { return rep("l", n), nil }},
		{"literal é", func(n int) (string, ewd.ParamMap) { return rep("é", n) + "%{A}", nil }},
		{"literal then variable", func(n int) (string, ewd.ParamMap) { return rep("l", n) + "%{A}" + rep("m", n), nil }},
		{"variables", func(n int) (string, ewd.ParamMap) { return rep("%{A}", n), nil }},
		{"passed variables", func(n int) (string, ewd.ParamMap) { return rep("$x{A},", n), nil }},
		{"one missing at the end", func(n int) (string, ewd.ParamMap) { return rep("%{A}", n) + "$v{D}", nil }},
		{"nested conditions", func(n int) (string, ewd.ParamMap) { return rep("%!m>0{x", n) + rep("}", n), nil }},
		{"nested passed conditions", func(n int) (string, ewd.ParamMap) { return rep("$!m=0{x", n) + "%{A}" + rep("}y", n), nil }},
		{"nested mixed", func(n int) (string, ewd.ParamMap) { return rep("$!m>0{%!m>0{", n) + "$d{A}" + rep("}}", n), nil }},
		{"unterminated", func(n int) (string, ewd.ParamMap) { return rep("%!m>0{x", n) + rep("}", n-1), nil }},
		{"one brace too many", func(n int) (string, ewd.ParamMap) { return rep("%!m>0{x", n) + rep("}", n+1), nil }},
		{"sequence of conditions", func(n int) (string, ewd.ParamMap) { return rep("%!m>0{x}$!m=0{%{A}}", n), nil }},
		{"backslashes", func(n int) (string, ewd.ParamMap) { return rep("\\", n), nil }},
		{"backslashes, variable", func(n int) (string, ewd.ParamMap) { return rep("\\", n) + "%{A}", nil }},
		{"escaped", func(n int) (string, ewd.ParamMap) { return rep("\\%\\{", n) + "%{A}", nil }},
		{"opening braces", func(n int) (string, ewd.ParamMap) { return rep("{", n), nil }},
		{"closing braces", func(n int) (string, ewd.ParamMap) { return rep("}", n), nil }},
		{"percents", func(n int) (string, ewd.ParamMap) { return rep("%", n), nil }},
		{"long variable name", func(n int) (string, ewd.ParamMap) {
			v := "A" + rep("b", n)
			return "%{" + v + "}$x{" + v + "}", ewd.ParamMap{v: n}
		}},
		{"long missing name", func(n int) (string, ewd.ParamMap) { return "%{A" + rep("b", n) + "}", ewd.ParamMap{"A": 1} }},
		{"long format", func(n int) (string, ewd.ParamMap) { return "%" + rep("+", n) + "v{A}", nil }},
		{"long condition", func(n int) (string, ewd.ParamMap) { return "%!m" + rep(">", n) + "{x}", nil }},
		{"many bases", func(n int) (string, ewd.ParamMap) { return rep("%w,", n), nil }},
		{"base at the end", func(n int) (string, ewd.ParamMap) { return rep("l", n) + "$w", nil }},
		{"base in nest", func(n int) (string, ewd.ParamMap) { return rep("%!m>0{", n) + "%w" + rep("}", n), nil }},
		{"parameter counts", func(n int) (string, ewd.ParamMap) { return rep("%{!m}", n), nil }},
		{"many parameters", func(n int) (string, ewd.ParamMap) {
			p, s := ewd.ParamMap{}, ""
			for i := 0; i < n && i < 300; i++ {
				v := fmt.Sprintf("V%d", i)
				p[v] = i * i
				s += "%{" + v + "}$x{" + v + "}"
			}
			return s, p
		}},
	}
	var sizes []int
	for n := 1; n <= 24; n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 513, 1000, 1025, 4097)
	if r.Thorough {
		for n := 25; n <= 70; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 99, 100, 101, 200, 300, 500, 511, 512, 513, 1023, 1024, 1025, 4096, 10000)
	}
	sizes = vkUniq(sizes)
	r.Each(len(gens)*len(sizes), func(i int) string {
		return fmt.Sprintf("scale/%s/%d", gens[i/len(sizes)].name, sizes[i%len(sizes)])
	}, func(t *vk.T, i int) {
		n := sizes[i%len(sizes)]
		s, own := gens[i/len(sizes)].f(n)
		ps := []ewd.ParamMap{own}
		if own == nil {
			ps = []ewd.ParamMap{{"A": 10}, {}}
		}
		for bi, b := range B {
			if bi != 0 && bi != 2 && bi != 7 || bi > 0 && n > 70 && !r.Thorough {
				continue
			}
			for _, p := range ps {
				var d *desc
				if did, v := vk.Panics(func() { d = mk(b, s, p) }); did {
					t.Failf("creating an error with format string %.60q (length %d, base %s) panics: %v", s, len(s), bname(b), v)
					continue
				}
				t.Eval(1)
				check(t, d, s)
				t.Alive()
			}
		}
		t.State("scale", s)
	})
	// parameters whose text comes from user code: it may itself render errors, or panic
	user := []any{
		ewd.NewErrorWithData_map[struct{}](io.EOF, "nested %v{A} %!m>0{x%{B}} %w", ewd.ReplacePreviousData, ewd.EnsureDataIsPresent, ewd.ParamMap{"A": 3, "B": "q"}),
		renders{ewd.NewErrorWithData_map[struct{}](nil, "rendered %v{A} $v{A}", ewd.ReplacePreviousData, ewd.EnsureDataIsPresent, ewd.ParamMap{"A": renders{errors.New("deep")}})},
		&renders{ewd.NewErrorWithData_map[struct{}](nil, "%!bad{", ewd.ReplacePreviousData, ewd.EnsureDataIsPresent, ewd.ParamMap{"A": 1})},
		renders{nil}, // panics
	}
	r.Each(len(user)*len(user), func(i int) string { return fmt.Sprintf("parameters with methods/%d", i) }, func(t *vk.T, i int) {
		for _, p1 := range pieces {
			for _, p2 := range append([]string{""}, pieces...) {
				s := p1 + p2
				tr, err := parse(s)
				if err != nil || !syntaxOK(tr) {
					continue
				}
				for bi, b := range B {
					if bi > 2 {
						break
					}
					check(t, mk(b, s, ewd.ParamMap{"A": user[i%len(user)], "B": user[i/len(user)]}), s)
					t.Eval(1)
				}
				t.State("user code", s)
			}
		}
	})
	// long chains of errors, each showing the one it wraps
	r.Each(len(sizes), func(i int) string { return fmt.Sprintf("chain/%d", sizes[i]) }, func(t *vk.T, i int) {
		if sizes[i] > 300 {
			return
		}
		for _, f := range []string{"x%w", "%!m>0{$w}", "%{A}$w"} {
			d := B[2]
			for k := 0; k < sizes[i]; k++ {
				var p ewd.ParamMap
				if k%5 == 3 {
					p = ewd.ParamMap{"A": k}
				}
				d = mk(d, f, p)
				d.name = fmt.Sprintf("chain of %d", k+1)
			}
			check(t, d, fmt.Sprintf("%s wrapped %d times", f, sizes[i]))
			t.Alive()
		}
	})
	r.Extra("bounds", fmt.Sprintf("raw tokens %q up to 4 (quick: 5 with 3 bases and 2 parameter maps; thorough: 5 full, 6 reduced), pieces %q up to 3 full and 4 reduced (thorough 4 full, 5 reduced), narrow pieces up to 5 (thorough 6); %d base errors, %d parameter maps, %d passed maps", rawTokens, pieces, len(B), len(paramSets), len(passedSets)))
}

// renders is a value whose text is that of an error
type renders struct{ err error }

func (r renders) String() string { return "<" + r.err.Error() + ">" }

func rep(s string, n int) string {
	if n < 0 {
		n = 0
	}
	return strings.Repeat(s, n)
}

func vkUniq(l []int) (out []int) {
	seen := map[int]bool{}
	for _, x := range l {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return
}

func realOf(d *desc) error {
	if d == nil {
		return nil
	}
	return d.real
}
func usesBase(l []*node) bool {
	for _, n := range l {
		if n.k == 'w' || n.k == 'W' || usesBase(n.sub) {
			return true
		}
	}
	return false
}

func e01(r *vk.Run) {
	langRun(r, func(t *vk.T, d *desc, s string) {
		for _, passed := range passedSets {
			var m string
			if did, v := vk.Panics(func() {
				if passed == nil {
					m = d.real.Error()
				} else {
					m = d.real.(ewd.ErrorWithData_any).Error_interpolate(passed)
				}
			}); did {
				t.Failf("rendering the error created from %q (base %s, parameters %v) with passed parameters %v panics: %v", s, bname(d.base), d.params, passed, v)
				continue
			}
			t.Eval(1)
			if d.bad {
				eff := passed
				if eff == nil {
					eff = d.params
				}
				if !strings.Contains(m, "<") && (d.perr || shown(d.tree, d.params, eff)) {
					t.Failf("format string %q is malformed, but the message %q carries no complaint", s, m)
				}
				for k, v := range d.params {
					if !strings.Contains(m, k+":"+fmt.Sprint(v)) {
						t.Failf("format string %q is malformed; the message %q lacks parameter %s=%v", s, m, k, v)
					}
				}
				for k, v := range passed {
					if !strings.Contains(m, k+":"+fmt.Sprint(v)) {
						t.Failf("format string %q is malformed; the message %q lacks the passed parameter %s=%v", s, m, k, v)
					}
				}
				if passed != nil && len(passed) == 0 && !strings.Contains(m, "map[]") {
					t.Failf("format string %q is malformed; the message %q does not show that empty parameters were passed", s, m)
				}
				if d.base != nil && !strings.Contains(m, d.base.real.Error()) {
					t.Failf("format string %q is malformed; the message %q lacks the message %q of the wrapped error", s, m, d.base.real.Error())
				}
				if d.real.(ewd.ErrorWithData_any).ValidateSyntax() == nil {
					t.Failf("format string %q is malformed, but ValidateSyntax reports nothing", s)
				}
				continue
			}
			var want []seg
			d.render(passed, &want)
			if !match(m, want) {
				t.Failf("format string %q, base %s, parameters %v, passed %v: message is %q, expected %q", s, bname(d.base), d.params, passed, m, segString(want))
			}
		}
		if m1, m2 := d.real.Error(), d.real.Error(); m1 != m2 {
			t.Failf("format string %q renders to %q and then to %q", s, m1, m2)
		}
	})
}

// e02names: which names are variable names; the answer agrees with what validation and rendering do with them
func e02names(r *vk.Run) {
	al := []string{"a", "A", "Z", "z", "0", "9", "_", "é", "É", "Ω", "ß", "١", "-", ".", "!", "m", " ", "{", "}", "\xff", "\x00", "世", "ǅ", "ª", "Ⅷ", "$", "params", "map"}
	upper := map[string]bool{"A": true, "Z": true, "É": true, "Ω": true}
	letter := map[string]bool{"a": true, "A": true, "Z": true, "z": true, "é": true, "É": true, "Ω": true, "ß": true, "m": true, "世": true, "ǅ": true, "ª": true, "params": true, "map": true}
	digit := map[string]bool{"0": true, "9": true, "_": true, "١": true}
	n := 3
	if r.Thorough {
		n = 4
	}
	r.Each(len(al), func(i int) string { return fmt.Sprintf("name/%q", al[i]) }, func(t *vk.T, i int) {
		if i == 0 {
			for _, s := range []string{"", "!m", "!map", "!params", "!parameters", "m", "map"} {
				if ewd.ValidInterpolationName(s) {
					t.Failf("%q counts as a valid name", s)
				}
			}
		}
		var rec func(s string, ok bool, k int)
		rec = func(s string, ok bool, k int) {
			t.Eval(1)
			if got := ewd.ValidInterpolationName(s); got != ok {
				t.Failf("ValidInterpolationName(%q) is %v", s, got)
				return
			}
			t.State(s)
			if ok {
				e := ewd.NewErrorWithData_any_map(nil, "<%{"+s+"}>", ewd.ReplacePreviousData, map[string]any{s: 7})
				if e.Error() != "<7>" || e.ValidateSyntax() != nil || e.ValidateError_Final() != nil || !e.HasParameter(s) {
					t.Failf("parameter %q is a valid name, but the message with it is %q (%v, %v)", s, e.Error(), e.ValidateSyntax(), e.ValidateError_Final())
				}
			}
			if k == 0 || t.Failed() {
				return
			}
			for _, c := range al {
				rec(s+c, ok && (letter[c] || digit[c]), k-1)
			}
		}
		rec(al[i], upper[al[i]], n-1)
	})
}

func e02(r *vk.Run) {
	e02names(r)
	langRun(r, func(t *vk.T, d *desc, s string) {
		e := d.real.(ewd.ErrorWithData_any)
		call := func(what string, f func() error) (acc bool) {
			var err error
			if did, v := vk.Panics(func() { err = f() }); did {
				t.Failf("%s panics for format string %q (base %s, parameters %v): %v", what, s, bname(d.base), d.params, v)
				return true
			}
			if err != nil && err.Error() == "" {
				t.Failf("%s returns an error without message for %q", what, s)
			}
			t.Eval(1)
			return err == nil
		}
		if t.Failed() {
			return
		}
		syn := call("ValidateSyntax", e.ValidateSyntax)
		if syn != !d.bad {
			t.Failf("ValidateSyntax accepts=%v for format string %q, expected %v", syn, s, !d.bad)
		}
		for _, passed := range passedSets {
			got := call(fmt.Sprintf("ValidateError_Params(%v)", passed), func() error { return e.ValidateError_Params(passed) })
			if want := d.validParams(passed); got != want {
				t.Failf("ValidateError_Params(%#v) accepts=%v for format string %q (base %s, parameters %v), expected %v", passed, got, s, bname(d.base), d.params, want)
			}
		}
		fin := call("ValidateError_Final", e.ValidateError_Final)
		if want := d.validParams(nil); fin != want {
			t.Failf("ValidateError_Final accepts=%v for format string %q (base %s, parameters %v), expected %v", fin, s, bname(d.base), d.params, want)
		}
		ba := call("ValidateError_Base", e.ValidateError_Base)
		if w1, w2 := d.validBase(true), d.validBase(false); w1 == w2 && ba != w1 {
			t.Failf("ValidateError_Base accepts=%v for format string %q (base %s, parameters %v), expected %v", ba, s, bname(d.base), d.params, w1)
		}
		for i, f := range []func(...ewd.ErrorWithData_any){ewd.EnsureErrorsValid_Syntax, ewd.EnsureErrorsValid_Final, ewd.EnsureErrorsValid_Base} {
			did, _ := vk.Panics(func() { f(e) })
			if did == []bool{syn, fin, ba}[i] {
				t.Failf("EnsureErrorsValid_* #%d panics=%v for format string %q, but the validator accepts=%v", i, did, s, !did)
			}
		}
		// the verdict against the rendering itself: an accepted error shows no complaint, a complaint is rejected
		if did, _ := vk.Panics(func() {
			m := e.Error()
			var want []seg
			d.render(nil, &want)
			complaint := false
			for _, sg := range want {
				complaint = complaint || sg.wild
			}
			if fin && complaint && d.base == nil || !complaint && !fin {
				t.Failf("ValidateError_Final accepts=%v for format string %q (base %s, parameters %v), whose message is %q", fin, s, bname(d.base), d.params, m)
			}
		}); did {
			t.Failf("Error() panics for %q", s)
		}
	})
}
