//go:build go1.22

package main

// An independent reference implementation of the interpolation language of package errorsWithData: scanner,
// recursive-descent parser, renderer and validators, written from the documentation.

import (
	"errors"
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
)

type tok struct {
	k rune   // 't' text, '%' '$' '{' '}', 'P' %!, 'D' $!, 'w' %w, 'W' $w
	s string // text
}

func scan(s string) (r []tok) {
	text := func(x string) {
		if n := len(r); n > 0 && r[n-1].k == 't' {
			r[n-1].s += x
		} else {
			r = append(r, tok{'t', x})
		}
	}
	for i := 0; i < len(s); {
		c, nx := s[i], byte(0)
		if i+1 < len(s) {
			nx = s[i+1]
		}
		switch c {
		case '\\':
			switch nx {
			case '%', '$', '{', '}', '\\':
				text(string(nx))
				i += 2
			default:
				text(`\`)
				i++
			}
		case '%', '$':
			switch {
			case c == '%' && nx == '%':
				text("%")
				i += 2
			case nx == '!':
				r = append(r, tok{map[byte]rune{'%': 'P', '$': 'D'}[c], ""})
				i += 2
			case nx == 'w':
				r = append(r, tok{map[byte]rune{'%': 'w', '$': 'W'}[c], ""})
				i += 2
			default:
				r = append(r, tok{rune(c), ""})
				i++
			}
		case '{', '}':
			r = append(r, tok{rune(c), ""})
			i++
		default:
			_, n := utf8.DecodeRuneInString(s[i:])
			text(s[i : i+n])
			i += n
		}
	}
	return
}

type node struct {
	k    rune // as in tok; '%' and '$' are parameter references, 'P' and 'D' conditionals
	s    string
	verb string
	sub  []*node
}

var errParse = errors.New("malformed")

func parse(s string) (l []*node, err error) {
	p := &parser{t: scan(s)}
	defer func() {
		if x := recover(); x != nil {
			if x == errParse {
				l, err = nil, errParse
				return
			}
			panic(x)
		}
	}()
	l = p.list(0)
	return
}

type parser struct {
	t []tok
	i int
}

func (p *parser) next() tok {
	if p.i >= len(p.t) {
		p.i++
		return tok{}
	}
	p.i++
	return p.t[p.i-1]
}
func (p *parser) want(k rune) string {
	t := p.next()
	if t.k != k {
		panic(errParse)
	}
	return t.s
}
func (p *parser) list(depth int) (l []*node) {
	for {
		t := p.next()
		switch t.k {
		case 0:
			if depth > 0 {
				panic(errParse)
			}
			return
		case '}':
			if depth == 0 {
				panic(errParse)
			}
			return
		case '{':
			panic(errParse)
		case 't', 'w', 'W':
			l = append(l, &node{k: t.k, s: t.s})
		case '%', '$':
			verb, n := "v", p.next()
			if n.k == 't' {
				verb = n.s
				n = p.next()
			}
			if n.k != '{' {
				panic(errParse)
			}
			name := p.want('t')
			p.want('}')
			l = append(l, &node{k: t.k, s: name, verb: verb})
		case 'P', 'D':
			c := p.want('t')
			p.want('{')
			l = append(l, &node{k: t.k, s: c, sub: p.list(depth + 1)})
		}
	}
}

func isMapName(s string) bool {
	return s == "!m" || s == "!map" || s == "!params" || s == "!parameters"
}
func isName(s string) bool {
	for i, c := range s {
		if i == 0 && !unicode.IsUpper(c) {
			return false
		}
		if i > 0 && c != '_' && !unicode.IsLetter(c) && !unicode.IsDigit(c) {
			return false
		}
	}
	return s != ""
}

// syntaxOK tells whether all verbs, names and conditions in l are in the language.
func syntaxOK(l []*node) bool {
	for _, n := range l {
		switch n.k {
		case '%', '$':
			if strings.Contains(n.verb, "%") || !(isMapName(n.s) || isName(n.s)) {
				return false
			}
		case 'P', 'D':
			if n.s != "m=0" && n.s != "m>0" || !syntaxOK(n.sub) {
				return false
			}
		}
	}
	return true
}

// shown tells whether rendering l reaches a part that is outside the language. Sub-messages of invalid conditions are always rendered.
func shown(l []*node, own, passed ewd.ParamMap) bool {
	for _, n := range l {
		switch n.k {
		case '%', '$':
			if strings.Contains(n.verb, "%") || !(isMapName(n.s) || isName(n.s)) {
				return true
			}
		case 'P', 'D':
			m := own
			if n.k == 'D' {
				m = passed
			}
			if n.s != "m=0" && n.s != "m>0" {
				return true
			}
			if (n.s == "m=0") == (len(m) == 0) && shown(n.sub, own, passed) {
				return true
			}
		}
	}
	return false
}

// desc is the model of one error. kind: 'p' foreign error with message msg, 'f' fmt-wrapping of base with message prefix msg,
// 'e' an error of the package.
type desc struct {
	kind   byte
	name   string
	msg    string
	params ewd.ParamMap
	base   *desc
	tree   []*node
	bad    bool // malformed or outside the language
	perr   bool // malformed
	real   error
}

func (d *desc) interpolates() bool { return d != nil && d.kind == 'e' }

// seg is a part of the expected message; a wildcard stands for an in-message complaint
type seg struct {
	text string
	wild bool
}

func (d *desc) render(passed ewd.ParamMap, out *[]seg) {
	lit := func(s string) {
		if s == "" {
			return
		}
		if n := len(*out); n > 0 && !(*out)[n-1].wild {
			(*out)[n-1].text += s
		} else {
			*out = append(*out, seg{text: s})
		}
	}
	wild := func() { *out = append(*out, seg{wild: true}) }
	switch d.kind {
	case 'p':
		lit(d.msg)
		return
	case 'f':
		lit(d.msg)
		d.base.render(nil, out)
		return
	}
	if d.bad {
		wild()
		return
	}
	if passed == nil {
		passed = d.params
	}
	var walk func(l []*node)
	walk = func(l []*node) {
		for _, n := range l {
			m := d.params
			if n.k == '$' || n.k == 'D' {
				m = passed
			}
			switch n.k {
			case 't':
				lit(n.s)
			case '%', '$':
				if isMapName(n.s) {
					lit(fmt.Sprintf("%"+n.verb, map[string]any(m)))
				} else if v, ok := m[n.s]; ok {
					lit(fmt.Sprintf("%"+n.verb, v))
				} else {
					wild()
				}
			case 'P', 'D':
				if (n.s == "m=0") == (len(m) == 0) {
					walk(n.sub)
				}
			case 'w':
				if d.base == nil {
					wild()
				} else {
					d.base.render(nil, out)
				}
			case 'W':
				if d.base == nil {
					wild()
				} else if !d.base.interpolates() {
					wild()
					d.base.render(nil, out)
				} else {
					d.base.render(passed, out)
				}
			}
		}
	}
	walk(d.tree)
}

// match matches s against the segments; each wildcard stands for a non-empty text containing '<'.
func match(s string, segs []seg) bool {
	if len(segs) == 0 {
		return s == ""
	}
	if !segs[0].wild {
		return strings.HasPrefix(s, segs[0].text) && match(s[len(segs[0].text):], segs[1:])
	}
	for i := 1; i <= len(s); i++ {
		if strings.Contains(s[:i], "<") && match(s[i:], segs[1:]) {
			return true
		}
	}
	return false
}
func segString(l []seg) string {
	var b strings.Builder
	for _, s := range l {
		if s.wild {
			b.WriteString("«complaint»")
		} else {
			b.WriteString(s.text)
		}
	}
	return b.String()
}

// validParams is the reference of ValidateError_Params; passed == nil: the error's own parameters.
func (d *desc) validParams(passed ewd.ParamMap) bool {
	if d.kind != 'e' {
		return true // cannot be looked into
	}
	if d.bad {
		return false
	}
	if passed == nil {
		passed = d.params
	}
	var walk func(l []*node) bool
	walk = func(l []*node) bool {
		for _, n := range l {
			m := d.params
			if n.k == '$' || n.k == 'D' {
				m = passed
			}
			ok := true
			switch n.k {
			case '%', '$':
				_, ok = m[n.s]
				ok = ok || isMapName(n.s)
			case 'P', 'D':
				ok = (n.s == "m=0") != (len(m) == 0) || walk(n.sub)
			case 'w':
				ok = d.base != nil && d.base.validParams(nil)
			case 'W':
				ok = d.base.interpolates() && d.base.validParams(passed)
			}
			if !ok {
				return false
			}
		}
		return true
	}
	return walk(d.tree)
}

// validBase is the reference of ValidateError_Base. The documentation contradicts itself on whether the sub-message of
// $!cond is checked for more than syntax; strict selects one reading.
func (d *desc) validBase(strict bool) bool {
	if d.kind != 'e' {
		return true
	}
	if d.bad {
		return false
	}
	var walk func(l []*node) bool
	walk = func(l []*node) bool {
		for _, n := range l {
			ok := true
			switch n.k {
			case '%':
				_, ok = d.params[n.s]
				ok = ok || isMapName(n.s)
			case 'P':
				ok = (n.s == "m=0") != (len(d.params) == 0) || walk(n.sub)
			case 'D':
				ok = !strict || walk(n.sub)
			case 'w':
				ok = d.base != nil && d.base.validParams(nil)
			case 'W':
				ok = d.base.interpolates() && d.base.validBase(strict)
			}
			if !ok {
				return false
			}
		}
		return true
	}
	return walk(d.tree)
}

// mk creates the real error and its model. params are the new parameters (replacing inherited ones).
func mk(base *desc, s string, params ewd.ParamMap) *desc {
	d := &desc{kind: 'e', base: base, params: ewd.ParamMap{}}
	if s == "" && base.interpolates() {
		s = "$w"
	} else if s == "" {
		s = "%w"
	}
	var err error
	d.tree, err = parse(s)
	d.perr = err != nil
	d.bad = d.perr || !syntaxOK(d.tree)
	var rb error
	if base != nil {
		rb = base.real
		for b := base; b != nil; b = b.base {
			if b.kind == 'e' {
				for k, v := range b.params {
					d.params[k] = v
				}
				break
			}
		}
	}
	for k, v := range params {
		d.params[k] = v
	}
	d.real = ewd.NewErrorWithData_any_map(rb, s, ewd.ReplacePreviousData, params)
	d.name = fmt.Sprintf("%q/%v", s, d.params)
	return d
}
