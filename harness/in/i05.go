//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"strings"
	"unsafe"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	"github.com/GottfriedHerold/Bandersnatch/internal/testutils"
	"github.com/GottfriedHerold/Bandersnatch/internal/utils"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

type strer struct{ s string }

func (s strer) String() string { return s.s }

type perr struct{ s string }

func (e *perr) Error() string { return e.s }

func i05(r *vk.Run) {
	r.Case("panic", i05panic)
	r.Case("callnil", i05callnil)
	r.Case("callall", i05callall)
	r.Case("nilable", i05nilable)
	r.Case("methods", i05methods)
	r.Case("fields", i05fields)
	r.Case("misc", i05misc)
	vals := []*big.Int{}
	for _, b := range []uint{0, 1, 8, 63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 257, 300} {
		vals = append(vals, vk.Around(2, vk.Pow2(b))...)
	}
	vals = append(vals, vk.Around(2, vk.P)...)
	for i := 0; i < 64; i++ {
		vals = append(vals, vk.Generic(uint64(i), vk.Two256))
	}
	r.Each(len(vals), func(i int) string { return "bigint/" + vals[i].Text(16) }, func(t *vk.T, i int) {
		x := vals[i]
		in := new(big.Int).Set(x)
		var arr [4]uint64
		bad := x.Sign() < 0 || x.BitLen() > 256
		did, _ := vk.Panics(func() { arr = utils.BigIntToUIntArray(x) })
		if did != bad {
			t.Failf("BigIntToUIntArray(%v): panic=%v", x, did)
		}
		if !bad && !did {
			if want := vk.ToLimbs4(x); arr != want {
				t.Failf("BigIntToUIntArray(%#x) = %x, expected %x", x, arr, want)
			}
			if y := utils.UIntarrayToInt(&arr); y.Cmp(x) != 0 || arr != vk.ToLimbs4(x) {
				t.Failf("UIntarrayToInt(%x) = %v, expected %v", arr, y, x)
			}
		}
		if x.Cmp(in) != 0 {
			t.Failf("BigIntToUIntArray changed its argument %v", in)
		}
		for _, f := range []string{"%d", "%#x", "%#X", "0b%b", "0o%o"} {
			s := fmt.Sprintf(f, x)
			if x.Sign() < 0 && strings.HasPrefix(f, "0") {
				s = "-" + fmt.Sprintf(f, new(big.Int).Neg(x))
			}
			var y *big.Int
			if did, v := vk.Panics(func() { y = utils.InitIntFromString(s) }); did || y.Cmp(x) != 0 {
				t.Failf("InitIntFromString(%q) = %v (panic %v)", s, y, v)
			}
			t.Eval(1)
		}
		for _, s := range []string{"", "x", "0x", "12a", "- 1", x.Text(10) + " ", "0b" + x.Text(10) + "2"} {
			if did, _ := vk.Panics(func() { utils.InitIntFromString(s) }); !did {
				t.Failf("InitIntFromString(%q) accepted", s)
			}
			t.Eval(1)
		}
		t.State("big", x.Text(62))
	})
}

func i05panic(t *vk.T) {
	e := errors.New("err")
	type outcome struct {
		name string
		f    func()
		did  bool
		val  any
		any  bool // value not compared
	}
	outs := []outcome{
		{name: "return", f: func() {}},
		{name: "string", f: func() { panic("str") }, did: true, val: "str"},
		{name: "empty string", f: func() { panic("") }, did: true, val: ""},
		{name: "error", f: func() { panic(e) }, did: true, val: e},
		{name: "pointer error", f: func() { panic(&perr{"x"}) }, did: true, any: true},
		{name: "stringer", f: func() { panic(strer{"s"}) }, did: true, val: strer{"s"}},
		{name: "int", f: func() { panic(0) }, did: true, val: 0},
		{name: "false", f: func() { panic(false) }, did: true, val: false},
		{name: "mentions reflect", f: func() { panic("my reflect") }, did: true, val: "my reflect"},
		{name: "nil", f: func() { panic(nil) }, did: true, any: true},
		{name: "nil deref", f: func() { var p *int; *p = 1 }, did: true, any: true},
		{name: "index", f: func() { var p []int; i := 3; p[i] = 1 }, did: true, any: true},
		{name: "divide", f: func() { z := 0; _ = 1 / z }, did: true, any: true},
		{name: "recovered inside", f: func() { defer func() { recover() }(); panic("x") }},
		{name: "panic in deferred", f: func() { defer func() { panic("second") }(); panic("first") }, did: true, val: "second"},
		{name: "panic in deferred after return", f: func() { defer func() { panic("late") }() }, did: true, val: "late"},
	}
	for _, o := range outs {
		for variant := 0; variant < 4; variant++ {
			calls := 0
			var fun any
			var args []any
			sawArgs := true
			switch variant {
			case 0:
				fun = func() { calls++; o.f() }
			case 1:
				fun = func(a int, b error, c []int) (int, error) {
					sawArgs = a == 7 && b == nil && c == nil
					calls++
					o.f()
					return 1, nil
				}
				args = []any{7, nil, nil}
			case 2:
				fun = func(a string, rest ...int) {
					sawArgs = a == "a" && len(rest) == 2 && rest[1] == 2
					calls++
					o.f()
				}
				args = []any{"a", 1, 2}
			case 3:
				fun = func(a any, b map[int]int, c *int, d func(), e chan int) {
					sawArgs = a == nil && b == nil && c == nil && d == nil && e == nil
					calls++
					o.f()
				}
				args = []any{nil, nil, nil, nil, nil}
			}
			var did, did1 bool
			var val any
			if p, v := vk.Panics(func() { did, val = testutils.CheckPanic2(fun, args...) }); p {
				t.Failf("CheckPanic2(%s/%d) panics: %v", o.name, variant, v)
				continue
			}
			did1 = testutils.CheckPanic(fun, args...)
			if did != o.did || did1 != o.did {
				t.Failf("CheckPanic(2)(%s/%d) = %v, %v", o.name, variant, did1, did)
			}
			if !o.any && val != o.val {
				t.Failf("CheckPanic2(%s/%d): panic value %v, expected %v", o.name, variant, val, o.val)
			}
			if calls != 2 || !sawArgs {
				t.Failf("CheckPanic(2)(%s/%d): function called %d times by two calls; arguments right: %v", o.name, variant, calls, sawArgs)
			}
			t.Eval(2)
			t.State("panic", o.name, fmt.Sprint(variant))
		}
	}
	// misuse is not mistaken for a panic of the function
	for name, f := range map[string]func(){
		"not a function":        func() { testutils.CheckPanic(3) },
		"too few arguments":     func() { testutils.CheckPanic(func(int) {}) },
		"too many arguments":    func() { testutils.CheckPanic(func(int) {}, 1, 2) },
		"wrong argument type":   func() { testutils.CheckPanic(func(int) {}, "x") },
		"nil for a non-nilable": func() { testutils.CheckPanic(func(int) {}, nil) },
	} {
		if did, _ := vk.Panics(f); !did {
			t.Failf("CheckPanic: %s accepted", name)
		}
		t.Eval(1)
	}
	// unsafe.Pointer parameters can be nil
	ok := false
	if did, v := vk.Panics(func() { testutils.CheckPanic(func(p unsafe.Pointer) { ok = p == nil }, nil) }); did || !ok {
		t.Failf("CheckPanic with a nil unsafe.Pointer argument: %v", v)
	}
	for _, c := range []bool{true, false} {
		for n := 0; n < 3; n++ {
			var args []any
			for i := 0; i < n; i++ {
				args = append(args, fmt.Sprint("arg", i))
			}
			did, v := vk.Panics(func() { testutils.Assert(c, args...) })
			if did != (!c || n == 2) || did && n == 1 && v != "arg0" {
				t.Failf("Assert(%v, %v): panic=%v %v", c, args, did, v)
			}
			t.Eval(1)
		}
	}
}

func i05callnil(t *vk.T) {
	mk := reflect.ValueOf
	type cs struct {
		name string
		f    any
		in   []any
		out  string
		bad  bool
	}
	for _, c := range []cs{
		{"no args", func() int { return 3 }, nil, "[3]", false},
		{"error", func(e error) bool { return e == nil }, []any{nil}, "[true]", false},
		{"error set", func(e error) bool { return e == io.EOF }, []any{io.EOF}, "[true]", false},
		{"any", func(e any) bool { return e == nil }, []any{nil}, "[true]", false},
		{"pointer", func(e *int) bool { return e == nil }, []any{nil}, "[true]", false},
		{"chan", func(e chan int) bool { return e == nil }, []any{nil}, "[true]", false},
		{"func", func(e func()) bool { return e == nil }, []any{nil}, "[true]", false},
		{"slice", func(e []int) bool { return e == nil }, []any{nil}, "[true]", false},
		{"map", func(e map[int]int) bool { return e == nil }, []any{nil}, "[true]", false},
		{"unsafe", func(e unsafe.Pointer) bool { return e == nil }, []any{nil}, "[true]", false},
		{"second", func(a int, e error, b string) string { return fmt.Sprint(a, e, b) }, []any{1, nil, "x"}, "[1 <nil>x]", false},
		{"two nils", func(a []int, e error) bool { return a == nil && e == nil }, []any{nil, nil}, "[true]", false},
		{"int nil", func(a int) {}, []any{nil}, "", true},
		{"struct nil", func(a struct{}) {}, []any{nil}, "", true},
		{"string nil", func(a string) {}, []any{nil}, "", true},
		{"array nil", func(a [1]*int) {}, []any{nil}, "", true},
		{"too few", func(a int) {}, nil, "", true},
		{"wrong type", func(a int) {}, []any{"x"}, "", true},
		{"not a function", 5, nil, "", true},
	} {
		var in []reflect.Value
		for _, a := range c.in {
			in = append(in, mk(a))
		}
		var out []reflect.Value
		did, v := vk.Panics(func() { out = common.CallFunction_FixNil(mk(c.f), in) })
		if did != c.bad {
			t.Failf("CallFunction_FixNil(%s): panic=%v %v", c.name, did, v)
		}
		if !did {
			var s []string
			for _, o := range out {
				s = append(s, fmt.Sprint(o.Interface()))
			}
			if fmt.Sprint(s) != c.out {
				t.Failf("CallFunction_FixNil(%s) = %v, expected %v", c.name, s, c.out)
			}
		}
		t.Eval(1)
		t.State("callnil", c.name)
	}
}

// i05callall calls functions of one to three parameters of every kind with every pattern of nil and non-nil arguments.
func i05callall(t *vk.T) {
	x := 7
	ch := make(chan int)
	type kind struct {
		typ     reflect.Type
		val     any
		nilable bool
	}
	kinds := []kind{
		{utils.TypeOfType[int](), 5, false}, {utils.TypeOfType[string](), "s", false}, {utils.TypeOfType[struct{ A int }](), struct{ A int }{3}, false}, {utils.TypeOfType[[1]*int](), [1]*int{&x}, false},
		{utils.TypeOfType[*int](), &x, true}, {utils.TypeOfType[error](), io.EOF, true}, {utils.TypeOfType[any](), 9, true}, {utils.TypeOfType[[]int](), []int{4}, true},
		{utils.TypeOfType[map[int]int](), map[int]int{1: 2}, true}, {utils.TypeOfType[chan int](), ch, true}, {utils.TypeOfType[func()](), func() {}, true}, {utils.TypeOfType[unsafe.Pointer](), unsafe.Pointer(&x), true},
		{utils.TypeOfType[namedSlice](), namedSlice{1}, true}, {utils.TypeOfType[namedIface](), namedI(1), true},
	}
	total := 0
	for n := 1; n <= 3; n++ {
		cnt := 1
		for i := 0; i < n; i++ {
			cnt *= len(kinds)
		}
		for c := 0; c < cnt; c++ {
			ks := make([]kind, n)
			typs := make([]reflect.Type, n)
			for i, d := 0, c; i < n; i++ {
				ks[i], d = kinds[d%len(kinds)], d/len(kinds)
				typs[i] = ks[i].typ
			}
			for mask := 0; mask < 1<<n; mask++ {
				calls := 0
				var got []reflect.Value
				f := reflect.MakeFunc(reflect.FuncOf(typs, []reflect.Type{utils.TypeOfType[int]()}, false), func(in []reflect.Value) []reflect.Value {
					calls++
					got = in
					return []reflect.Value{reflect.ValueOf(calls)}
				})
				in := make([]reflect.Value, n)
				good := true
				for i := range in {
					if mask>>i&1 == 0 {
						in[i] = reflect.ValueOf(ks[i].val)
					} else {
						good = good && ks[i].nilable
					}
				}
				var out []reflect.Value
				did, v := vk.Panics(func() { out = common.CallFunction_FixNil(f, in) })
				if did == good || good && calls != 1 || !good && calls != 0 {
					t.Failf("CallFunction_FixNil of %v with nil pattern %b: panic=%v (%v), %d calls", f.Type(), mask, did, v, calls)
					continue
				}
				if good {
					if len(out) != 1 || out[0].Int() != 1 || len(got) != n {
						t.Failf("CallFunction_FixNil of %v with nil pattern %b returns %v", f.Type(), mask, out)
						continue
					}
					for i, g := range got {
						if isNil := mask>>i&1 == 1; isNil != (ks[i].nilable && g.IsNil()) || !isNil && ks[i].typ.Kind() != reflect.Func && !reflect.DeepEqual(g.Interface(), ks[i].val) {
							t.Failf("CallFunction_FixNil of %v with nil pattern %b passes %v for argument %d", f.Type(), mask, g, i)
						}
					}
				}
				total++
			}
		}
	}
	t.Eval(total)
}

type namedI int

func (namedI) M() {}

type namedPtr *int
type namedFunc func()
type namedSlice []int
type namedMap map[int]int
type namedChan chan int
type namedIface interface{ M() }
type namedInt int
type namedUnsafe unsafe.Pointer

func i05nilable(t *vk.T) {
	c := func(name string, want bool, typ reflect.Type, viaParam bool) {
		var got bool
		if did, v := vk.Panics(func() { got = utils.IsNilable(typ) }); did || got != want || viaParam != want {
			t.Failf("IsNilable(%s) = %v, IsTypeNilable = %v (panic %v), expected %v", name, got, viaParam, v, want)
		}
		t.Eval(2)
		t.State("nilable", name)
	}
	n := func(name string, want bool, typ reflect.Type, p bool) { c(name, want, typ, p) }
	n("bool", false, utils.TypeOfType[bool](), utils.IsTypeNilable[bool]())
	n("int", false, utils.TypeOfType[int](), utils.IsTypeNilable[int]())
	n("int8", false, utils.TypeOfType[int8](), utils.IsTypeNilable[int8]())
	n("int64", false, utils.TypeOfType[int64](), utils.IsTypeNilable[int64]())
	n("uint16", false, utils.TypeOfType[uint16](), utils.IsTypeNilable[uint16]())
	n("uint32", false, utils.TypeOfType[uint32](), utils.IsTypeNilable[uint32]())
	n("uintptr", false, utils.TypeOfType[uintptr](), utils.IsTypeNilable[uintptr]())
	n("float32", false, utils.TypeOfType[float32](), utils.IsTypeNilable[float32]())
	n("float64", false, utils.TypeOfType[float64](), utils.IsTypeNilable[float64]())
	n("complex64", false, utils.TypeOfType[complex64](), utils.IsTypeNilable[complex64]())
	n("complex128", false, utils.TypeOfType[complex128](), utils.IsTypeNilable[complex128]())
	n("string", false, utils.TypeOfType[string](), utils.IsTypeNilable[string]())
	n("struct{}", false, utils.TypeOfType[struct{}](), utils.IsTypeNilable[struct{}]())
	n("struct{*int}", false, utils.TypeOfType[struct{ P *int }](), utils.IsTypeNilable[struct{ P *int }]())
	n("[0]int", false, utils.TypeOfType[[0]int](), utils.IsTypeNilable[[0]int]())
	n("[2]error", false, utils.TypeOfType[[2]error](), utils.IsTypeNilable[[2]error]())
	n("namedInt", false, utils.TypeOfType[namedInt](), utils.IsTypeNilable[namedInt]())
	n("*int", true, utils.TypeOfType[*int](), utils.IsTypeNilable[*int]())
	n("**int", true, utils.TypeOfType[**int](), utils.IsTypeNilable[**int]())
	n("namedPtr", true, utils.TypeOfType[namedPtr](), utils.IsTypeNilable[namedPtr]())
	n("func()", true, utils.TypeOfType[func()](), utils.IsTypeNilable[func()]())
	n("namedFunc", true, utils.TypeOfType[namedFunc](), utils.IsTypeNilable[namedFunc]())
	n("[]int", true, utils.TypeOfType[[]int](), utils.IsTypeNilable[[]int]())
	n("namedSlice", true, utils.TypeOfType[namedSlice](), utils.IsTypeNilable[namedSlice]())
	n("map", true, utils.TypeOfType[map[string]int](), utils.IsTypeNilable[map[string]int]())
	n("namedMap", true, utils.TypeOfType[namedMap](), utils.IsTypeNilable[namedMap]())
	n("chan", true, utils.TypeOfType[chan int](), utils.IsTypeNilable[chan int]())
	n("<-chan", true, utils.TypeOfType[<-chan int](), utils.IsTypeNilable[<-chan int]())
	n("namedChan", true, utils.TypeOfType[namedChan](), utils.IsTypeNilable[namedChan]())
	n("any", true, utils.TypeOfType[any](), utils.IsTypeNilable[any]())
	n("error", true, utils.TypeOfType[error](), utils.IsTypeNilable[error]())
	n("namedIface", true, utils.TypeOfType[namedIface](), utils.IsTypeNilable[namedIface]())
	n("unsafe.Pointer", true, utils.TypeOfType[unsafe.Pointer](), utils.IsTypeNilable[unsafe.Pointer]())
	n("namedUnsafe", true, utils.TypeOfType[namedUnsafe](), utils.IsTypeNilable[namedUnsafe]())

	for _, c := range []struct {
		got  reflect.Type
		want reflect.Type
	}{
		{utils.TypeOfType[int](), reflect.TypeOf(0)},
		{utils.TypeOfType[*int](), reflect.TypeOf(new(int))},
		{utils.TypeOfType[error](), reflect.TypeOf(new(error)).Elem()},
		{utils.TypeOfType[struct{ A int }](), reflect.TypeOf(struct{ A int }{})},
	} {
		if c.got != c.want {
			t.Failf("TypeOfType gives %v, expected %v", c.got, c.want)
		}
		t.Eval(1)
	}
	for typ, want := range map[reflect.Type]string{
		utils.TypeOfType[int]():           "int",
		utils.TypeOfType[namedInt]():      "namedInt",
		utils.TypeOfType[*namedInt]():     "*namedInt",
		utils.TypeOfType[**namedInt]():    "**namedInt",
		utils.TypeOfType[[]*namedInt]():   "[]*namedInt",
		utils.TypeOfType[[3][]namedInt](): "[3][]namedInt",
		utils.TypeOfType[*[2]error]():     "*[2]error",
		utils.TypeOfType[namedSlice]():    "namedSlice",
		utils.TypeOfType[*namedFunc]():    "*namedFunc",
		utils.TypeOfType[[][]string]():    "[][]string",
	} {
		if got := utils.GetReflectName(typ); got != want {
			t.Failf("GetReflectName(%v) = %q, expected %q", typ, got, want)
		}
		t.Eval(1)
	}
	if got := utils.NameOfType[error](); got != "error" {
		t.Failf("NameOfType[error] = %q", got)
	}
}

// ---- methods

type recvT struct{ log *string }

func (r recvT) V0()                                   {}
func (r recvT) V1(a int) string                       { return fmt.Sprint("V1:", a) }
func (r *recvT) P0() int                              { return 5 }
func (r *recvT) P2(a error, b io.Reader) (int, error) { return 2, a }
func (r *recvT) P3(a any, b namedSlice, c []int) any  { return fmt.Sprintf("%v %v %v", a, b, c) }
func (r recvT) Var(a ...int) int                      { return len(a) }

type recvI interface {
	I0() int
	I1(a error) string
	I2(a any, b int) (int, error)
}

func i05methods(t *vk.T) {
	types := map[string]reflect.Type{
		"int": utils.TypeOfType[int](), "string": utils.TypeOfType[string](), "error": utils.TypeOfType[error](), "any": utils.TypeOfType[any](),
		"*perr": utils.TypeOfType[*perr](), "Reader": utils.TypeOfType[io.Reader](), "ReadWriter": utils.TypeOfType[io.ReadWriter](),
		"namedSlice": utils.TypeOfType[namedSlice](), "[]int": utils.TypeOfType[[]int](), "namedInt": utils.TypeOfType[namedInt](),
	}
	var names []string
	for n := range types {
		names = append(names, n)
	}
	// language rule for assignability, by hand
	assignable := func(from, to string) bool {
		if from == to || to == "any" {
			return true
		}
		switch to {
		case "error":
			return from == "*perr"
		case "Reader":
			return from == "ReadWriter"
		case "[]int":
			return from == "namedSlice"
		case "namedSlice":
			return from == "[]int"
		}
		return false
	}
	type sig struct{ in, out []string }
	recvs := []struct {
		name string
		typ  reflect.Type
		has  map[string]sig
	}{
		{"recvT", reflect.TypeOf(recvT{}), map[string]sig{"V0": {}, "V1": {[]string{"int"}, []string{"string"}}, "Var": {[]string{"[]int"}, []string{"int"}}}},
		{"*recvT", reflect.TypeOf(&recvT{}), map[string]sig{"V0": {}, "V1": {[]string{"int"}, []string{"string"}}, "Var": {[]string{"[]int"}, []string{"int"}}, "P0": {nil, []string{"int"}}, "P2": {[]string{"error", "Reader"}, []string{"int", "error"}}, "P3": {[]string{"any", "namedSlice", "[]int"}, []string{"any"}}}},
		{"recvI", utils.TypeOfType[recvI](), map[string]sig{"I0": {nil, []string{"int"}}, "I1": {[]string{"error"}, []string{"string"}}, "I2": {[]string{"any", "int"}, []string{"int", "error"}}}},
	}
	lists := [][]string{nil}
	for _, a := range names {
		lists = append(lists, []string{a})
		for _, b := range names {
			lists = append(lists, []string{a, b})
		}
	}
	lists = append(lists, []string{"any", "namedSlice", "[]int"}, []string{"int", "[]int", "namedSlice"}, []string{"error", "[]int", "error"})
	ts := func(l []string) (out []reflect.Type) {
		for _, n := range l {
			out = append(out, types[n])
		}
		return
	}
	for _, rv := range recvs {
		for _, m := range []string{"V0", "V1", "Var", "P0", "P2", "P3", "I0", "I1", "I2", "Nope", "v0", ""} {
			s, has := rv.has[m]
			for _, in := range lists {
				for _, out := range lists {
					if len(in) == 2 && len(out) == 2 && !(has && len(s.in) == 2) {
						continue // counted by others
					}
					want := has && len(in) == len(s.in) && len(out) == len(s.out)
					for i := range in {
						want = want && assignable(in[i], s.in[i])
					}
					for i := range out {
						want = want && assignable(s.out[i], out[i])
					}
					var good bool
					var reason string
					did, v := vk.Panics(func() { good, reason = utils.DoesMethodExist(rv.typ, m, ts(in), ts(out)) })
					if did || good != want || (reason == "") != want {
						t.Failf("DoesMethodExist(%s,%s,%v,%v) = %v, %q (panic %v), expected %v", rv.name, m, in, out, good, reason, v, want)
						if t.Failed() {
							return
						}
					}
					t.Eval(1)
				}
			}
			t.State("method", rv.name, m)
		}
	}
	// calls by name
	rc := &recvT{}
	for _, c := range []struct {
		recv any
		m    string
		in   []any
		want string
		bad  bool
	}{
		{recvT{}, "V0", nil, "[]", false},
		{rc, "V0", nil, "[]", false},
		{rc, "V1", []any{4}, "[V1:4]", false},
		{recvT{}, "V1", []any{-1}, "[V1:-1]", false},
		{rc, "P0", nil, "[5]", false},
		{rc, "P2", []any{error(&perr{"q"}), io.Reader(strings.NewReader(""))}, "[2 q]", false},
		{rc, "P3", []any{1, namedSlice{2}, []int{3}}, "[1 [2] [3]]", false},
		{rc, "P3", []any{"a", []int{2}, namedSlice{3}}, "[a [2] [3]]", false},
		{recvT{}, "P0", nil, "", true}, // not in the method set
		{rc, "Nope", nil, "", true},
		{rc, "Var", []any{1}, "", true},
		{rc, "V1", nil, "", true},
		{rc, "V1", []any{"s"}, "", true},
		{rc, "V1", []any{1, 2}, "", true},
	} {
		var out []any
		did, v := vk.Panics(func() { out = testutils.CallMethodByName(c.recv, c.m, c.in...) })
		if did != c.bad || !did && fmt.Sprint(out) != c.want {
			t.Failf("CallMethodByName(%T,%s,%v) = %v (panic %v), expected %v", c.recv, c.m, c.in, out, v, c.want)
		}
		t.Eval(1)
		t.State("call", c.m, fmt.Sprint(c.in))
	}
}

// ---- fields

type fEmpty struct{}
type FA struct{ X, Y int }
type FB struct {
	FA
	Z int
}
type FC struct {
	*FA
	FB
	W error
}
type fd struct {
	a int
	FA
}
type FE struct {
	fd
	namedSlice
	B FA
	*namedPtrT
}
type namedPtrT int
type FF struct {
	error
	fmt.Stringer
	FB
	Q struct{ FA }
}
type FCyc struct {
	*FCyc
	N int
}
type FG struct {
	FB
	FC
	FE
}

func i05fields(t *vk.T) {
	types := []reflect.Type{
		reflect.TypeOf(fEmpty{}), reflect.TypeOf(FA{}), reflect.TypeOf(FB{}), reflect.TypeOf(FC{}), reflect.TypeOf(fd{}), reflect.TypeOf(FE{}), reflect.TypeOf(FF{}), reflect.TypeOf(FCyc{}), reflect.TypeOf(FG{}),
		reflect.TypeOf(struct {
			FCyc
			FG
			K int `tag:"x"`
		}{}),
	}
	// generated layouts: all sequences up to length 3 of {plain, embedded struct, embedded pointer, named struct}
	alpha := []reflect.StructField{
		{Name: "P", Type: reflect.TypeOf(0)},
		{Name: "FA", Type: reflect.TypeOf(FA{}), Anonymous: true},
		{Name: "FB", Type: reflect.TypeOf(FB{}), Anonymous: true},
		{Name: "FA", Type: reflect.TypeOf(&FA{}), Anonymous: true},
		{Name: "S", Type: reflect.TypeOf(FB{})},
	}
	gen := func(idx ...int) {
		seen := map[string]bool{}
		var fs []reflect.StructField
		for k, i := range idx {
			f := alpha[i]
			if !f.Anonymous {
				f.Name += fmt.Sprint(k)
			}
			if seen[f.Name] {
				return
			}
			seen[f.Name] = true
			fs = append(fs, f)
		}
		var typ reflect.Type
		if did, _ := vk.Panics(func() { typ = reflect.StructOf(fs) }); !did {
			types = append(types, typ)
		}
	}
	for a := range alpha {
		gen(a)
		for b := range alpha {
			gen(a, b)
			for c := range alpha {
				gen(a, b, c)
			}
		}
	}
	for _, typ := range types {
		// reference: breadth-first over index paths through embedded structs; order of the result is depth-first pre-order
		type ent struct {
			path string
			f    reflect.StructField
		}
		want := map[string]reflect.StructField{}
		ptr := false
		queue := [][]int{{}}
		for len(queue) > 0 {
			p := queue[0]
			queue = queue[1:]
			at := typ
			for _, i := range p {
				at = at.Field(i).Type
			}
			for i := 0; i < at.NumField(); i++ {
				q := append(append([]int(nil), p...), i)
				f := at.Field(i)
				want[fmt.Sprint(q)] = f
				if f.Anonymous && f.Type.Kind() == reflect.Struct {
					queue = append(queue, q)
				}
				if f.Anonymous && f.Type.Kind() == reflect.Pointer && f.Type.Elem().Kind() == reflect.Struct {
					ptr = true
				}
			}
		}
		fs, gotPtr := utils.AllFields(typ)
		if gotPtr != ptr {
			t.Failf("AllFields(%v): embedded struct pointer reported: %v", typ, gotPtr)
		}
		if len(fs) != len(want) {
			t.Failf("AllFields(%v): %d fields, expected %d", typ, len(fs), len(want))
		}
		for _, f := range fs {
			w, ok := want[fmt.Sprint(f.Index)]
			if !ok || w.Name != f.Name || w.Type != f.Type || w.Anonymous != f.Anonymous || w.Tag != f.Tag {
				t.Failf("AllFields(%v): field %v at %v, expected %v", typ, f.Name, f.Index, w.Name)
				continue
			}
			delete(want, fmt.Sprint(f.Index))
			if g := typ.FieldByIndex(f.Index); g.Name != f.Name || g.Type != f.Type {
				t.Failf("AllFields(%v): index %v of field %v leads to %v", typ, f.Index, f.Name, g.Name)
			}
		}
		t.Eval(1)
		t.State("fields", typ.String())
	}
	for _, typ := range []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(&FA{}), utils.TypeOfType[error](), reflect.TypeOf([]FA{})} {
		if did, _ := vk.Panics(func() { utils.AllFields(typ) }); !did {
			t.Failf("AllFields(%v) accepted", typ)
		}
		t.Eval(1)
	}
}

type bi struct{ v *big.Int }

func (b bi) ToBigInt() *big.Int { return b.v }

func i05misc(t *vk.T) {
	var got []int
	f2 := func(a, b int) { got = append(got, a, b) }
	f3 := func(a, b, c int) { got = append(got, a, b, c) }
	f4 := func(a, b, c, d int) { got = append(got, a, b, c, d) }
	f5 := func(a, b, c, d, e int) { got = append(got, a, b, c, d, e) }
	for k, f := range []func(int){utils.Bind2(f2, 2), utils.Bind23(f3, 2, 3), utils.Bind234(f4, 2, 3, 4), utils.Bind2345(f5, 2, 3, 4, 5)} {
		for _, a := range []int{1, 9} {
			got = nil
			f(a)
			if want := append([]int{a}, []int{2, 3, 4, 5}[:k+1]...); fmt.Sprint(got) != fmt.Sprint(want) {
				t.Failf("Bind of %d arguments: called with %v, expected %v", k+1, got, want)
			}
			t.Eval(1)
		}
	}
	x := big3{1, 2}
	p := utils.AddressOfCopy(x)
	if *p != x || p == &x || utils.AddressOfCopy(x) == p {
		t.Failf("AddressOfCopy")
	}
	p.a = 7
	if x.a != 1 || utils.Identity(x) != x {
		t.Failf("AddressOfCopy / Identity")
	}
	for a := int64(-2); a < 3; a++ {
		for b := int64(-2); b < 3; b++ {
			if utils.IsEqualAsBigInt(bi{big.NewInt(a)}, bi{big.NewInt(b)}) != (a == b) {
				t.Failf("IsEqualAsBigInt(%d,%d)", a, b)
			}
			t.Eval(1)
		}
	}
	t.State("misc")
}
