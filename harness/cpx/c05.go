//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/exponents"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

// C05: every exported operation is a function of the values of its arguments: what it does must not depend on earlier calls
// (of it or of other operations), nor on where the arguments live. The check calls operations in histories of length two and three,
// with the arguments in the same variables, which hold other values from one call to the next, and compares with what the same
// operation did on fresh copies.

// c05tuple is one tuple of arguments (makers), c05op an operation with its tuples and what they did on fresh copies
type c05op struct {
	f      c04fn
	tuples [][]maker
	once   sync.Once
	want   []string
	unlike string // if two calls on equal fresh arguments differ
}

// holders are variables that live throughout a history
type c05mem struct {
	vars map[reflect.Type][]reflect.Value
	used map[reflect.Type]int
	rot  int
}

func newMem() *c05mem { return &c05mem{vars: map[reflect.Type][]reflect.Value{}} }

// begin starts the next call; rot is the variable that the first argument of every type is put into
func (m *c05mem) begin(rot int) { m.used, m.rot = map[reflect.Type]int{}, rot }

const nVars = 5 // at most so many arguments have the same type

func (m *c05mem) next(t reflect.Type, mk func() reflect.Value) reflect.Value {
	if m.vars[t] == nil {
		for i := 0; i < nVars; i++ {
			m.vars[t] = append(m.vars[t], mk())
		}
	}
	k := (m.used[t] + m.rot) % nVars
	m.used[t]++
	return m.vars[t][k]
}

// place puts the value of v into one of the variables and returns that
func (m *c05mem) place(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Pointer:
		e := v.Type().Elem()
		if x, ok := v.Interface().(*big.Int); ok {
			h := m.next(v.Type(), func() reflect.Value { return reflect.ValueOf(new(big.Int).SetBits(make([]big.Word, 0, 20))) })
			h.Interface().(*big.Int).Set(x)
			return h
		}
		if e.Kind() != reflect.Struct && e.Kind() != reflect.Array || !overwritable(e) && e != reflect.TypeOf(bytes.Buffer{}) && e != reflect.TypeOf(common.BitHeader{}) {
			return v
		}
		h := m.next(v.Type(), func() reflect.Value { return reflect.New(e) })
		h.Elem().Set(v.Elem())
		return h
	case reflect.Slice:
		h := m.next(v.Type(), func() reflect.Value { return reflect.MakeSlice(v.Type(), 1000, 1000) })
		if v.Len() > 1000 || v.IsNil() {
			return v
		}
		h = h.Slice3(0, v.Len(), v.Len())
		reflect.Copy(h, v)
		return h
	}
	return v
}

// c05digest is c04digest plus the contents of buffers and serializers and the text of errors
func c05digest(v reflect.Value) string {
	for v.Kind() == reflect.Interface && !v.IsNil() {
		v = v.Elem()
	}
	if !v.IsValid() || v.Kind() == reflect.Pointer && v.IsNil() || v.Kind() == reflect.Interface {
		return "nil"
	}
	switch x := v.Interface().(type) {
	case error:
		return "error " + x.Error()
	case *bytes.Buffer:
		return fmt.Sprintf("buffer %x", x.Bytes())
	case *fmtState:
		return fmt.Sprintf("output %q", x.String())
	case []byte:
		return fmt.Sprintf("%x", x)
	case interface {
		RecognizedParameters() []string
		GetParameter(string) any
	}:
		s := ""
		names := append([]string{}, x.RecognizedParameters()...)
		sort.Strings(names)
		for _, n := range names {
			s += fmt.Sprintf("%s=%v ", n, x.GetParameter(n))
		}
		return s
	}
	return c04digest(v, 0)
}

func c05call(f c04fn, args []reflect.Value) string {
	var res []reflect.Value
	panics, _ := vk.Panics(func() { res = f.fn.Call(args) })
	var d strings.Builder
	if panics {
		d.WriteString("panics")
	}
	for i, v := range res {
		if i > 0 {
			d.WriteString(", ")
		}
		d.WriteString(c05digest(v))
	}
	d.WriteString("; arguments then: ")
	for _, a := range args {
		if x, ok := a.Interface().(interface {
			ToBytes([]byte)
			BytesLength() int
		}); ok && strings.HasSuffix(f.name, "Normalize") && a.Kind() == reflect.Pointer && !a.IsNil() {
			// what normalizing promises is a unique internal representation
			buf := make([]byte, x.BytesLength())
			x.ToBytes(buf)
			fmt.Fprintf(&d, "stored as %x ", buf)
		}
		if s := c04valueOf(a); s != "" {
			d.WriteString(s)
		} else {
			d.WriteString(c05digest(a))
		}
		d.WriteString("|")
	}
	return d.String()
}

// prepare finds out what the operation does on fresh copies
func (o *c05op) prepare() {
	o.once.Do(func() {
		for k := range o.tuples {
			o.want = append(o.want, c05call(o.f, o.fresh(k)))
		}
		for k := range o.tuples {
			if again := c05call(o.f, o.fresh(k)); again != o.want[k] {
				o.unlike = fmt.Sprintf("%s gives %s, and when called again on an equal copy of the arguments %s", o.show(k), o.want[k], again)
				return
			}
		}
	})
}

func (o *c05op) fresh(k int) []reflect.Value {
	args := make([]reflect.Value, len(o.tuples[k]))
	for i, m := range o.tuples[k] {
		args[i] = m.mk()
	}
	return args
}

func (o *c05op) show(k int) string {
	var s []string
	for _, m := range o.tuples[k] {
		s = append(s, m.name)
	}
	return o.f.name + "(" + strings.Join(s, ", ") + ")"
}

// c05ops lists the operations with up to n tuples of arguments each, spread over the candidates of each parameter
func c05ops(n int) (ops []*c05op) {
	makers := c04makers()
	makers = append(makers, c05makers()...)
	fns := append(c04functions(), c05functions()...)
	for _, f := range fns {
		ft := f.fn.Type()
		in := ft.NumIn()
		cands := make([][]maker, in)
		total, most := 1, 1
		for i := 0; i < in; i++ {
			pt := ft.In(i)
			if ft.IsVariadic() && i == in-1 {
				pt = pt.Elem()
			}
			all, nf := c04cands(pt, makers, 1000)
			cands[i] = all[:nf]
			if len(cands[i]) == 0 {
				cands[i] = []maker{{"zero value", func() reflect.Value { return reflect.Zero(pt) }}}
			}
			if total < 1<<20 {
				total *= len(cands[i])
			}
			most = max(most, len(cands[i]))
		}
		o := &c05op{f: f}
		want := min(n, total, max(most, 12))
		seen := map[string]bool{}
		step := 1
		if most > n {
			step = most/n + 1
		}
		for j := 0; len(o.tuples) < want && j < 20*want; j++ {
			tu := make([]maker, in)
			key := ""
			for i := range tu {
				k := (j*step + j/len(cands[i])*i + i*j) % len(cands[i])
				tu[i] = cands[i][k]
				key += fmt.Sprint(k, ",")
			}
			if !seen[key] {
				seen[key] = true
				o.tuples = append(o.tuples, tu)
			}
		}
		ops = append(ops, o)
	}
	return
}

func c05makers() (out []maker) {
	add := func(name string, f func() any) {
		out = append(out, maker{name, func() reflect.Value { return reflect.ValueOf(f()) }})
	}
	// field elements that are coordinates of points, and points to go with the constructors
	for i, m := range []mp{mk(vk.BI(5), tN), mk(vk.BI(3), tA), mk(vk.BI(1), tN), mk(vk.Generic(4, vk.R), tN), mk(vk.Generic(5, vk.R), tA)} {
		a := m.aff()
		x, y := a.x, a.y
		add(fmt.Sprintf("x of %v", m), func() any { f := mkF(x, i%2 == 0); return &f })
		add(fmt.Sprintf("y of %v", m), func() any { f := mkF(y, i%2 == 1); return &f })
		for typ := 0; typ < nTypes; typ++ {
			if rs := reps(typ, m, 1); len(rs) > 0 {
				rp := rs[len(rs)-1]
				add(rp.String(), func() any { return copyRaw(rp.p) })
			}
		}
	}
	var pts [nTypes][2]reflect.Value
	for typ := 0; typ < nTypes; typ++ {
		pts[typ][0] = reflect.ValueOf(reps(typ, mk(vk.BI(5), tN), 1)[0].p).Elem()
		r2 := reps(typ, mk(vk.Generic(4, vk.R), tN), 1)
		pts[typ][1] = reflect.ValueOf(r2[len(r2)-1].p).Elem()
	}
	for typ, st := range c05slices() {
		typ, st := typ, reflect.TypeOf(st)
		for n := 0; n <= 3; n++ {
			for v := 0; v < 2; v++ {
				n, v := n, v
				add(fmt.Sprintf("%v of length %d (%d)", st, n, v), func() any {
					s := reflect.MakeSlice(st, n, n)
					for i := 0; i < n; i++ {
						s.Index(i).Set(pts[typ][(i+v)%2])
						if i == 2 {
							s.Index(i).SetZero()
						}
					}
					return s.Interface()
				})
			}
		}
	}
	for _, l := range [][]int64{{}, {7}, {0, 3}, {9, 8, 7}, {4, 0, 6, 0}} {
		l := l
		add(fmt.Sprint("field elements ", l), func() any {
			out := make([]fe.FieldElement, len(l))
			for i := range l {
				out[i] = mkF(vk.BI(l[i]), i == 1)
			}
			return out
		})
	}
	for v, e := range []common.FieldElementEndianness{common.LittleEndian, common.BigEndian} {
		e := e
		add(fmt.Sprint("endianness ", v), func() any { x := e; return &x })
	}
	for _, h := range []common.BitHeader{common.MakeBitHeader(0, 0), common.MakeBitHeader(1, 1), common.MakeBitHeader(2, 3)} {
		h := h
		add(fmt.Sprint(h), func() any { x := h; return &x })
		add(fmt.Sprint(h), func() any { return h })
	}
	for _, n := range []string{"SinglePointHeader", "Endianness", "SubgroupOnly", "BitHeader", "0x1234", "-5"} {
		n := n
		add(fmt.Sprintf("%q", n), func() any { return n })
	}
	return
}

func c05slices() map[int]any {
	return map[int]any{
		xtwF: cp.CurvePointSlice_xtw_full{}, xtwS: cp.CurvePointSlice_xtw_subgroup{},
		axtwF: cp.CurvePointSlice_axtw_full{}, axtwS: cp.CurvePointSlice_axtw_subgroup{},
		efghF: cp.CurvePointSlice_efgh_full{}, efghS: cp.CurvePointSlice_efgh_subgroup{},
	}
}

func c05functions() (out []c04fn) {
	methods := func(s any) {
		t := reflect.TypeOf(s)
		for i := 0; i < t.NumMethod(); i++ {
			m := t.Method(i)
			out = append(out, c04fn{"(" + t.String() + ")." + m.Name, m.Func})
		}
	}
	for typ := 0; typ < nTypes; typ++ {
		if s, ok := c05slices()[typ]; ok {
			methods(s)
		}
	}
	methods(new(common.FieldElementEndianness))
	methods(new(common.BitHeader))
	for _, f := range []c04fn{
		{"fieldElements.MultiInvertEqSlice", reflect.ValueOf(fe.MultiInvertEqSlice)},
		{"fieldElements.MultiInvertEqSliceSkipZeros", reflect.ValueOf(fe.MultiInvertEqSliceSkipZeros)},
		{"common.MakeBitHeader", reflect.ValueOf(common.MakeBitHeader)},
		{"common.TrustLevelFromBool", reflect.ValueOf(common.TrustLevelFromBool)},
	} {
		out = append(out, f)
	}
	return
}

// c05do performs one call in the given variables and compares
func c05do(t *vk.T, m *c05mem, rot int, o *c05op, k int, history func() string) bool {
	m.begin(rot)
	args := o.fresh(k)
	for i := range args {
		args[i] = m.place(args[i])
	}
	got := c05call(o.f, args)
	t.Trans(1)
	t.Eval(1)
	if got != o.want[k] {
		t.Fatalf("after %s (arguments in the same variables): %s gives %s, on fresh copies it gave %s", history(), o.show(k), got, o.want[k])
		return false
	}
	return true
}

func c05(r *vk.Run) {
	cp.SetNaPErrorHandler(func(string, bool, ...cp.CurvePointPtrInterfaceBaseRead) bool { return false })
	nTuples, nCross := 40, 5
	if r.Thorough {
		nTuples, nCross = 150, 60
	}
	ops := c05ops(nTuples)
	r.Extra("operations", len(ops))
	tuples := 0
	for _, o := range ops {
		tuples += len(o.tuples)
	}
	r.Extra("argument_tuples", tuples)
	// histories of one operation: all pairs of tuples, then back to the first
	r.Each(len(ops), func(i int) string { return "same operation/" + ops[i].f.name }, func(t *vk.T, i int) {
		o := ops[i]
		if o.prepare(); o.unlike != "" {
			t.Fatalf("%s", o.unlike)
			return
		}
		m := newMem()
		for a := range o.tuples {
			for b := range o.tuples {
				if !c05do(t, m, 0, o, a, func() string { return "earlier calls with other arguments" }) ||
					!c05do(t, m, 0, o, b, func() string { return o.show(a) }) {
					return
				}
				t.State(o.f.name, fmt.Sprint(a, b))
			}
			t.Alive()
		}
		t.Trace(len(o.tuples) * len(o.tuples))
		t.Sample(o.show(0))
	})
	// histories of one operation whose arguments are nearly equal
	fams := c05families()
	r.Extra("families_of_nearly_equal_arguments", len(fams))
	others := append(c04makers(), c05makers()...)
	nBase := 1
	if r.Thorough {
		nBase = 4
	}
	r.Each(len(ops), func(i int) string { return "nearly equal arguments/" + ops[i].f.name }, func(t *vk.T, i int) {
		if ops[i].prepare(); ops[i].unlike == "" {
			c05near(t, ops[i].f, fams, others, nBase)
		}
	})
	// histories of two different operations
	r.Each(len(ops), func(i int) string { return "other operation first/" + ops[i].f.name }, func(t *vk.T, i int) {
		g := ops[i]
		if g.prepare(); g.unlike != "" {
			return // reported above
		}
		m := newMem()
		for j, o := range ops {
			if i == j {
				continue
			}
			if o.prepare(); o.unlike != "" {
				continue
			}
			for n := 0; n < nCross; n++ {
				a := (j + 7*n) % len(g.tuples)
				b := (i + 5*n + 1) % len(o.tuples)
				rot := n % nVars
				if !c05do(t, m, 0, g, a, func() string { return "earlier calls" }) ||
					!c05do(t, m, rot, o, b, func() string { return g.show(a) }) {
					return
				}
			}
			t.StateH(vk.Hash64(g.f.name + ";" + o.f.name))
		}
		t.Alive()
		t.Trace(nCross * len(ops))
	})
	r.Sample("Add(z,p,q) with p, q in two variables, then IsInSubgroup of the first variable, which now holds another point")
}

// ---- nearly equal arguments

type c05family struct {
	name string
	t    reflect.Type
	ms   []maker
}

// c05families lists sets of nearly equal values of the same type: numbers whose representations differ in a single machine word or less,
// points that share coordinates (of their internal representation or affine ones), slices that differ in one element
func c05families() (out []c05family) {
	var cur *c05family
	begin := func(name string, t any) {
		out = append(out, c05family{name: name, t: reflect.TypeOf(t)})
		cur = &out[len(out)-1]
	}
	add := func(name string, f func() any) {
		cur.ms = append(cur.ms, maker{name, func() reflect.Value { return reflect.ValueOf(f()) }})
	}
	vary := func(base *big.Int, words int, m *big.Int) (nums []*big.Int) {
		nums = append(nums, base)
		for k := 0; k < words; k++ {
			for _, b := range []int{0, 17, 40} {
				x := new(big.Int).SetBit(base, 64*k+b, 1-base.Bit(64*k+b))
				if m == nil || x.Cmp(m) < 0 {
					nums = append(nums, x)
				}
			}
		}
		return nums
	}
	rinv := new(big.Int).ModInverse(vk.Pow2(256), vk.P)
	for i, base := range []*big.Int{vk.BI(5), vk.Mod(vk.Generic(3, vk.P), vk.Pow2(250)), vk.Mod(vk.Generic(8, vk.P), vk.Pow2(254))} {
		ns := vary(base, 4, vk.P)
		for raw := 0; raw < 2; raw++ {
			begin(fmt.Sprintf("field elements near %v (%v)", base, []string{"value", "Montgomery form"}[raw]), new(fe.FieldElement))
			for _, n := range ns {
				v := n
				if raw == 1 {
					v = vk.Mod(vk.Mul(n, rinv), vk.P)
				}
				add("fe "+v.String(), func() any { f := mkF(v, false); return &f })
			}
		}
		// representations that agree in the lowest words, some of them not reduced
		begin(fmt.Sprintf("field elements near %v (reduced and unreduced representations)", base), new(fe.FieldElement))
		for _, keep := range []int{1, 2, 3} {
			low := vk.Mod(base, vk.Pow2(uint(64*keep)))
			top := vk.Mul(new(big.Int).Rsh(vk.P, uint(64*keep)), vk.Pow2(uint(64*keep)))
			for _, d := range []int64{1, 2} {
				w := vk.Add(vk.Add(top, vk.Mul(vk.BI(d), vk.Pow2(uint(64*keep)))), low) // just above p
				if w.Cmp(vk.P) > 0 && w.Cmp(vk.Pow2(256)) < 0 {
					v := vk.Mod(vk.Mul(vk.Sub(w, vk.P), rinv), vk.P)
					add(fmt.Sprintf("fe stored as %#x", w), func() any { f := mkF(v, true); return &f })
				}
			}
		}
		for _, n := range ns[:4] {
			v := vk.Mod(vk.Mul(n, rinv), vk.P)
			add(fmt.Sprintf("fe stored as %#x", n), func() any { f := mkF(v, false); return &f })
		}
		begin(fmt.Sprintf("Uint256 near %v", base), new(fe.Uint256))
		for _, n := range ns {
			add("uint256 "+n.String(), func() any { u := fe.Uint256(vk.ToLimbs4(n)); return &u })
		}
		begin(fmt.Sprintf("exponents near %v", base), new(exponents.Exponent))
		for _, n := range vary(vk.Mod(base, vk.R), 4, vk.TwoR) {
			add("exponent "+n.String(), func() any { var e exponents.Exponent; e.SetBigInt(n); return &e })
		}
		wide := vk.Add(vk.Mul(base, vk.Pow2(256)), vk.Generic(uint64(20+i), vk.P))
		ws := vary(wide, 8, nil)
		begin(fmt.Sprintf("Uint512 near %v", wide), new(fe.Uint512))
		for _, n := range ws {
			add("uint512 "+n.String(), func() any { u := fe.BigIntToUint512(n); return &u })
		}
		begin(fmt.Sprintf("integers near %v", base), new(big.Int))
		for _, n := range append(append([]*big.Int{}, ns...), new(big.Int).Neg(base), vk.Add(base, vk.Pow2(256)), vk.Add(base, vk.P), vk.Add(base, vk.R)) {
			add("int "+n.String(), func() any { return new(big.Int).Set(n) })
		}
		if i == 0 {
			begin("uint64", uint64(0))
			for _, v := range []uint64{5, 5 + 1<<8, 5 + 1<<16, 5 + 1<<32, 5 + 1<<63, 4} {
				add(fmt.Sprint(v), func() any { return v })
			}
			begin("int64", int64(0))
			for _, v := range []int64{5, 5 + 1<<8, 5 + 1<<16, 5 + 1<<32, -5, 5 - 1<<63} {
				add(fmt.Sprint(v), func() any { return v })
			}
		}
	}
	k := vk.Generic(6, vk.R)
	same := []mp{mk(k, tN), mk(vk.Sub(vk.R, k), tN), mk(k, tA), mk(vk.Sub(vk.R, k), tA), mk(k, tE1), mk(k, tE2)} // equal affine coordinates up to sign
	var others []mp
	for i := 0; i < 4; i++ {
		others = append(others, mk(vk.Generic(uint64(40+i), vk.R), tN))
	}
	for typ := 0; typ < nTypes; typ++ {
		begin("related points of type "+typeNames[typ], fresh(typ))
		for i, m := range append(append([]mp{}, same...), others[0]) {
			rs := reps(typ, m, 1)
			for j, rp := range rs {
				if j < 2 || i == 0 && j < 6 {
					add(rp.String(), func() any { return copyRaw(rp.p) })
				}
			}
		}
		if !direct {
			continue
		}
		// the same internal coordinate
		c := vk.Generic(77, vk.P)
		for coord := 0; coord < len(fieldNames[base(typ)]); coord++ {
			if base(typ) == axtwF || base(typ) == axtwS {
				break // determined by the point
			}
			begin(fmt.Sprintf("points of type %s with the same internal %c", typeNames[typ], fieldNames[base(typ)][coord]), fresh(typ))
			for _, m := range append(append([]mp{}, others...), same...) {
				if m.inf() || isSub(typ) && !m.sub() {
					continue
				}
				u := rawCoords(typ, m, vk.BI(1), vk.BI(1))
				s := fm(c, finv(vk.Mod(u[coord], vk.P)))
				co := rawCoords(typ, m, s, s)
				if co[coord].Cmp(c) != 0 {
					panic("scaling")
				}
				add(fmt.Sprintf("%s%v", typeNames[typ], co), func() any { return raw(typ, co, false) })
			}
		}
	}
	// slices that differ in one element
	for typ, st := range c05slices() {
		t := reflect.TypeOf(st)
		if len(reps(typ, mk(vk.BI(5), tN), 1)) == 0 {
			continue
		}
		begin("slices of type "+t.String(), st)
		for v := 0; v < 6; v++ {
			add(fmt.Sprintf("%v with element %d replaced", t, v), func() any {
				s := reflect.MakeSlice(t, 5, 5)
				for i := 0; i < 5; i++ {
					m := others[i%2]
					if i == v {
						m = others[2]
					}
					rs := reps(typ, m, 1)
					s.Index(i).Set(reflect.ValueOf(copyRaw(rs[len(rs)-1].p)).Elem())
				}
				return s.Interface()
			})
		}
	}
	begin("slices of field elements", []fe.FieldElement{})
	for v := 0; v < 6; v++ {
		add(fmt.Sprintf("field elements 1..5 with element %d replaced", v), func() any {
			var s []fe.FieldElement
			for i := 0; i < 5; i++ {
				x := int64(i + 1)
				if i == v {
					x = 99
				}
				s = append(s, mkF(vk.BI(x), false))
			}
			return s
		})
	}
	begin("byte slices", []byte{})
	for v := -1; v < 64; v += 9 {
		add(fmt.Sprintf("bytes with byte %d changed", v), func() any {
			b := bytes.Repeat([]byte{1, 2, 3, 4}, 16)
			if v >= 0 {
				b[v] ^= 4
			}
			return b
		})
	}
	return
}

// c05near runs histories of two calls that differ in one argument, which has nearly equal values
func c05near(t *vk.T, f c04fn, fams []c05family, others []maker, nBase int) {
	ft := f.fn.Type()
	in := ft.NumIn()
	for p := 0; p < in; p++ {
		pt := ft.In(p)
		if ft.IsVariadic() && p == in-1 {
			pt = pt.Elem()
		}
		for _, fam := range fams {
			byValue := false
			if !fam.t.AssignableTo(pt) {
				if byValue = fam.t.Kind() == reflect.Pointer && fam.t.Elem() == pt; !byValue {
					continue
				}
			}
			for b := 0; b < nBase; b++ {
				o := &c05op{f: f}
				var rest []maker
				possible := true
				for i := 0; i < in; i++ {
					qt := ft.In(i)
					if ft.IsVariadic() && i == in-1 {
						qt = qt.Elem()
					}
					all, nf := c04cands(qt, others, 1000)
					if i == p {
						rest = append(rest, maker{})
					} else if nf > 0 {
						rest = append(rest, all[(b*7+i)%nf])
					} else if all = nil; qt.Kind() == reflect.Func || qt.Kind() == reflect.Interface || qt.Kind() == reflect.Slice || qt.Kind() == reflect.String {
						rest = append(rest, maker{"zero value", func() reflect.Value { return reflect.Zero(qt) }})
					} else {
						possible = false
					}
				}
				if !possible || in == 1 && b > 0 {
					break
				}
				for _, m := range fam.ms {
					tu := append([]maker{}, rest...)
					tu[p] = m
					if byValue {
						tu[p] = maker{m.name, func() reflect.Value { return m.mk().Elem() }}
					}
					o.tuples = append(o.tuples, tu)
				}
				if o.prepare(); o.unlike != "" {
					t.Fatalf("%s", o.unlike)
					return
				}
				mem := newMem()
				for x := range o.tuples {
					for y := range o.tuples {
						if x == y {
							continue
						}
						if !c05do(t, mem, 0, o, x, func() string { return "earlier calls with nearly equal arguments" }) ||
							!c05do(t, mem, (x+y)%nVars, o, y, func() string { return o.show(x) }) {
							return
						}
					}
				}
				t.StateH(vk.Hash64(fmt.Sprint(f.name, p, fam.name, b)))
				t.Trace(len(o.tuples) * len(o.tuples))
				t.Alive()
			}
		}
	}
}
