//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"strings"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

// Operations that call user code (streams, handlers, Stringers), which in turn uses the library.

type cbWriter struct {
	b  bytes.Buffer
	cb func()
}

func (w *cbWriter) Write(p []byte) (int, error) {
	w.cb() // before looking at the data, so that changes of a shared buffer show
	return w.b.Write(p)
}

type cbReader struct {
	r  *bytes.Reader
	cb func()
}

func (r *cbReader) Read(p []byte) (n int, err error) {
	n, err = r.r.Read(p)
	r.cb() // after filling the buffer
	return
}

type cbStringer struct{ cb func() }

func (s cbStringer) String() string { s.cb(); return "text" }

type sliceW interface {
	SerializeSlice(io.Writer, cp.CurvePointSlice) (int, ps.BatchSerializationError)
}
type sliceR interface {
	DeserializeSlice(io.Reader, common.IsInputTrusted, ps.DeserializeSliceMaker) (any, int, ps.BatchDeserializationError)
}

// opR calls cb from within the library
type opR struct {
	name string
	f    func(cb func()) string
}

func opsR() (out []opR) {
	add := func(name string, f func(cb func()) string) { out = append(out, opR{name, f}) }
	var be common.FieldElementEndianness
	be.SetEndianness(binary.BigEndian)
	hdr := common.MakeBitHeader(1, 1)
	add("writing field elements", func(cb func()) string {
		w := &cbWriter{cb: cb}
		a := fs3(40)
		n, err := a.Serialize(w, be)
		m, err2 := a.SerializeWithPrefix(w, hdr, be)
		b := fs3(41)
		k, err3 := b.Serialize(w, be)
		return fmt.Sprintf("%d %v %d %v %d %v %x", n, err, m, err2, k, err3, w.b.Bytes())
	})
	add("writing 256-bit integers", func(cb func()) string {
		w := &cbWriter{cb: cb}
		a := fe.BigIntToUInt256(vk.Generic(42, vk.Pow2(255)))
		n, err := a.Serialize(w, be)
		m, err2 := a.SerializeWithPrefix(w, hdr, be)
		return fmt.Sprintf("%d %v %d %v %x", n, err, m, err2, w.b.Bytes())
	})
	add("reading field elements and integers", func(cb func()) string {
		var w bytes.Buffer
		a := fs3(43)
		a.Serialize(&w, be)
		a.SerializeWithPrefix(&w, hdr, be)
		a.SerializeWithPrefix(&w, hdr, be)
		all := append([]byte{}, w.Bytes()...)
		all = append(append(all, all...), 1, 2, 3)
		r := &cbReader{bytes.NewReader(all), cb}
		var x, y, z, z2 F
		n1, e1 := x.Deserialize(r, be)
		n2, p, e2 := y.DeserializeAndGetPrefix(r, 1, be)
		n3, e3 := z.DeserializeWithExpectedPrefix(r, hdr, be)
		var u, v, v2 fe.Uint256
		n4, e4 := u.Deserialize(r, be)
		n5, p5, e5 := v.DeserializeAndGetPrefix(r, 1, be)
		n6, e6 := v2.DeserializeWithExpectedPrefix(r, hdr, be)
		n7, e7 := z2.Deserialize(r, be)
		return fmt.Sprint(n1, e1, n2, p, e2, n3, e3, n4, e4, n5, p5, e5, n6, e6, n7, e7, u, v, v2, x.ToBigInt(), y.ToBigInt(), z.ToBigInt())
	})
	for i, s := range []ps.CurvePointSerializerModifyable{ps.BanderwagonShort, ps.BanderwagonLong,
		ps.BanderwagonLong.WithParameter("SinglePointHeader", []byte("h")).WithParameter("PerPointFooter", []byte("p")).WithParameter("GlobalSliceHeader", []byte("g")).WithEndianness(binary.BigEndian)} {
		s, n := s, []string{"BanderwagonShort", "BanderwagonLong", "derived serializer"}[i]
		var enc bytes.Buffer
		a, b := *xs3(0), *xs3(1)
		add(n+": writing points", func(cb func()) string {
			w := &cbWriter{cb: cb}
			k1, err := s.SerializeCurvePoint(w, xs3(0))
			k2, err2 := s.SerializeCurvePoints(w, cp.GenericPointSlice{&a, &b})
			k3, err3 := s.(sliceW).SerializeSlice(w, cp.CurvePointSlice_xtw_subgroup{*xs3(2), *xs3(1), *xs3(0)})
			return fmt.Sprintf("%d %v %d %v %d %v %x", k1, err, k2, err2, k3, err3, w.b.Bytes())
		})
		s.SerializeCurvePoint(&enc, xs3(0))
		s.SerializeCurvePoints(&enc, cp.GenericPointSlice{&a, &b})
		s.(sliceW).SerializeSlice(&enc, cp.CurvePointSlice_xtw_subgroup{*xs3(2), *xs3(1), *xs3(0)})
		data := append(enc.Bytes(), 77)
		add(n+": reading points", func(cb func()) string {
			r := &cbReader{bytes.NewReader(data), cb}
			var p cp.Point_xtw_full
			k1, err := s.DeserializeCurvePoint(r, common.UntrustedInput, &p)
			v := make([]cp.Point_axtw_subgroup, 2)
			k2, _, err2 := ps.DeserializeCurvePoints_Bounded(s, r, common.UntrustedInput, cp.CurvePointSlice_axtw_subgroup(v))
			u := make([]cp.Point_xtw_subgroup, 4)
			l, k3, err3 := s.(sliceR).DeserializeSlice(r, common.UntrustedInput, ps.UseExistingSlice(u))
			k4, err4 := s.DeserializeCurvePoint(r, common.UntrustedInput, &p)
			return show3(&p) + show3(&v[0]) + show3(&v[1]) + show3(&u[0]) + show3(&u[2]) + fmt.Sprint(k1, err, k2, err2, k3, l, err3, k4, err4)
		})
	}
	add("reporting invalid points", func(cb func()) string {
		calls := 0
		old := cp.SetNaPErrorHandler(nil)
		var inside bool
		cp.SetNaPErrorHandler(func(string, bool, ...cp.CurvePointPtrInterfaceBaseRead) bool {
			if inside {
				return old("", false)
			}
			inside = true
			calls++
			cb()
			inside = false
			return false
		})
		defer cp.SetNaPErrorHandler(old)
		var p cp.Point_xtw_full
		var q cp.Point_axtw_full
		var e cp.Point_efgh_full
		s := fmt.Sprint(p.IsEqual(&q), q.IsNeutralElement(), e.IsAtInfinity(), p.IsInSubgroup())
		e.Add(&p, &q)
		v := cp.CurvePointSlice_xtw_full{*xf3(0), {}, *xf3(1)}
		f := v.BatchNormalizeForZ()
		return s + fmt.Sprint(e.IsNaP(), f, calls) + show3(&v[0]) + show3(&v[2])
	})
	add("rendering errors", func(cb func()) string {
		s := cbStringer{cb}
		inner := ewd.NewErrorWithData_map[struct{}](io.EOF, "inner %v{S} %w", ewd.ReplacePreviousData, ewd.EnsureDataIsPresent, ewd.ParamMap{"S": s})
		outer := ewd.NewErrorWithData_map[struct{}](inner, "outer %v{S} %v{E} %!m>0{%s{S}} $w", ewd.ReplacePreviousData, ewd.EnsureDataIsPresent, ewd.ParamMap{"E": inner, "S": s})
		return inner.Error() + outer.Error() + fmt.Sprint(outer, outer.ValidateSyntax(), outer.ValidateError_Final(), outer.GetData_map()["E"] != nil)
	})
	add("formatting", func(cb func()) string {
		w := &cbWriter{cb: cb}
		a := fs3(50)
		u := fe.BigIntToUInt256(vk.Generic(51, vk.Two256))
		fmt.Fprintf(w, "%v %x %v %d", &a, &a, u, &u)
		fmt.Fprintf(w, "%v %v", cbStringer{cb}, a)
		return w.b.String()
	})
	return
}

func reenter() (out []scen) {
	ops := ops3()
	outer := opsR()
	want := make([]string, len(ops))
	for i := range ops {
		want[i] = ops[i].f()
	}
	nop := func() {}
	wants := map[string]string{}
	for _, o := range outer {
		wants[o.name] = o.f(nop)
	}
	for _, o := range outer {
		o := o
		wantO := o.f(nop)
		out = append(out, scen{name: o.name + " by way of user code that uses the library", parts: [2]int{1, 1}, limit: 1 << 30, setup: func() ([]func(), func() string) {
			bad := ""
			note := func(f string, a ...any) {
				if bad == "" {
					bad = fmt.Sprintf(f, a...)
				}
			}
			run := func() {
				try := func(name string, inner func() string, want string) {
					n := 0
					got := o.f(func() {
						n++
						if g := inner(); g != want {
							note("%s from within %s gives %q instead of %q", name, o.name, g, want)
						}
					})
					if got != wantO {
						note("%s gives %q instead of %q if the user code that it calls does: %s", o.name, got, wantO, name)
					}
					if n == 0 {
						note("%s never calls the user code", o.name)
					}
				}
				for i := range ops {
					try(ops[i].name, ops[i].f, want[i])
				}
				for _, o2 := range outer {
					if o2.name == "reporting invalid points" && o.name == o2.name {
						continue
					}
					try(o2.name, func() string { return o2.f(nop) }, o2.f(nop))
				}
			}
			return []func(){run}, func() string { return bad }
		}})
		// the user code panics at its k-th call; everything works as before afterwards
		out = append(out, scen{name: o.name + " by way of user code that panics", parts: [2]int{1, 1}, limit: 1 << 30, setup: func() ([]func(), func() string) {
			bad := ""
			return []func(){func() {
				calls := 0
				o.f(func() { calls++ })
				for k := 1; k <= calls && bad == ""; k++ {
					n, got, panicked := 0, "", true
					func() {
						defer func() { recover() }()
						got = o.f(func() {
							if n++; n == k {
								panic("user code fails")
							}
						})
						panicked = false
					}()
					if !panicked && !strings.Contains(got, "PANIC=") { // package fmt recovers panics of Stringers and says so
						bad = fmt.Sprintf("%s: the panic of call %d of the user code is lost", o.name, k)
					}
					if g := o.f(nop); g != wantO {
						bad = fmt.Sprintf("%s gives %q instead of %q after call %d of the user code has panicked", o.name, g, wantO, k)
					}
					for i := range ops {
						if g := ops[i].f(); g != want[i] {
							bad = fmt.Sprintf("%s gives %q instead of %q after %s whose user code panicked at call %d", ops[i].name, g, want[i], o.name, k)
						}
					}
					for _, o2 := range outer {
						if o2.f(nop) != wants[o2.name] {
							bad = fmt.Sprintf("%s is wrong after %s whose user code panicked at call %d", o2.name, o.name, k)
						}
					}
				}
			}}, func() string { return bad }
		}})
	}
	return
}
