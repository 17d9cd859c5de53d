//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"io"
	"reflect"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/internal/errorTransform"
	"github.com/GottfriedHerold/Bandersnatch/internal/errorconsts"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

// isEOF claims to be io.EOF
type isEOF struct{}

func (isEOF) Error() string        { return "claims to be EOF" }
func (isEOF) Is(target error) bool { return target == io.EOF }

var i06other = errors.New("other")

// ech is a chain of errors with its model
type ech struct {
	err  error
	eof  bool           // wraps io.EOF
	data map[string]any // attached data
	name string
}

type i06data struct{ A, B int }

func i06chains(depth int) (out []ech) {
	level := []ech{
		{io.EOF, true, nil, "EOF"}, {io.ErrUnexpectedEOF, false, nil, "UEOF"}, {i06other, false, nil, "other"}, {isEOF{}, true, nil, "Is"},
	}
	out = append(out, level...)
	merge := func(m map[string]any, keep bool, kv ...any) map[string]any {
		r := map[string]any{}
		for k, v := range m {
			r[k] = v
		}
		for i := 0; i < len(kv); i += 2 {
			if _, ok := r[kv[i].(string)]; !ok || !keep {
				r[kv[i].(string)] = kv[i+1]
			}
		}
		return r
	}
	wraps := []func(c ech) ech{
		func(c ech) ech { return ech{fmt.Errorf("w: %w", c.err), c.eof, c.data, "w(" + c.name + ")"} },
		func(c ech) ech { return ech{fmt.Errorf("v: %v", c.err), false, nil, "v(" + c.name + ")"} },
		func(c ech) ech {
			return ech{ewd.NewErrorWithData_any_params(c.err, "", ewd.ReplacePreviousData, "A", 1), c.eof, merge(c.data, false, "A", 1), "A(" + c.name + ")"}
		},
		func(c ech) ech {
			return ech{ewd.NewErrorWithData_any_params(c.err, "msg %v{A}", ewd.ReplacePreviousData, "A", 2, "B", 3), c.eof, merge(c.data, false, "A", 2, "B", 3), "AB(" + c.name + ")"}
		},
		func(c ech) ech {
			return ech{ewd.NewErrorWithData_any_params(c.err, "", ewd.PreferPreviousData, "A", nil, "C", []byte{1}), c.eof, merge(c.data, true, "A", nil, "C", []byte{1}), "AC(" + c.name + ")"}
		},
		func(c ech) ech {
			return ech{ewd.NewErrorWithData_any_params(c.err, "nothing", ewd.ReplacePreviousData), c.eof, c.data, "0(" + c.name + ")"}
		},
		func(c ech) ech {
			return ech{ewd.NewErrorWithData_struct(c.err, "", &errorconsts.ReadErrorData{PartialRead: true, BytesRead: 5, ActuallyRead: []byte{7}, IoError: true}, ewd.ReplacePreviousData), c.eof,
				merge(c.data, false, "PartialRead", true, "BytesRead", 5, "ActuallyRead", []byte{7}, "IoError", true), "R(" + c.name + ")"}
		},
		func(c ech) ech {
			if m, ok := c.err.(ewd.IncomparableMaker); ok {
				return ech{ewd.MakeErrorIncomparable(m), c.eof, c.data, "I(" + c.name + ")"}
			}
			return ech{fmt.Errorf("%w, %w", i06other, c.err), c.eof, nil, "J(" + c.name + ")"} // data is not looked up in joined errors
		},
		func(c ech) ech {
			return ech{errors.Join(io.ErrUnexpectedEOF, c.err), c.eof, nil, "U(" + c.name + ")"}
		},
	}
	for d := 0; d < depth; d++ {
		var next []ech
		for _, c := range level {
			for _, w := range wraps {
				next = append(next, w(c))
			}
		}
		out = append(out, next...)
		level = next
	}
	return
}

func i06sameData(err error, want map[string]any) string {
	got := ewd.GetData_map(err)
	if len(got) == 0 && len(want) == 0 {
		return ""
	}
	if !reflect.DeepEqual(got, map[string]any(want)) {
		return fmt.Sprintf("data is %v, expected %v", got, want)
	}
	return ""
}

func i06(r *vk.Run) {
	depth := 4
	if r.Thorough {
		depth = 5
	}
	cs := i06chains(depth)
	r.Extra("error_chains", len(cs))
	const chunk = 64
	r.Each((len(cs)+chunk-1)/chunk, func(i int) string { return fmt.Sprintf("UnexpectEOF: chains from %v", cs[i*chunk].name) }, func(t *vk.T, i int) {
		for _, c := range cs[i*chunk : min(len(cs), (i+1)*chunk)] {
			t.State(c.name)
			if s := i06sameData(c.err, c.data); s != "" {
				t.Failf("%v: %v before anything is done", c.name, s)
				continue
			}
			e := c.err
			errorTransform.UnexpectEOF(&e)
			t.Trans(1)
			i06unexpect(t, "UnexpectEOF", c, e)
			// idempotent
			e2 := e
			errorTransform.UnexpectEOF(&e2)
			t.Trans(1)
			if reflect.TypeOf(e) != reflect.TypeOf(e2) || errors.Is(e2, io.EOF) || i06sameData(e2, ewd.GetData_map(e)) != "" {
				t.Failf("%v: UnexpectEOF twice is not the same as once", c.name)
			}
			if s := i06sameData(c.err, c.data); s != "" || errors.Is(c.err, io.EOF) != c.eof {
				t.Failf("%v: UnexpectEOF changes the original error (%v)", c.name, s)
			}
			a := ewd.NewErrorWithData_params[struct{}](c.err, "", ewd.ReplacePreviousData, ewd.EnsureDataIsPresent)
			i06typed(t, "struct{}", ech{a, c.eof, c.data, "S(" + c.name + ")"}, a)
			i06typedVia[i06data](t, "i06data", c, &i06data{10, 20}, map[string]any{"A": 10, "B": 20})
			i06typedVia[errorconsts.ReadErrorData](t, "ReadErrorData", c, &errorconsts.ReadErrorData{PartialRead: true, BytesRead: 1, IoError: true},
				map[string]any{"PartialRead": true, "BytesRead": 1, "ActuallyRead": []byte(nil), "IoError": true})
			i06typedVia[errorconsts.WriteErrorData](t, "WriteErrorData", c, &errorconsts.WriteErrorData{PartialWrite: true, BytesWritten: 1, IoError: true},
				map[string]any{"PartialWrite": true, "BytesWritten": 1, "IoError": true})
			i06typedVia[errorTransform.WriteErrorData](t, "errorTransform.WriteErrorData", c, &errorTransform.WriteErrorData{PartialWrite: true, BytesWritten: 1},
				map[string]any{"PartialWrite": true, "BytesWritten": 1})
		}
	})
	r.Case("UnexpectEOF of nil", func(t *vk.T) {
		var e error
		errorTransform.UnexpectEOF(&e)
		var d errorconsts.DeserializationError
		errorTransform.UnexpectEOF2(&d)
		t.Trans(2)
		if e != nil || d != nil {
			t.Failf("nil becomes %v, %v", e, d)
		}
	})
	r.Each(70, func(i int) string { return fmt.Sprintf("I/O error data for %d bytes", i-2) }, func(t *vk.T, i int) {
		n := i - 2
		for m := -2; m < 70; m++ {
			t.Eval(2)
			buf := []byte{byte(n), 1}
			rd := errorconsts.NewIntermediateReadErrorData(n, m, buf)
			wd := errorconsts.NewIntermediateWriteErrorData(n, m)
			partial := n != 0 && n != m
			if want := (errorconsts.ReadErrorData{PartialRead: partial, BytesRead: n, ActuallyRead: buf, IoError: true}); !reflect.DeepEqual(*rd, want) {
				t.Failf("NewIntermediateReadErrorData(%d, %d)=%+v, expected %+v", n, m, *rd, want)
			}
			if want := (errorconsts.WriteErrorData{PartialWrite: partial, BytesWritten: n, IoError: true}); !reflect.DeepEqual(*wd, want) {
				t.Failf("NewIntermediateWriteErrorData(%d, %d)=%+v, expected %+v", n, m, *wd, want)
			}
			rd2 := errorconsts.NewIntermediateReadErrorData(n, m, nil)
			if rd2 == rd || rd2.ActuallyRead != nil {
				t.Failf("NewIntermediateReadErrorData(%d, %d, nil)=%+v", n, m, rd2)
			}
			// the data travels through an error
			e := ewd.NewErrorWithData_struct(io.EOF, "", rd)
			if got := ewd.GetData_struct[errorconsts.ReadErrorData](e, ewd.EnsureDataIsPresent); !reflect.DeepEqual(got, *rd) {
				t.Failf("read error data %+v becomes %+v", *rd, got)
			}
			f := ewd.NewErrorWithData_struct(io.EOF, "", wd)
			if got := ewd.GetData_struct[errorconsts.WriteErrorData](f, ewd.EnsureDataIsPresent); got != *wd {
				t.Failf("write error data %+v becomes %+v", *wd, got)
			}
		}
	})
	r.Case("constants", func(t *vk.T) { i06consts(t) })
	i06clone(r)
}

func i06unexpect(t *vk.T, fn string, c ech, e error) {
	if !c.eof {
		if reflect.TypeOf(e) != reflect.TypeOf(c.err) || fmt.Sprint(e) != fmt.Sprint(c.err) || i06sameData(e, c.data) != "" || reflect.TypeOf(e).Comparable() && reflect.TypeOf(e).Kind() == reflect.Pointer && e != c.err {
			t.Failf("%s changes %v, which does not wrap EOF", fn, c.name)
		}
		return
	}
	if errors.Is(e, io.EOF) || !errors.Is(e, io.ErrUnexpectedEOF) {
		t.Failf("%s(%v): Is(EOF)=%v, Is(ErrUnexpectedEOF)=%v", fn, c.name, errors.Is(e, io.EOF), errors.Is(e, io.ErrUnexpectedEOF))
	}
	if s := i06sameData(e, c.data); s != "" {
		t.Failf("%s(%v): %v", fn, c.name, s)
	}
	if len(c.data) == 0 && fn == "UnexpectEOF" && e != io.ErrUnexpectedEOF {
		t.Failf("%s(%v): without data, the result is not io.ErrUnexpectedEOF itself", fn, c.name)
	}
}

func i06typed[T any](t *vk.T, tn string, c ech, a ewd.ErrorWithData[T]) {
	want := ewd.GetData_struct[T](a, ewd.EnsureDataIsPresent)
	e := a
	did, val := vk.Panics(func() { errorTransform.UnexpectEOF2(&e) })
	t.Trans(1)
	if did {
		t.Failf("UnexpectEOF2[%s](%v) panics: %v", tn, c.name, val)
		return
	}
	i06unexpect(t, "UnexpectEOF2", c, e)
	if got := e.GetData_struct(); !reflect.DeepEqual(got, want) {
		t.Failf("UnexpectEOF2[%s](%v): data %+v becomes %+v", tn, c.name, want, got)
	}
	if s := i06sameData(a, c.data); s != "" {
		t.Failf("UnexpectEOF2[%s](%v): changes the original error (%v)", tn, c.name, s)
	}
}

// i06typedVia attaches the data to the chain first
func i06typedVia[T any](t *vk.T, tn string, c ech, data *T, kv map[string]any) {
	d := map[string]any{}
	for k, v := range c.data {
		d[k] = v
	}
	for k, v := range kv {
		d[k] = v
	}
	a := ewd.NewErrorWithData_struct(c.err, "", data, ewd.ReplacePreviousData)
	i06typed[T](t, tn, ech{a, c.eof, d, tn + "(" + c.name + ")"}, a)
}

func i06consts(t *vk.T) {
	if !reflect.DeepEqual(errorconsts.NoReadAttempt, errorconsts.ReadErrorData{}) || errorconsts.NoWriteAttempt != (errorconsts.WriteErrorData{}) {
		t.Failf("errorconsts: NoReadAttempt=%+v, NoWriteAttempt=%+v", errorconsts.NoReadAttempt, errorconsts.NoWriteAttempt)
	}
	if !reflect.DeepEqual(errorTransform.NoReadAttempt, errorTransform.ReadErrorData{}) || errorTransform.NoWriteAttempt != (errorTransform.WriteErrorData{}) {
		t.Failf("errorTransform: NoReadAttempt=%+v, NoWriteAttempt=%+v", errorTransform.NoReadAttempt, errorTransform.NoWriteAttempt)
	}
	e := ewd.NewErrorWithData_struct(i06other, "", &errorconsts.ReadErrorData{PartialRead: true, BytesRead: 3, ActuallyRead: []byte{1}, IoError: true})
	w := ewd.NewErrorWithData_struct(i06other, "", &errorconsts.WriteErrorData{PartialWrite: true, BytesWritten: 3, IoError: true})
	for name, want := range map[string]any{errorconsts.FIELDNAME_PARTIAL_READ: true, errorconsts.FIELDNAME_BYTES_READ: 3, errorconsts.FIELDNAME_ACTUALLY_READ: []byte{1}, errorconsts.FIELDNAME_IO_ERROR: true} {
		if v, ok := ewd.GetParameter(e, name); !ok || !reflect.DeepEqual(v, want) {
			t.Failf("field name constant %q: %v, %v", name, v, ok)
		}
	}
	for name, want := range map[string]any{errorconsts.FIELDNAME_PARTIAL_WRITE: true, errorconsts.FIELDNAME_BYTES_WRITTEN: 3, errorconsts.FIELDNAME_IO_ERROR: true} {
		if v, ok := ewd.GetParameter(w, name); !ok || v != want {
			t.Failf("field name constant %q: %v, %v", name, v, ok)
		}
	}
	// the designated errors are pairwise different, also for errors.Is, except for the documented wrapping
	all := map[string]error{
		"WillNotSerializePointOutsideSubgroup": be.ErrWillNotSerializePointOutsideSubgroup, "XNotInSubgroup": be.ErrXNotInSubgroup, "XNotOnCurve": be.ErrXNotOnCurve, "YNotOnCurve": be.ErrYNotOnCurve,
		"NotInSubgroup": be.ErrNotInSubgroup, "NotOnCurve": be.ErrNotOnCurve, "WrongSignY": be.ErrWrongSignY, "UnexpectedNegativeZero": be.ErrUnexpectedNegativeZero,
		"InvalidZeroSignX": be.ErrInvalidZeroSignX, "InvalidSign": be.ErrInvalidSign, "DidNotReadExpectedString": be.ErrDidNotReadExpectedString, "SizeDoesNotFitInt32": be.ErrSizeDoesNotFitInt32,
		"CannotSerializePointAtInfinity": be.ErrCannotSerializePointAtInfinity, "CannotSerializeNaP": be.ErrCannotSerializeNaP, "CannotDeserializeNaP": be.ErrCannotDeserializeNaP, "CannotDeserializeXYAllZero": be.ErrCannotDeserializeXYAllZero,
		"EOF": io.EOF, "UnexpectedEOF": io.ErrUnexpectedEOF,
	}
	for n1, e1 := range all {
		for n2, e2 := range all {
			t.Eval(1)
			want := n1 == n2 || n1 == "CannotDeserializeXYAllZero" && n2 == "CannotDeserializeNaP"
			if errors.Is(e1, e2) != want {
				t.Failf("errors.Is(%s, %s)=%v", n1, n2, !want)
			}
		}
	}
}

// ---- common.Clone

type clExact struct{ a, b int }
type clAny struct{ a, b int }
type clIface struct{ a, b int }
type clNone struct{ a, b int }
type clArgs struct{ a, b int }
type clTwo struct{ a, b int }
type clWrong struct{ a, b int }
type clValue struct{ a, b int }
type clEmbedded struct {
	clExact
	c int
}
type cloner interface{ get() int }

func (c *clExact) Clone() *clExact      { d := *c; return &d }
func (c *clAny) Clone() any             { d := *c; return &d }
func (c *clIface) Clone() cloner        { d := *c; return &d }
func (c *clIface) get() int             { return c.a }
func (c *clArgs) Clone(int) *clArgs     { d := *c; return &d }
func (c *clTwo) Clone() (*clTwo, error) { d := *c; return &d, nil }
func (c *clWrong) Clone() *clExact      { return &clExact{c.a, c.b} }
func (c clValue) Clone() *clValue       { return &c }

func i06cl[T any, P interface{ *T }](t *vk.T, name string, mk func(i int) T, eq func(a, b P) bool, mut func(P), panics bool) {
	for i := 0; i < 20; i++ {
		v := mk(i)
		orig := mk(i)
		var q P
		did, val := vk.Panics(func() { q = common.Clone(P(&v)) })
		t.Trans(1)
		if did != panics {
			t.Failf("Clone of %s: panics=%v (%v), expected %v", name, did, val, panics)
			return
		}
		if did {
			continue
		}
		if q == nil || q == P(&v) || !eq(q, P(&orig)) {
			t.Failf("Clone of %s (%d): not an equal copy", name, i)
			return
		}
		mut(q)
		if !eq(P(&v), P(&orig)) {
			t.Failf("Clone of %s (%d): modifying the copy changes the original", name, i)
		}
	}
}

func i06clone(r *vk.Run) {
	r.Case("common.Clone", func(t *vk.T) {
		i06cl(t, "type with Clone() *T", func(i int) clExact { return clExact{i, -i} }, func(a, b *clExact) bool { return *a == *b }, func(a *clExact) { a.a++ }, false)
		i06cl(t, "type with Clone() any", func(i int) clAny { return clAny{i, -i} }, func(a, b *clAny) bool { return *a == *b }, func(a *clAny) { a.b++ }, false)
		i06cl(t, "type with Clone() interface", func(i int) clIface { return clIface{i, -i} }, func(a, b *clIface) bool { return *a == *b }, func(a *clIface) { a.b++ }, false)
		i06cl(t, "type with Clone on values", func(i int) clValue { return clValue{i, -i} }, func(a, b *clValue) bool { return *a == *b }, func(a *clValue) { a.b++ }, false)
		i06cl(t, "type without Clone", func(i int) clNone { return clNone{i, -i} }, nil, nil, true)
		i06cl(t, "type with Clone(int)", func(i int) clArgs { return clArgs{i, -i} }, nil, nil, true)
		i06cl(t, "type with Clone() of two results", func(i int) clTwo { return clTwo{i, -i} }, nil, nil, true)
		i06cl(t, "type with Clone() to another type", func(i int) clWrong { return clWrong{i, -i} }, nil, nil, true)
		i06cl(t, "type with embedded Clone() to another type", func(i int) clEmbedded { return clEmbedded{clExact{i, -i}, i} }, nil, nil, true)
		_ = ps.BanderwagonShort
	})
}
