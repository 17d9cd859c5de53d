//go:build go1.22

package main

import (
	"fmt"
	"reflect"

	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

// shapeT is one struct type of the enumeration of embedding structures.
type shapeT struct {
	t        reflect.Type
	suitable func() error
	check    func([]string)
	has      func(string)
	// trip creates an error from a value, whose X fields are filled with 1, 2, 3, ... in depth-first order, and reads it back
	trip func() (m ewd.ParamMap, back reflect.Value)
}

func shape[T any]() shapeT {
	return shapeT{reflect.TypeOf((*T)(nil)).Elem(), ewd.StructSuitableForErrorsWithData[T], ewd.CheckParametersForStruct_all[T], ewd.CheckParameterForStruct[T],
		func() (ewd.ParamMap, reflect.Value) {
			var v T
			n := 0
			fillX(reflect.ValueOf(&v).Elem(), &n)
			e := ewd.NewErrorWithData_struct(nil, "m", &v)
			b := e.GetData_struct()
			return e.GetData_map(), reflect.ValueOf(b)
		}}
}

func fillX(v reflect.Value, n *int) {
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Kind() == reflect.Struct {
			fillX(v.Field(i), n)
		} else {
			*n++
			v.Field(i).SetInt(int64(*n))
		}
	}
}

// xPaths lists the index sequences of all fields X, depth first.
func xPaths(t reflect.Type, prefix []int) (r [][]int) {
	for i := 0; i < t.NumField(); i++ {
		p := append(append([]int(nil), prefix...), i)
		if f := t.Field(i); f.Type.Kind() == reflect.Struct {
			r = append(r, xPaths(f.Type, p)...)
		} else {
			r = append(r, p)
		}
	}
	return
}

func e04shapes(r *vk.Run) {
	r.Each(len(shapes), func(i int) string { return fmt.Sprintf("embedding structure #%d", i) }, func(t *vk.T, i int) {
		s := shapes[i]
		paths := xPaths(s.t, nil)
		top := -1 // the unique shallowest
		for k, p := range paths {
			if top < 0 || len(p) < len(paths[top]) {
				top = k
			}
		}
		want := true
		for k, p := range paths {
			if k == top {
				continue
			}
			if len(p) == len(paths[top]) {
				want = false
			}
			for j := 0; j < len(paths[top])-1; j++ {
				want = want && p[j] == paths[top][j]
			}
		}
		desc := fmt.Sprintf("struct whose fields X are at %v", paths)
		t.State("shape", fmt.Sprint(i))
		for k := 0; k < 2; k++ {
			var err error
			if did, v := vk.Panics(func() { err = s.suitable() }); did {
				t.Fatalf("StructSuitableForErrorsWithData panics for a %s: %v", desc, v)
			}
			if (err == nil) != want {
				t.Fatalf("StructSuitableForErrorsWithData for a %s: %v, expected suitable=%v", desc, err, want)
			}
			t.Eval(1)
		}
		names := []string{}
		if top >= 0 {
			names = append(names, "X")
		}
		for _, l := range [][]string{{}, {"X"}, {"X", "X"}, {"X", "Y"}, {"Y"}} {
			good := want && reflect.DeepEqual(l, names)
			if did, v := vk.Panics(func() { s.check(l) }); did == good {
				t.Failf("CheckParametersForStruct_all(%q) for a %s panics=%v (%v)", l, desc, did, v)
			}
		}
		if did, _ := vk.Panics(func() { s.has("X") }); did == (want && top >= 0) {
			t.Failf("CheckParameterForStruct(X) for a %s panics=%v", desc, did)
		}
		t.Eval(6)
		var m ewd.ParamMap
		var back reflect.Value
		did, v := vk.Panics(func() { m, back = s.trip() })
		if did == want {
			t.Fatalf("creating an error from a %s panics=%v (%v)", desc, did, v)
		}
		if !want {
			return
		}
		wm := ewd.ParamMap{}
		if top >= 0 {
			wm["X"] = top + 1
		}
		if len(m) != len(wm) || m["X"] != wm["X"] {
			t.Failf("data of an error created from a %s (values 1, 2, ...): %v, expected %v", desc, m, wm)
		}
		for k, p := range paths {
			w := int64(0)
			if k == top {
				w = int64(top + 1)
			}
			if g := back.FieldByIndex(p).Int(); g != w {
				t.Failf("reading back a %s (values 1, 2, ...): %d at %v, expected %d", desc, g, p, w)
			}
		}
		t.Trace(1)
	})
}
