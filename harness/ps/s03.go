//go:build go1.22

package main

import (
	"bytes"
	"fmt"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

func s03(r *vk.Run) {
	quietNaPs()
	var specs []spec
	for _, f := range formats() {
		for _, s := range singleSpecs(f, 0) {
			b := baseSpec(f)
			if s.h1 == b.h1 && s.h2 == b.h2 && (s.fr == b.fr || r.Thorough || !s.be) {
				specs = append(specs, s)
			}
		}
	}
	chunks := []int{1, 31, 100}
	if r.Thorough {
		chunks = []int{1, 2, 3, 5, 7, 16, 31, 32, 33, 63, 64, 100}
	}
	r.Extra("configurations", len(specs))
	ms := []mp{mk(vk.BI(0), tN), mk(vk.BI(1), tN), mk(vk.Generic(101, vk.R), tN)}

	type job struct {
		s spec
		k int
	}
	var jobs []job
	for _, s := range specs {
		for k := 0; k <= s.singleLen(); k++ {
			jobs = append(jobs, job{s, k})
		}
	}
	r.Each(len(jobs), func(i int) string { return fmt.Sprintf("read %v/fault after %d bytes", jobs[i].s, jobs[i].k) }, func(t *vk.T, i int) {
		s, k := jobs[i].s, jobs[i].k
		_, ds := s.views()
		total := s.singleLen()
		for mi, m := range ms {
			a := m.aff()
			e := s.single(a.x, a.y)
			for _, kd := range streamErrs {
				for _, ch := range chunks {
					for mode := 0; mode < 4; mode++ {
						for vi, d := range ds {
							typ := (mi + ch + mode + vi + k) % nTypes
							for _, tr := range trusts {
								in := filled(typ)
								before := copyRaw(in)
								fr := &faultReader{data: append(append([]byte{}, e...), make([]byte, 64)...), k: k, chunk: ch, err: kd.err, tail: mode&1 == 1, empty: mode&2 == 2}
								n, err := d.DeserializeCurvePoint(fr, tr, in)
								t.Eval(1)
								desc := fmt.Sprintf("%s into %s (trusted %v), stream with chunks of %d and %s after %d bytes (mode %d)", viewNames[vi], typeNames[typ], tr.Bool(), ch, kd.name, k, mode)
								if n != fr.pos {
									t.Failf("%s: %d bytes reported, %d delivered", desc, n, fr.pos)
								}
								if k == total {
									if err != nil {
										t.Failf("%s: all bytes were available, but error %v", desc, err)
									} else if bad := shows(in, m); bad != "" {
										t.Failf("%s: %s", desc, bad)
									}
									continue
								}
								if err == nil {
									t.Failf("%s: no error", desc)
									continue
								}
								if n != k {
									t.Failf("%s: %d bytes read", desc, n)
								}
								if bad := wrapsRead(err, kd.err, n); bad != "" {
									t.Failf("%s: %s", desc, bad)
								}
								if bad := badText(err.Error()); bad != "" {
									t.Failf("%s: %s", desc, bad)
								}
								if g := err.GetData_struct(); g.PartialRead != (n != 0) {
									t.Failf("%s: error data %+v after %d of %d bytes", desc, g, n, total)
								}
								if k < len(s.fr[sph])+s.plen() && !sameRaw(in, before) {
									t.Failf("%s: the receiver was modified", desc)
								}
							}
						}
					}
				}
				t.StateH(vk.Hash64(fmt.Sprint("r", s, k, mi, kd.name)))
			}
		}
	})
	r.Each(len(jobs), func(i int) string { return fmt.Sprintf("write %v/fault after %d bytes", jobs[i].s, jobs[i].k) }, func(t *vk.T, i int) {
		s, k := jobs[i].s, jobs[i].k
		sr := s.build()
		total := s.singleLen()
		for _, m := range ms {
			a := m.aff()
			e := s.single(a.x, a.y)
			for typ := 0; typ < nTypes; typ++ {
				for _, kd := range streamErrs {
					for eager := 0; eager < 2; eager++ {
						p := copyRaw(reps(typ, m, 0)[0].p)
						w := &faultWriter{k: k, err: kd.err, eager: eager == 1}
						var n int
						var err be.SerializationError
						n, err = sr.SerializeCurvePoint(w, p)
						t.Eval(1)
						desc := fmt.Sprintf("writing %s with %s after %d bytes (eager %v)", typeNames[typ], kd.name, k, eager)
						if n != len(w.got) || !bytes.Equal(w.got, e[:len(w.got)]) {
							t.Failf("%s: %d bytes reported, got %x", desc, n, w.got)
						}
						if k == total && eager == 0 {
							if err != nil || n != total {
								t.Failf("%s: no fault, but n=%d err=%v", desc, n, err)
							}
							continue
						}
						if err == nil {
							t.Failf("%s: no error", desc)
							continue
						}
						if bad := wrapsWrite(err, kd.err); bad != "" {
							t.Failf("%s: %s", desc, bad)
						}
						if bad := badText(err.Error()); bad != "" {
							t.Failf("%s: %s", desc, bad)
						}
						if g := err.GetData_struct(); g.PartialWrite != (n != 0 && n != total) {
							t.Failf("%s: error data %+v after %d of %d bytes", desc, g, n, total)
						}
						if bad := shows(p, m); bad != "" {
							t.Failf("%s changed the point: %s", desc, bad)
						}
					}
					t.StateH(vk.Hash64(fmt.Sprint("w", s, k, typ, kd.name)))
				}
			}
		}
	})
	// slices and batches: every fault offset as well
	s04subset(r, "slice read", s04read)
	s04subset(r, "slice write", s04write)
	s04subset(r, "batch", s04batch)
	r.Sample("BanderwagonLong,SinglePointHeader=\"\\x00\",SinglePointFooter=\"\\xff\\x80\": stream delivers single bytes and io.EOF together with byte 33")
}
