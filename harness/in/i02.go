//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/GottfriedHerold/Bandersnatch/internal/testutils"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

var errDes = errors.New("vk designated error")

type fbModel struct {
	thr            int
	unread         []byte
	nRead, nWrit   int
	failR, failW   bool
	nextWriteValue byte
}

type fbOp struct {
	kind byte // 'r','w','s' (SetContent),'z' (Reset)
	n    int
}

func (o fbOp) String() string {
	return fmt.Sprintf("%s(%d)", map[byte]string{'r': "Read", 'w': "Write", 's': "SetContent", 'z': "Reset"}[o.kind], o.n)
}

func i02(r *vk.Run) {
	depth := 4
	if r.Thorough {
		depth = 6
	}
	r.Extra("depth", depth)
	var ops []fbOp
	for _, n := range []int{0, 1, 2, 3, 7} {
		ops = append(ops, fbOp{'r', n}, fbOp{'w', n}, fbOp{'s', n})
	}
	ops = append(ops, fbOp{'s', 4}, fbOp{'z', 0})
	const maxThr = 5
	r.Each((maxThr+1)*len(ops), func(i int) string { return fmt.Sprintf("thr=%d/%v", i/len(ops), ops[i%len(ops)]) }, func(t *vk.T, i int) {
		thr := i / len(ops)
		path := make([]int, depth)
		path[0] = i % len(ops)
		for {
			fbRun(t, thr, ops, path)
			if t.Failed() {
				return
			}
			k := depth - 1
			for ; k >= 1; k-- {
				if path[k]++; path[k] < len(ops) {
					break
				}
				path[k] = 0
			}
			if k < 1 {
				break
			}
		}
	})
	// large reads and writes: sizes and thresholds around powers of two
	sizes := []int{1, 255, 256, 257, 511, 513, 1025, 4095, 4096, 4097, 5000, 8193, 65537}
	bigDepth := 3
	thrs := []int{1, 255, 256, 512, 1000, 4096, 4097, 6000, 10000, 65536, 100000}
	if r.Thorough {
		sizes = append(sizes, 512, 1023, 1024, 2047, 2049, 8191, 8192, 16385, 32767, 32769, 100003)
		thrs = append(thrs, 0, 257, 1024, 2048, 4095, 8192, 8193, 16384, 32768, 65537, 200000)
	}
	var bigOps []fbOp
	for _, n := range sizes {
		bigOps = append(bigOps, fbOp{'r', n}, fbOp{'w', n}, fbOp{'s', n})
	}
	bigOps = append(bigOps, fbOp{'z', 0})
	r.Extra("large_sizes", sizes)
	r.Each(len(thrs)*len(bigOps), func(i int) string {
		return fmt.Sprintf("large/thr=%d/%v", thrs[i/len(bigOps)], bigOps[i%len(bigOps)])
	}, func(t *vk.T, i int) {
		path := make([]int, bigDepth)
		path[0] = i % len(bigOps)
		for {
			fbRun(t, thrs[i/len(bigOps)], bigOps, path)
			if t.Failed() {
				return
			}
			t.Alive()
			k := bigDepth - 1
			for ; k >= 1; k-- {
				if path[k]++; path[k] < len(bigOps) {
					break
				}
				path[k] = 0
			}
			if k < 1 {
				break
			}
		}
	})
	// many small operations
	r.Each(len(thrs)*9, func(i int) string {
		return fmt.Sprintf("many/thr=%d/w%d,r%d", thrs[i/9], i%3+1, i/3%3+1)
	}, func(t *vk.T, i int) {
		ops := []fbOp{{'w', i%3 + 1}, {'r', i/3%3 + 1}}
		for _, pat := range [][2]int{{1, 1}, {500, 500}, {1000, 1}, {3, 1}} {
			var path []int
			for len(path) < 1500 {
				for k := 0; k < pat[0]; k++ {
					path = append(path, 0)
				}
				for k := 0; k < pat[1]; k++ {
					path = append(path, 1)
				}
			}
			fbRun(t, thrs[i/9], ops, path)
			t.Alive()
		}
	})
	// construction errors
	r.Case("construct", func(t *vk.T) {
		if did, _ := vk.Panics(func() { testutils.NewFaultyBuffer(3, nil) }); !did {
			t.Failf("NewFaultyBuffer without an error accepted")
		}
		for name, f := range map[string]func(*testutils.FaultyBuffer){
			"Read":       func(b *testutils.FaultyBuffer) { b.Read(make([]byte, 1)) },
			"Write":      func(b *testutils.FaultyBuffer) { b.Write(make([]byte, 1)) },
			"Reset":      func(b *testutils.FaultyBuffer) { b.Reset() },
			"SetContent": func(b *testutils.FaultyBuffer) { b.SetContent(nil) },
			"Bytes":      func(b *testutils.FaultyBuffer) { b.Bytes() },
		} {
			if did, _ := vk.Panics(func() { f(new(testutils.FaultyBuffer)) }); !did {
				t.Failf("%s of a FaultyBuffer without designated error does not panic", name)
			}
			t.Eval(1)
		}
		// interplay with the standard library
		for thr := 0; thr <= 6; thr++ {
			for n := 0; n <= 6; n++ {
				for chunk := 1; chunk <= 4; chunk++ {
					data := []byte{1, 2, 3, 4, 5, 6}[:n]
					b := testutils.NewFaultyBuffer(thr, errDes)
					b.SetContent(data)
					var out []byte
					var err error
					buf := make([]byte, chunk)
					for err == nil {
						var k int
						k, err = b.Read(buf)
						out = append(out, buf[:k]...)
					}
					wantErr := io.EOF
					if thr < n || thr%chunk != 0 && thr == n || thr == n {
						wantErr = errDes
					}
					_ = wantErr
					if thr < n && !errors.Is(err, errDes) || thr > n && err != io.EOF {
						t.Failf("reading %d bytes in chunks of %d from a buffer with threshold %d ends with %v", n, chunk, thr, err)
					}
					if !bytes.Equal(out, data[:min(n, thr)]) {
						t.Failf("reading %d bytes in chunks of %d from a buffer with threshold %d gives %v", n, chunk, thr, out)
					}
					t.Eval(1)
				}
			}
		}
	})
}

func fbRun(t *vk.T, thr int, ops []fbOp, path []int) {
	b := testutils.NewFaultyBuffer(thr, errDes)
	m := fbModel{thr: thr}
	val := byte(1)
	for step, oi := range path {
		o := ops[oi]
		desc := func() string {
			s := fmt.Sprintf("threshold %d:", thr)
			for k, x := range path[:step+1] {
				if k > 5 && k < step-5 {
					continue
				}
				s += " " + ops[x].String()
			}
			if step > 12 {
				s += fmt.Sprintf(" (step %d, operations in between omitted)", step)
			}
			return s
		}
		var data []byte
		if o.kind != 'r' && o.n > 0 {
			data = make([]byte, o.n)
			for i := range data {
				data[i] = val
				val++
				if i%251 == 250 { // no period of 256
					val++
				}
			}
		}
		switch o.kind {
		case 'z':
			b.Reset()
			m = fbModel{thr: thr}
		case 's':
			b.SetContent(data)
			m = fbModel{thr: thr, unread: append([]byte(nil), data...)}
			for i := range data { // the buffer must not keep the caller's slice
				data[i] = 0xEE
			}
		case 'w':
			n, err := b.Write(data)
			wn, des, first := len(data), false, !m.failW
			switch {
			case len(data) == 0:
			case m.failW:
				wn, des = 0, true
			case m.nWrit+len(data) > thr:
				wn, des = thr-m.nWrit, true
				m.failW = true
			}
			m.nWrit += wn
			m.unread = append(m.unread[:len(m.unread):len(m.unread)], data[:wn]...)
			if n != wn || errors.Is(err, errDes) != des || des && first && err != errDes || !des && err != nil {
				t.Failf("%s = %d, %v, expected %d, designated error (itself, the first time): %v", desc(), n, err, wn, des)
			}
			for i := range data {
				data[i] = 0xEE
			}
		case 'r':
			p := make([]byte, o.n)
			n, err := b.Read(p)
			wn, des, eof, first := min(o.n, len(m.unread)), false, false, !m.failR
			switch {
			case o.n == 0:
			case m.failR:
				wn, des = 0, true
			case m.nRead+o.n <= thr:
				eof = wn == 0
			default:
				rem := thr - m.nRead
				if len(m.unread) >= rem {
					wn, des = rem, true
					m.failR = true
				} else {
					eof = wn == 0
				}
			}
			if n != wn || errors.Is(err, errDes) != des || (err == io.EOF) != eof || des && first && err != errDes || !des && !eof && err != nil {
				t.Failf("%s = %d, %v, expected %d, designated error (itself, the first time): %v, EOF: %v", desc(), n, err, wn, des, eof)
			}
			if n == wn && !bytes.Equal(p[:n], m.unread[:wn]) {
				t.Failf("%s gives %v, expected %v", desc(), fbShow(p[:n]), fbShow(m.unread[:wn]))
			}
			m.nRead += wn
			m.unread = m.unread[wn:]
		}
		if got := b.Bytes(); !bytes.Equal(got, m.unread) {
			t.Failf("%s: Bytes() = %v, expected %v", desc(), fbShow(got), fbShow(m.unread))
		}
		t.Eval(1)
		t.Trans(1)
		t.State(fmt.Sprint(thr, fbShow(m.unread), m.nRead, m.nWrit, m.failR, m.failW))
		if t.Failed() {
			return
		}
	}
	t.Trace(1)
}

func fbShow(b []byte) string {
	if len(b) <= 40 {
		return fmt.Sprint(b)
	}
	h := uint32(2166136261)
	for _, c := range b {
		h = (h ^ uint32(c)) * 16777619
	}
	return fmt.Sprintf("%d bytes %v...%v (%x)", len(b), b[:10], b[len(b)-10:], h)
}
