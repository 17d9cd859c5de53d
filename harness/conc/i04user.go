//go:build go1.22

package main

import (
	"fmt"
	"math/rand"

	tu "github.com/GottfriedHerold/Bandersnatch/internal/testutils"
)

// The functions that the user of the cache provides may panic at any call, and may use the cache (for another key).

var userKinds = []string{"seed", "creation", "copy"}

type userOp struct {
	key int64
	n   int
	pre []uint64 // prepopulate instead
}

func (o userOp) String() string {
	if o.pre != nil {
		return fmt.Sprintf("prepopulate key %d with %d elements", o.key, len(o.pre))
	}
	return fmt.Sprintf("get %d elements of key %d", o.n, o.key)
}

var userOps = []userOp{{0, 1, nil}, {0, 3, nil}, {1, 2, nil}, {0, 0, prefill}, {1, 0, prefill}, {0, 0, []uint64{}}}

// userRun runs a history in which the at-th call (from 1) of the given kind of function panics; or, if nested, every call for key 0
// of that kind requests elements of key 2 from the cache.
func userRun(kind, at int, nested bool, hist []userOp) (bad string, reached bool) {
	calls := [3]int{}
	note := func(f string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	var c cache4
	inside := false
	fails := 0
	hit := func(k int, key int64) {
		calls[k]++
		if k != kind {
			return
		}
		if !nested {
			if calls[k] == at {
				fails++
				panic("user function fails")
			}
			return
		}
		if key == 0 && !inside {
			inside = true
			for i, x := range c.GetElements(2, 1+calls[k]%3) {
				if x.v != refSeq[2][i] {
					note("element %d of key 2, requested by the %s function for key 0, is %d instead of %d", i, userKinds[kind], x.v, refSeq[2][i])
				}
			}
			inside = false
		}
	}
	cur := int64(0) // the key of the running request (copying does not get the key)
	c = tu.MakePrecomputedCache(func(key int64) *rand.Rand { hit(0, key); return newRng4(key) },
		func(rng *rand.Rand, key int64) *elem { hit(1, key); return &elem{rng.Uint64() ^ uint64(key)} },
		func(x *elem) *elem { hit(2, cur); y := *x; return &y })
	// what is known of a key: prepopulated with, used
	pre := map[int64][]uint64{}
	used, maybe := map[int64]bool{}, map[int64]bool{}
	want := func(key int64, i int) uint64 {
		if p := pre[key]; i < len(p) {
			return p[i]
		}
		return refSeq[key][i-len(pre[key])]
	}
	do := func(o userOp) {
		before := fails
		var got []*elem
		var val any
		cur = o.key
		panicked := func() (p bool) {
			p = true
			defer func() { val = recover() }()
			if o.pre != nil {
				var l []*elem
				for _, v := range o.pre {
					l = append(l, &elem{v})
				}
				c.PrepopulateCache(o.key, l)
			} else {
				got = c.GetElements(o.key, o.n)
			}
			return false
		}()
		failed := fails != before
		switch {
		case failed && !panicked:
			note("%v: the panic of the user's function is lost", o)
		case failed:
			maybe[o.key] = true // nothing was retrieved: whether the key counts as used is open
		case o.pre != nil && (used[o.key]):
			if !panicked {
				note("%v: not refused, although the key was used before", o)
			}
		case o.pre != nil && panicked:
			if !maybe[o.key] {
				note("%v: panics (%v)", o, val)
			}
		case o.pre != nil:
			used[o.key] = true
			pre[o.key] = o.pre
		case panicked:
			note("%v: panics (%v)", o, val)
		default:
			used[o.key] = true
			if len(got) != o.n {
				note("%v: got %d", o, len(got))
			}
			for i, x := range got {
				if x.v != want(o.key, i) {
					note("%v: element %d is %d instead of %d", o, i, x.v, want(o.key, i))
				}
			}
		}
	}
	for _, o := range hist {
		do(o)
	}
	reached = fails > 0 || nested
	for _, n := range []int{2, 6} {
		for k := int64(0); k < 4; k++ {
			do(userOp{k, n, nil})
		}
	}
	return
}

func i04user(thorough bool) (out []scen) {
	depth := 3
	if thorough {
		depth = 4
	}
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(userOps)
	}
	for kind := range userKinds {
		for at := 0; at <= 8; at++ { // 0: nested
			for first := range userOps {
				kind, at, first := kind, at, first
				name := fmt.Sprintf("call %d of the %s function panics; histories of %d operations that begin with: %v", at, userKinds[kind], depth, userOps[first])
				if at == 0 {
					name = fmt.Sprintf("the %s function for one key requests elements of another one; histories of %d operations that begin with: %v", userKinds[kind], depth, userOps[first])
				}
				out = append(out, scen{name: name, parts: [2]int{1, 1}, limit: 1 << 30, setup: func() ([]func(), func() string) {
					bad := ""
					return []func(){func() {
						for h := first; h < n && bad == ""; h += len(userOps) {
							var hist []userOp
							for d, x := 0, h; d < depth; d, x = d+1, x/len(userOps) {
								hist = append(hist, userOps[x%len(userOps)])
							}
							if b, _ := userRun(kind, at, at == 0, hist); b != "" {
								bad = fmt.Sprintf("%v: %s", hist, b)
							}
						}
					}}, func() string { return bad }
				}})
			}
		}
	}
	return
}
