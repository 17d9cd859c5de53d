//go:build go1.22

package main

import (
	"fmt"
	"math"
	"math/rand"

	tu "github.com/GottfriedHerold/Bandersnatch/internal/testutils"
)

// Caches for every kind of key type. Keys that are printed alike, have the same hash-relevant parts, or are distinct pointers to equal values are
// different keys; +0.0 and -0.0 are the same key.

type (
	named4  int
	texter4 struct{ id int }
	pair4   struct{ a, b string }
	emb4    struct {
		pair4
		n any
	}
)

func (texter4) String() string { return "same text" }
func (named4) String() string  { return "1" }

// keyed4 runs all orders of requests of the given sizes for the keys of one type; elem makes the n-th element of a key, same tells whether an
// element has the right value, and spoil overwrites an element that was handed out
func keyed4[K comparable, E any](what string, keys []K, elem func(key, n int) E, same func(e E, key, n int) bool, spoil func(*E), clone func(E) E) string {
	index := func(k K) int {
		for i := range keys {
			if keys[i] == k {
				return i
			}
		}
		return -1
	}
	for order := 0; order < 6; order++ {
		bad := ""
		made := map[int]int{} // number of created elements
		pre := map[int]int{}
		var seeds map[int]int = map[int]int{}
		var seed func(k K) *rand.Rand
		if order%2 == 0 {
			seed = func(k K) *rand.Rand {
				seeds[index(k)]++
				return rand.New(&src4{uint64(index(k))})
			}
		}
		c := tu.MakePrecomputedCache(seed, func(r *rand.Rand, k K) E {
			i := index(k)
			if i < 0 {
				bad = fmt.Sprintf("%s: creation for a key that was never requested", what)
				i = 0
			}
			if seed == nil && r != nil || seed != nil && r == nil {
				bad = fmt.Sprintf("%s: creation with wrong source of randomness", what)
			}
			if r != nil {
				x := src4{uint64(i)}
				for j := 0; j < made[i]; j++ {
					x.Uint64()
				}
				if r.Uint64() != x.Uint64() {
					bad = fmt.Sprintf("%s: creation for key %d (%#v) draws from the source of another key", what, i, k)
				}
			}
			made[i]++
			return elem(i, pre[i]+made[i]-1)
		}, clone)
		for i, k := range keys {
			if index(k) == i && (i+order)%3 == 0 {
				pre[i] = 1 + i%3
				var l []E
				for n := 0; n < pre[i]; n++ {
					l = append(l, elem(i, n))
				}
				did := func() (p bool) {
					defer func() { p = recover() != nil }()
					c.PrepopulateCache(k, l)
					return
				}()
				if did {
					return fmt.Sprintf("%s: prepopulation of the unused key %d (%#v) is refused", what, i, k)
				}
				for n := range l {
					spoil(&l[n])
				}
			}
		}
		for round := 0; round < 5; round++ {
			for j := range keys {
				i := j
				if (order+round)%3 == 1 {
					i = len(keys) - 1 - j
				} else if (order+round)%3 == 2 {
					i = (j*7 + round) % len(keys)
				}
				n := []int{1, 3, 2, 6, 9}[(round+order*i)%5]
				got := c.GetElements(keys[i], n)
				if len(got) != n {
					return fmt.Sprintf("%s: %d elements for a request of %d", what, len(got), n)
				}
				for x := range got {
					if !same(got[x], index(keys[i]), x) {
						return fmt.Sprintf("%s: element %d of key %d (%#v) is %v", what, x, i, keys[i], got[x])
					}
				}
				for x := range got {
					spoil(&got[x])
				}
				if bad != "" {
					return bad
				}
			}
		}
	}
	return ""
}

func keyedInt4[K comparable](what string, keys []K) string {
	if s := keyed4(what+"/uint64", keys, func(k, n int) uint64 { return uint64(k)<<32 + uint64(n) },
		func(e uint64, k, n int) bool { return e == uint64(k)<<32+uint64(n) }, func(e *uint64) { *e = 99 }, nil); s != "" {
		return s
	}
	type val struct {
		p *int
		l []int
		m map[string]int
	}
	if s := keyed4(what+"/deep", keys, func(k, n int) val {
		x := k<<16 + n
		return val{&x, []int{k, n}, map[string]int{"k": k, "n": n}}
	}, func(e val, k, n int) bool {
		return *e.p == k<<16+n && len(e.l) == 2 && e.l[0] == k && e.l[1] == n && len(e.m) == 2 && e.m["k"] == k && e.m["n"] == n
	}, func(e *val) {
		*e.p = -1
		e.l[0], e.l[1] = -2, -3
		e.m["k"], e.m["x"] = -4, -5
		*e = val{}
	}, func(e val) val {
		x := *e.p
		m := map[string]int{}
		for k, v := range e.m {
			m[k] = v
		}
		return val{&x, append([]int(nil), e.l...), m}
	}); s != "" {
		return s
	}
	return keyed4(what+"/any", keys, func(k, n int) any {
		if n == 0 {
			return nil // a nil element is an element like any other
		}
		return [2]int{k, n}
	}, func(e any, k, n int) bool {
		if n == 0 {
			return e == nil
		}
		return e == any([2]int{k, n})
	}, func(e *any) { *e = "spoiled" }, nil)
}

// keys4: one entry per kind of key type
var keys4 = []func() string{
	func() string {
		one, two := 1, 1
		return keyedInt4("any", []any{nil, 1, int64(1), uint8(1), 1.0, float32(1), "1", named4(1), named4(2), '1', [1]int{1}, struct{ x int }{1}, true, "true",
			"<nil>", &one, &two, texter4{1}, texter4{2}, fmt.Stringer(texter4{3}), error(nil) == nil, complex(1, 0), ""})
	},
	func() string {
		return keyedInt4("strings", []string{"", " ", "\x00", "\x00\x00", "a", "A", "a ", "á", "a\u0301", "\xff", "\xfe", "\ufffd", "1", "01", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab"})
	},
	func() string {
		return keyedInt4("pairs", []pair4{{}, {"a b", "c"}, {"a", "b c"}, {"a b c", ""}, {"", "a b c"}, {"a", "b"}, {"b", "a"}, {"{", "}"}})
	},
	func() string {
		return keyedInt4("embedded", []emb4{{}, {pair4{"a", ""}, nil}, {pair4{"", "a"}, nil}, {pair4{"a", ""}, 1}, {pair4{"a", ""}, int8(1)}, {pair4{"a", ""}, "1"}, {pair4{"a", ""}, texter4{1}}, {pair4{"a", ""}, texter4{2}}})
	},
	func() string {
		x, y := 5, 5
		var z int
		return keyedInt4("pointers", []*int{nil, &x, &y, &z})
	},
	func() string {
		return keyedInt4("floats", []float64{0, math.Copysign(0, -1), 1, math.Nextafter(1, 2), math.Inf(1), math.Inf(-1), 1e300, 0.1, 0.1 + 1e-17, math.SmallestNonzeroFloat64})
	},
	func() string { return keyedInt4("named", []named4{0, 1, -1, 2, 1 << 32, 1<<32 + 1, math.MaxInt64}) },
	func() string { return keyedInt4("texter", []texter4{{0}, {1}, {2}, {-1}}) },
	func() string {
		return keyedInt4("arrays", [][3]byte{{}, {0, 0, 1}, {0, 1, 0}, {1, 0, 0}, {1, 10, 0}, {11, 0, 0}, {1, 1, 0}})
	},
	func() string { return keyedInt4("bools", []bool{true, false}) },
	func() string { return keyedInt4("unit", []struct{}{{}}) },
	func() string {
		a, b := make(chan int), make(chan int)
		return keyedInt4("channels", []chan int{nil, a, b})
	},
	func() string {
		return keyedInt4("int64", []int64{0, 1, -1, math.MinInt64, math.MaxInt64, 1 << 32, 1<<31 - 1, 1<<31 - 2, -(1<<31 - 1)}) // sources seeded with numbers that agree modulo 2^31-1 are equal, the keys are not
	},
	func() string {
		return keyedInt4("errors", []error{nil, errA4, errB4, fmt.Errorf("same"), fmt.Errorf("same")})
	},
}

var errA4, errB4 = fmt.Errorf("text"), fmt.Errorf("text")
