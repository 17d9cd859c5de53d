//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

type order = fe.FieldElementEndianness
type bhdr = common.BitHeader
type serErr = bandersnatchErrors.SerializationError
type desErr = bandersnatchErrors.DeserializationError

var orders = []order{fe.LittleEndian, fe.BigEndian}

// enc is the reference encoding: value | prefix<<(256-len), in the given byte order.
func enc(v *big.Int, bits byte, l uint8, o order) []byte {
	x := new(big.Int).Lsh(vk.BI(int64(bits)), 256-uint(l))
	x.Or(x, v)
	b := x.FillBytes(make([]byte, 32))
	if o == fe.LittleEndian {
		for i := 0; i < 16; i++ {
			b[i], b[31-i] = b[31-i], b[i]
		}
	}
	return b
}

type pfx struct {
	bits byte
	l    uint8
}

func (p pfx) bh() bhdr { return common.MakeBitHeader(common.PrefixBits(p.bits), p.l) }

func allPrefixes() (out []pfx) {
	for l := uint8(0); l <= 8; l++ {
		for b := 0; b < 1<<l; b++ {
			out = append(out, pfx{byte(b), l})
		}
	}
	return
}

// serOp is one serialization entry point.
type serOp struct {
	name   string
	prefix bool
	stream bool // works on a general io.Writer
	u      func(x *U, w io.Writer, bh bhdr, o order) (int, serErr)
	f      func(x *F, w io.Writer, bh bhdr, o order) (int, serErr)
}

var serOps = []serOp{
	{name: "Uint256.Serialize", stream: true, u: func(x *U, w io.Writer, bh bhdr, o order) (int, serErr) { return x.Serialize(w, o) }},
	{name: "Uint256.Serialize_Buffer", u: func(x *U, w io.Writer, bh bhdr, o order) (int, serErr) {
		return x.Serialize_Buffer(w.(*bytes.Buffer), o)
	}},
	{name: "Uint256.Serialize_Bytes", u: func(x *U, w io.Writer, bh bhdr, o order) (int, serErr) {
		return viaBytes(w, func(b []byte) (int, serErr) { return x.Serialize_Bytes(b, o) })
	}},
	{name: "Uint256.SerializeWithPrefix", prefix: true, stream: true, u: func(x *U, w io.Writer, bh bhdr, o order) (int, serErr) { return x.SerializeWithPrefix(w, bh, o) }},
	{name: "Uint256.SerializeWithPrefix_Buffer", prefix: true, u: func(x *U, w io.Writer, bh bhdr, o order) (int, serErr) {
		return x.SerializeWithPrefix_Buffer(w.(*bytes.Buffer), bh, o)
	}},
	{name: "Uint256.SerializeWithPrefix_Bytes", prefix: true, u: func(x *U, w io.Writer, bh bhdr, o order) (int, serErr) {
		return viaBytes(w, func(b []byte) (int, serErr) { return x.SerializeWithPrefix_Bytes(b, bh, o) })
	}},
	{name: "FieldElement.Serialize", stream: true, f: func(x *F, w io.Writer, bh bhdr, o order) (int, serErr) { return x.Serialize(w, o) }},
	{name: "SerializeFieldElement", stream: true, f: func(x *F, w io.Writer, bh bhdr, o order) (int, serErr) { return fe.SerializeFieldElement(x, w, o) }},
	{name: "FieldElement.SerializeWithPrefix", prefix: true, stream: true, f: func(x *F, w io.Writer, bh bhdr, o order) (int, serErr) { return x.SerializeWithPrefix(w, bh, o) }},
	{name: "SerializeFieldElementWithPrefix", prefix: true, stream: true, f: func(x *F, w io.Writer, bh bhdr, o order) (int, serErr) {
		return fe.SerializeFieldElementWithPrefix(x, w, bh, o)
	}},
}

// viaBytes runs a function that writes into a slice; the slice has a guard zone behind the 32 bytes.
func viaBytes(w io.Writer, f func([]byte) (int, serErr)) (int, serErr) {
	b := bytes.Repeat([]byte{0xA7}, 40)
	n, err := f(b)
	if !bytes.Equal(b[32:], bytes.Repeat([]byte{0xA7}, 8)) {
		panic("wrote beyond 32 bytes")
	}
	if err == nil {
		w.Write(b[:n])
	} else if !bytes.Equal(b[:32], bytes.Repeat([]byte{0xA7}, 32)) {
		panic("wrote to the slice despite an error")
	}
	return n, err
}

func (s *serOp) run(v *big.Int, alt bool, w io.Writer, bh bhdr, o order) (int, serErr) {
	if s.u != nil {
		x := mkU(v)
		n, err := s.u(&x, w, bh, o)
		if toI(&x).Cmp(v) != 0 {
			panic("serialization changed its receiver")
		}
		return n, err
	}
	x := mkF(v, alt)
	n, err := s.f(&x, w, bh, o)
	if !canonEq(&x, v) {
		panic("serialization changed the value of its receiver")
	}
	return n, err
}

// desOp is one deserialization entry point.  kind: 0 plain, 1 returns prefix, 2 expects prefix
type desOp struct {
	name   string
	kind   int
	stream bool
	u      func(z *U, r io.Reader, p pfx, o order) (int, common.PrefixBits, desErr)
	f      func(z *F, r io.Reader, p pfx, o order) (int, common.PrefixBits, desErr)
}

func peek(r io.Reader, f func([]byte) (int, common.PrefixBits, desErr)) (int, common.PrefixBits, desErr) {
	b := r.(*bytes.Buffer)
	c := append([]byte{}, b.Bytes()...)
	n, p, err := f(c)
	if !bytes.Equal(c, b.Bytes()) {
		panic("deserialization changed the input slice")
	}
	b.Next(n)
	return n, p, err
}

var desOps = []desOp{
	{name: "Uint256.Deserialize", stream: true, u: func(z *U, r io.Reader, p pfx, o order) (int, common.PrefixBits, desErr) {
		n, err := z.Deserialize(r, o)
		return n, 0, err
	}},
	{name: "Uint256.Deserialize_Buffer", u: func(z *U, r io.Reader, p pfx, o order) (int, common.PrefixBits, desErr) {
		n, err := z.Deserialize_Buffer(r.(*bytes.Buffer), o)
		return n, 0, err
	}},
	{name: "Uint256.Deserialize_Bytes", u: func(z *U, r io.Reader, p pfx, o order) (int, common.PrefixBits, desErr) {
		return peek(r, func(b []byte) (int, common.PrefixBits, desErr) { n, err := z.Deserialize_Bytes(b, o); return n, 0, err })
	}},
	{name: "Uint256.DeserializeAndGetPrefix", kind: 1, stream: true, u: func(z *U, r io.Reader, p pfx, o order) (int, common.PrefixBits, desErr) {
		return z.DeserializeAndGetPrefix(r, p.l, o)
	}},
	{name: "Uint256.DeserializeAndGetPrefix_Buffer", kind: 1, u: func(z *U, r io.Reader, p pfx, o order) (int, common.PrefixBits, desErr) {
		return z.DeserializeAndGetPrefix_Buffer(r.(*bytes.Buffer), p.l, o)
	}},
	{name: "Uint256.DeserializeAndGetPrefix_Bytes", kind: 1, u: func(z *U, r io.Reader, p pfx, o order) (int, common.PrefixBits, desErr) {
		return peek(r, func(b []byte) (int, common.PrefixBits, desErr) { return z.DeserializeAndGetPrefix_Bytes(b, p.l, o) })
	}},
	{name: "Uint256.DeserializeWithExpectedPrefix", kind: 2, stream: true, u: func(z *U, r io.Reader, p pfx, o order) (int, common.PrefixBits, desErr) {
		n, err := z.DeserializeWithExpectedPrefix(r, p.bh(), o)
		return n, 0, err
	}},
	{name: "FieldElement.Deserialize", stream: true, f: func(z *F, r io.Reader, p pfx, o order) (int, common.PrefixBits, desErr) {
		n, err := z.Deserialize(r, o)
		return n, 0, err
	}},
	{name: "DeserializeFieldElement", stream: true, f: func(z *F, r io.Reader, p pfx, o order) (int, common.PrefixBits, desErr) {
		n, err := fe.DeserializeFieldElement(z, r, o)
		return n, 0, err
	}},
	{name: "FieldElement.DeserializeAndGetPrefix", kind: 1, stream: true, f: func(z *F, r io.Reader, p pfx, o order) (int, common.PrefixBits, desErr) {
		return z.DeserializeAndGetPrefix(r, p.l, o)
	}},
	{name: "DeserializeFieldElementAndGetPrefix", kind: 1, stream: true, f: func(z *F, r io.Reader, p pfx, o order) (int, common.PrefixBits, desErr) {
		return fe.DeserializeFieldElementAndGetPrefix(z, r, p.l, o)
	}},
	{name: "FieldElement.DeserializeWithExpectedPrefix", kind: 2, stream: true, f: func(z *F, r io.Reader, p pfx, o order) (int, common.PrefixBits, desErr) {
		n, err := z.DeserializeWithExpectedPrefix(r, p.bh(), o)
		return n, 0, err
	}},
	{name: "DeserializeFieldElementWithExpectedPrefix", kind: 2, stream: true, f: func(z *F, r io.Reader, p pfx, o order) (int, common.PrefixBits, desErr) {
		n, err := fe.DeserializeFieldElementWithExpectedPrefix(z, r, p.bh(), o)
		return n, 0, err
	}},
}

// target runs d on a receiver with a known old value and describes what happened to the receiver.
func (d *desOp) run(r io.Reader, p pfx, o order) (n int, pb common.PrefixBits, err desErr, val *big.Int, untouched bool, okRep bool) {
	if d.u != nil {
		z := U{7, 8, 9, 10}
		old := z
		n, pb, err = d.u(&z, r, p, o)
		return n, pb, err, toI(&z), z == old, true
	}
	z := mkF(vk.BI(4711), false)
	old := raw(&z)
	n, pb, err = d.f(&z, r, p, o)
	val = z.ToBigInt()
	return n, pb, err, val, raw(&z) == old, canonEq(&z, val)
}

func f07(r *vk.Run) {
	// --- serialization
	var V []*big.Int
	for k := uint(245); k < 257; k++ {
		V = append(V, vk.Around(1, vk.Pow2(k))...)
	}
	V = append(V, vk.Around(2, vk.BI(0), vk.P, halfP, twoP, vk.Two256, vk.Pow2(64), vk.Pow2(128), vk.Pow2(192))...)
	for i := uint64(0); i < 10; i++ {
		V = append(V, vk.Generic(i, vk.Pow2(uint(256-i))))
	}
	if r.Thorough {
		V = append(V, values256(1)...)
	}
	V = vk.Uniq(V, vk.BI(0), vk.Two256)
	P := allPrefixes()
	r.Each(len(V), func(i int) string { return fmt.Sprintf("serialize %#x", V[i]) }, func(t *vk.T, i int) {
		v := V[i]
		for k := range serOps {
			s := &serOps[k]
			if s.f != nil && v.Cmp(vk.P) >= 0 {
				continue
			}
			for _, o := range orders {
				for pi, p := range P {
					if !s.prefix && pi > 0 {
						break
					}
					fits := v.BitLen() <= 256-int(p.l)
					for alt := 0; alt < 2; alt++ {
						if alt == 1 && s.f == nil {
							break
						}
						pre := []byte("old")
						w := bytes.NewBuffer(append([]byte{}, pre...))
						n, err := s.run(v, alt == 1, w, p.bh(), o)
						out := w.Bytes()[3:]
						t.Eval(1)
						if fits {
							want := enc(v, p.bits, p.l, o)
							if err != nil || n != 32 || !bytes.Equal(out, want) {
								t.Failf("%s(%#x, prefix %b/%d, %v, alt=%v): n=%d err=%v wrote %x, should write %x", s.name, v, p.bits, p.l, o, alt == 1, n, err, out, want)
							}
						} else {
							if err == nil || !errors.Is(err, fe.ErrPrefixDoesNotFit) || n != 0 || len(out) != 0 {
								t.Failf("%s(%#x, prefix %b/%d): the prefix does not fit, but n=%d err=%v wrote %x", s.name, v, p.bits, p.l, n, err, out)
							} else if d := err.GetData_struct(); d.BytesWritten != 0 || d.PartialWrite {
								t.Failf("%s: error data for a prefix that does not fit: %+v", s.name, d)
							}
						}
					}
					t.State(s.name, v.String(), fmt.Sprint(p, o))
				}
			}
		}
	})
	// --- deserialization: numbers around the limits below every prefix
	var N []*big.Int
	base := []*big.Int{vk.BI(0), vk.P, twoP, halfP, vk.Two256, vk.Pow2(255), vk.Pow2(254), vk.Pow2(248), vk.Add(vk.P, vk.Pow2(255)), vk.Mul(vk.P, vk.BI(2)), vk.Pow2(64), vk.Pow2(192)}
	N = append(N, vk.Around(2, base...)...)
	for b := int64(0); b < 256; b++ {
		top := new(big.Int).Lsh(vk.BI(b), 248)
		N = append(N, top, vk.Add(top, vk.Sub(vk.Pow2(248), vk.BI(1))), vk.Add(top, vk.Mod(vk.P, vk.Pow2(248))), vk.Add(top, vk.Sub(vk.Mod(vk.P, vk.Pow2(248)), vk.BI(1))), vk.Add(top, vk.Generic(uint64(b), vk.Pow2(248))))
	}
	if r.Thorough {
		N = append(N, values256(1)...)
	}
	N = vk.Uniq(N, vk.BI(0), vk.Two256)
	r.Each(len(N), func(i int) string { return fmt.Sprintf("deserialize %#x", N[i]) }, func(t *vk.T, i int) {
		x := N[i]
		for _, o := range orders {
			e := enc(x, 0, 0, o)
			for k := range desOps {
				d := &desOps[k]
				for l := 0; l <= 8; l++ {
					if d.kind == 0 && l > 0 {
						break
					}
					top := byte(new(big.Int).Rsh(x, uint(256-l)).Uint64())
					v := vk.Mod(x, vk.Pow2(uint(256-l)))
					// expected prefixes to try: the right one and wrong ones
					cands := []pfx{{top, uint8(l)}}
					if d.kind == 2 && l > 0 {
						cands = append(cands, pfx{top ^ 1, uint8(l)}, pfx{top ^ 1<<(l-1), uint8(l)}, pfx{^top & byte(1<<l-1), uint8(l)})
					}
					for ci, p := range cands {
						in := bytes.NewBuffer(append(append([]byte{}, e...), "trailing data that must not be touched......"...))
						L := in.Len()
						n, pb, err, val, untouched, ok := d.run(in, p, o)
						consumed := L - in.Len()
						t.Eval(1)
						desc := fmt.Sprintf("%s(%#x, %v, prefix length %d, expecting %b)", d.name, x, o, l, p.bits)
						if ci > 0 {
							if err == nil || !errors.Is(err, fe.ErrPrefixMismatch) || !untouched {
								t.Failf("%s: err=%v untouched=%v, should report a prefix mismatch and leave the receiver alone", desc, err, untouched)
							} else if g := err.GetData_struct(); n != consumed || g.BytesRead != n || !bytes.Equal(g.ActuallyRead, e[:min(n, 32)]) || g.PartialRead != (n != 0 && n != 32) {
								t.Failf("%s: consumed %d, returned %d, error data %+v", desc, consumed, n, g)
							}
							continue
						}
						if n != 32 || consumed != 32 {
							t.Failf("%s: returned %d bytes read, consumed %d, should be 32", desc, n, consumed)
						}
						if d.kind == 1 && byte(pb) != top {
							t.Failf("%s: returned prefix %b, should be %b", desc, pb, top)
						}
						if !ok {
							t.Failf("%s: receiver has an inconsistent representation", desc)
						}
						if d.u != nil || v.Cmp(vk.P) < 0 {
							if err != nil || val.Cmp(v) != 0 {
								t.Failf("%s: err=%v value=%#x, should be %#x", desc, err, val, v)
							}
						} else {
							if err == nil || !errors.Is(err, fe.ErrNonNormalizedDeserialization) || val.Cmp(modp(v)) != 0 {
								t.Failf("%s: err=%v value=%#x, should report a non-normalized number and yield %#x", desc, err, val, modp(v))
							} else if g := err.GetData_struct(); g.BytesRead != 32 || g.PartialRead || !bytes.Equal(g.ActuallyRead, e) {
								t.Failf("%s: error data %+v, should have read %x", desc, g, e)
							}
						}
					}
				}
				t.State(d.name, x.String(), o.String())
			}
		}
	})
	// invalid prefix lengths
	r.Each(256-9, func(i int) string { return fmt.Sprintf("prefix length %d", i+9) }, func(t *vk.T, i int) {
		for k := range desOps {
			d := &desOps[k]
			if d.kind != 1 {
				continue
			}
			for _, o := range orders {
				in := bytes.NewBuffer(make([]byte, 50))
				n, _, err, _, untouched, _ := d.run(in, pfx{0, uint8(i + 9)}, o)
				if err == nil || !errors.Is(err, fe.ErrPrefixLengthInvalid) || n != 0 || in.Len() != 50 || !untouched {
					t.Failf("%s with prefix length %d: n=%d err=%v consumed=%d untouched=%v", d.name, i+9, n, err, 50-in.Len(), untouched)
				} else if g := err.GetData_struct(); g.BytesRead != 0 || g.PartialRead || g.ActuallyRead != nil {
					t.Failf("%s with prefix length %d: error data %+v", d.name, i+9, g)
				}
				t.Eval(1)
				t.State("len", d.name, fmt.Sprint(i, o))
			}
		}
	})
	// several values in one stream
	r.Case("concatenated", func(t *vk.T) {
		for _, o := range orders {
			var buf bytes.Buffer
			vs := []*big.Int{vk.BI(0), vk.BI(1), halfP, vk.Sub(vk.P, vk.BI(1)), vk.Generic(3, vk.P)}
			for _, v := range vs {
				x := mkF(v, true)
				x.SerializeWithPrefix(&buf, common.MakeBitHeader(1, 1), o)
			}
			for _, v := range vs {
				var z F
				n, err := z.DeserializeWithExpectedPrefix(&buf, common.MakeBitHeader(1, 1), o)
				if n != 32 || err != nil || !canonEq(&z, v) {
					t.Failf("reading back %#x from a stream of several: n=%d err=%v got %v", v, n, err, z.ToBigInt())
				}
				t.Eval(1)
			}
			if buf.Len() != 0 {
				t.Failf("%d bytes left over", buf.Len())
			}
		}
	})
	r.Sample(fmt.Sprintf("serialize %#x with all 511 prefixes in both byte orders through %d entry points", V[len(V)/2], len(serOps)))
	r.Sample(fmt.Sprintf("deserialize %#x with all prefix lengths and right/wrong expected prefixes through %d entry points", N[len(N)/2], len(desOps)))
}

// ---- F08 ----

type faultErr struct{ s string }

func (e *faultErr) Error() string { return e.s }

// faultReader delivers data in chunks and fails with err after k bytes; with tail, the error comes together with the last bytes.
type faultReader struct {
	data  []byte
	k     int
	chunk int
	err   error
	tail  bool
	empty bool // every other call delivers nothing
	pos   int
	calls int
}

func (f *faultReader) Read(p []byte) (int, error) {
	f.calls++
	if len(p) == 0 {
		return 0, nil
	}
	for i := range p { // a reader may use the whole buffer as scratch space
		p[i] = 0xA5
	}
	if f.pos >= f.k {
		return 0, f.err
	}
	if f.empty && f.calls%2 == 1 {
		return 0, nil
	}
	n := min(len(p), f.chunk, f.k-f.pos)
	copy(p, f.data[f.pos:f.pos+n])
	f.pos += n
	if f.tail && f.pos >= f.k {
		return n, f.err
	}
	return n, nil
}

type faultWriter struct {
	got []byte
	k   int
	err error
}

func (f *faultWriter) Write(p []byte) (int, error) {
	n := min(len(p), f.k-len(f.got))
	f.got = append(f.got, p[:n]...)
	if n < len(p) || len(f.got) >= f.k && f.k == 32 && f.err != nil {
		return n, f.err
	}
	return n, nil
}

func f08(r *vk.Run) {
	vals := []*big.Int{vk.BI(0), vk.BI(1), vk.Sub(vk.P, vk.BI(1)), vk.Generic(5, vk.Pow2(247)), vk.Pow2(246)}
	chunks := []int{1, 2, 7, 31, 32, 100}
	type streamErr struct {
		name string
		err  error
	}
	custom := &faultErr{"designated"}
	kinds := []streamErr{{"EOF", io.EOF}, {"designated error", custom}, {"errorsWithData-free wrapped error", fmt.Errorf("wrapped %w", custom)}, {"unexpected EOF from the stream", io.ErrUnexpectedEOF}, {"wrapped EOF", wrappedEOF},
		// streams whose errors carry data of their own under the names used here, of the same and of other types
		{"error with data", ewd.NewErrorWithData_any_params(custom, "with data", ewd.ReplacePreviousData, "BytesRead", 77, "PartialRead", true, "ActuallyRead", []byte{1, 2}, "BytesWritten", 78, "PartialWrite", true)},
		{"error with ill-typed data", ewd.NewErrorWithData_any_params(custom, "with data", ewd.ReplacePreviousData, "BytesRead", "x", "PartialRead", "x", "ActuallyRead", 5, "BytesWritten", "x", "PartialWrite", 6)}}
	prefixes := []pfx{{0, 0}, {1, 1}, {0, 1}, {2, 2}, {5, 3}, {255, 8}, {0, 8}}
	if r.Thorough {
		prefixes = allPrefixes()
	}
	r.Each(len(desOps)*33, func(i int) string { return fmt.Sprintf("%s, fault after %d bytes", desOps[i/33].name, i%33) }, func(t *vk.T, i int) {
		d, k := &desOps[i/33], i%33
		if !d.stream {
			if d.kind < 2 && bytes.Contains([]byte(d.name), []byte("_Buffer")) {
				// a too short buffer is a premature end
				for _, o := range orders {
					if k == 32 {
						continue
					}
					e := enc(vals[3], 0, 0, o)
					in := bytes.NewBuffer(append([]byte{}, e[:k]...))
					n, _, err, _, untouched, _ := d.run(in, pfx{0, 0}, o)
					checkReadFault(t, fmt.Sprintf("%s on a buffer of %d bytes", d.name, k), n, err, untouched, k, k, io.EOF, e)
				}
			}
			return
		}
		for _, v := range vals {
			for _, p := range prefixes {
				if d.kind == 0 && p.l > 0 {
					break
				}
				if d.kind != 0 && v.BitLen() > 256-int(p.l) {
					continue
				}
				for _, o := range orders {
					e := enc(v, p.bits, p.l, o)
					for _, ch := range chunks {
						for _, kd := range kinds {
							for mode := 0; mode < 4; mode++ {
								fr := &faultReader{data: append(append([]byte{}, e...), make([]byte, 64)...), k: k, chunk: ch, err: kd.err, tail: mode&1 == 1, empty: mode&2 == 2}
								n, pb, err, val, untouched, _ := d.run(fr, p, o)
								desc := fmt.Sprintf("%s(%#x, prefix %b/%d, %v) from a stream with chunks of %d and %s after %d bytes (mode %d)", d.name, v, p.bits, p.l, o, ch, kd.name, k, mode)
								t.Eval(1)
								if k == 32 {
									if err != nil || n != 32 || val.Cmp(v) != 0 || d.kind == 1 && byte(pb) != p.bits {
										t.Failf("%s: all bytes were available, but n=%d err=%v val=%#x prefix=%b", desc, n, err, val, pb)
									}
									continue
								}
								checkReadFault(t, desc, n, err, untouched, k, fr.pos, kd.err, e)
								t.StateH(vk.Mix(uint64(i)<<20 ^ uint64(ch)<<12 ^ uint64(mode)<<8 ^ uint64(p.l)<<4 ^ uint64(p.bits)<<32 ^ v.Uint64()<<40 ^ uint64(len(kd.name))))
							}
						}
					}
				}
			}
		}
	})
	r.Each(len(serOps)*33, func(i int) string { return fmt.Sprintf("%s, fault after %d bytes", serOps[i/33].name, i%33) }, func(t *vk.T, i int) {
		s, k := &serOps[i/33], i%33
		if !s.stream {
			if bytes.HasSuffix([]byte(s.name), []byte("_Bytes")) && k < 32 {
				for _, o := range orders {
					x := mkU(vals[3])
					b := bytes.Repeat([]byte{0xEE}, k)
					var n int
					var err serErr
					if s.prefix {
						n, err = x.SerializeWithPrefix_Bytes(b, pfx{1, 1}.bh(), o)
					} else {
						n, err = x.Serialize_Bytes(b, o)
					}
					want := io.ErrUnexpectedEOF
					if k == 0 {
						want = io.EOF
					}
					if err == nil || n != 0 || !errors.Is(err, want) || !bytes.Equal(b, bytes.Repeat([]byte{0xEE}, k)) {
						t.Failf("%s into %d bytes: n=%d err=%v buffer %x", s.name, k, n, err, b)
					} else if g := err.GetData_struct(); g.BytesWritten != 0 || g.PartialWrite {
						t.Failf("%s into %d bytes: error data %+v", s.name, k, g)
					}
					t.Eval(1)
				}
			}
			return
		}
		for _, v := range vals {
			for _, p := range prefixes {
				if !s.prefix && p.l > 0 {
					break
				}
				if s.prefix && v.BitLen() > 256-int(p.l) {
					continue
				}
				for _, o := range orders {
					e := enc(v, p.bits, p.l, o)
					for _, kd := range kinds {
						fw := &faultWriter{k: k, err: kd.err}
						n, err := s.run(v, k&1 == 1, fw, p.bh(), o)
						desc := fmt.Sprintf("%s(%#x, prefix %b/%d, %v) to a stream with %s after %d bytes", s.name, v, p.bits, p.l, o, kd.name, k)
						t.Eval(1)
						t.StateH(vk.Mix(uint64(i)<<20 ^ uint64(p.l)<<4 ^ uint64(p.bits)<<32 ^ v.Uint64()<<40 ^ uint64(len(kd.name)) ^ 1<<62))
						if err == nil || n != len(fw.got) || n != k || !bytes.Equal(fw.got, e[:k]) {
							t.Failf("%s: n=%d err=%v written=%x", desc, n, err, fw.got)
							continue
						}
						if !errors.Is(err, kd.err) && !(kd.err == wrappedEOF && errors.Is(err, io.ErrUnexpectedEOF)) {
							t.Failf("%s: error %v does not wrap the error of the stream", desc, err)
						}
						if g := err.GetData_struct(); g.BytesWritten != k || g.PartialWrite != (k != 0 && k != 32) {
							t.Failf("%s: error data %+v", desc, g)
						}
					}
				}
			}
		}
	})
	r.Sample("FieldElement.DeserializeWithExpectedPrefix (BigEndian, prefix 101/3): stream delivers chunks of 7 bytes and io.EOF together with byte 13")
}

var wrappedEOF = fmt.Errorf("wrapped %w", io.EOF) // an end of file reported by a stream that decorates its errors

func checkReadFault(t *vk.T, desc string, n int, err desErr, untouched bool, k int, consumed int, serr error, e []byte) {
	if err == nil {
		t.Failf("%s: no error", desc)
		return
	}
	want := serr
	if serr == io.EOF && k > 0 {
		want = io.ErrUnexpectedEOF
		if errors.Is(err, io.EOF) {
			t.Failf("%s: error %v claims (regular) end of file in the middle of the data", desc, err)
		}
	}
	if serr == wrappedEOF {
		// the stream's own error or the usual translation of it
		if !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
			t.Failf("%s: error %v does not tell that the stream ended", desc, err)
		}
	} else if !errors.Is(err, want) {
		t.Failf("%s: error %v does not wrap %v", desc, err, want)
	}
	if n != consumed || n != k {
		t.Failf("%s: returned %d bytes read, the stream delivered %d", desc, n, consumed)
	}
	g := err.GetData_struct()
	if g.BytesRead != n || g.PartialRead != (n != 0 && n != 32) || !bytes.Equal(g.ActuallyRead, e[:n]) {
		t.Failf("%s: error data %+v", desc, g)
	}
	if !untouched {
		t.Failf("%s: the receiver was modified", desc)
	}
}
