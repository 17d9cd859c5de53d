//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"strings"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

// spec is the reference description of a (configured) serializer.

const (
	fShort = iota // bit header | X*sign(Y)
	fLong         // bit header | Y*sign(Y), bit header 2 | X*sign(Y)
	fXY           // bit header | X, bit header 2 | Y
	fXsY          // sign of Y | X
	fYsX          // sign of X | Y
	nFmt
)

var fmtNames = []string{"BanderwagonShort", "BanderwagonLong", "XY", "XAndSignY", "YAndSignX"}

type pfx struct {
	bits byte
	l    uint8
}

// framing
const (
	gsh = iota
	gsf
	pph
	ppf
	sph
	spf
)

var frNames = []string{"GlobalSliceHeader", "GlobalSliceFooter", "PerPointHeader", "PerPointFooter", "SinglePointHeader", "SinglePointFooter"}

type spec struct {
	f       int
	be      bool // big endian
	h1, h2  pfx
	subOnly bool
	fr      [6]string
}

func baseSpec(f int) spec {
	switch f {
	case fShort:
		return spec{f: f, h1: pfx{1, 1}, subOnly: true}
	case fLong:
		return spec{f: f, h1: pfx{0, 2}, h2: pfx{1, 1}, subOnly: true}
	}
	return spec{f: f}
}

func (s spec) String() string {
	x := fmtNames[s.f]
	if s.be {
		x += ",BE"
	}
	if s.h1 != baseSpec(s.f).h1 || s.h2 != baseSpec(s.f).h2 {
		x += fmt.Sprintf(",bits %v %v", s.h1, s.h2)
	}
	if s.subOnly && s.f > fLong {
		x += ",subgroup"
	}
	for i, f := range s.fr {
		if f != "" {
			x += fmt.Sprintf(",%s=%q", frNames[i], f)
		}
	}
	return x
}

func (s spec) plen() int {
	if s.f == fLong || s.f == fXY {
		return 64
	}
	return 32
}
func (s spec) singleLen() int { return s.plen() + len(s.fr[sph]) + len(s.fr[spf]) }
func (s spec) sliceLen(n int) int {
	return len(s.fr[gsh]) + 4 + n*(s.plen()+len(s.fr[pph])+len(s.fr[ppf])) + len(s.fr[gsf])
}

func (s spec) field(v *big.Int, h pfx) ([]byte, bool) {
	if v.BitLen() > 256-int(h.l) {
		return nil, false
	}
	x := new(big.Int).Lsh(vk.BI(int64(h.bits)), 256-uint(h.l))
	x.Or(x, v)
	b := x.FillBytes(make([]byte, 32))
	if !s.be {
		rev(b)
	}
	return b, true
}

func rev(b []byte) {
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
}

func (s spec) parse(b []byte, l uint8) (v *big.Int, bits byte) {
	c := append([]byte{}, b...)
	if !s.be {
		rev(c)
	}
	x := new(big.Int).SetBytes(c)
	bits = byte(new(big.Int).Rsh(x, 256-uint(l)).Uint64())
	return x.Sub(x, new(big.Int).Lsh(vk.BI(int64(bits)), 256-uint(l))), bits
}

// elems: the (value, header) pairs of the encoding of the point with these affine coordinates
func (s spec) elems(x, y *big.Int) (vs []*big.Int, hs []pfx) {
	bit := func(neg bool) pfx {
		if neg {
			return pfx{1, 1}
		}
		return pfx{0, 1}
	}
	switch s.f {
	case fShort, fLong:
		if fsign(y) < 0 {
			x, y = fneg(x), fneg(y)
		}
		if s.f == fShort {
			return []*big.Int{x}, []pfx{s.h1}
		}
		return []*big.Int{y, x}, []pfx{s.h1, s.h2}
	case fXY:
		return []*big.Int{x, y}, []pfx{s.h1, s.h2}
	case fXsY:
		return []*big.Int{x}, []pfx{bit(fsign(y) < 0)}
	}
	return []*big.Int{y}, []pfx{bit(fsign(x) < 0)}
}

// point is the encoding without framing; ok=false if a value does not fit below its header (then the returned bytes are what is written before)
func (s spec) point(x, y *big.Int) (b []byte, ok bool) {
	vs, hs := s.elems(x, y)
	for i := range vs {
		e, ok := s.field(vs[i], hs[i])
		if !ok {
			return b, false
		}
		b = append(b, e...)
	}
	return b, true
}

func (s spec) single(x, y *big.Int) []byte {
	p, ok := s.point(x, y)
	if !ok {
		panic("value does not fit")
	}
	return []byte(s.fr[sph] + string(p) + s.fr[spf])
}

func (s spec) slice(ms []mp) []byte {
	var b bytes.Buffer
	b.WriteString(s.fr[gsh])
	binary.Write(&b, binary.LittleEndian, uint32(len(ms)))
	for _, m := range ms {
		b.WriteString(s.fr[pph])
		a := m.aff()
		p, ok := s.point(a.x, a.y)
		if !ok {
			panic("value does not fit")
		}
		b.Write(p)
		b.WriteString(s.fr[ppf])
	}
	b.WriteString(s.fr[gsf])
	return b.Bytes()
}

// decode is the reference decoder of a full encoding without framing. used: bytes that must be consumed to know that it is invalid
func (s spec) decode(b []byte, sub bool) (x, y *big.Int, why string, used int) {
	sub = sub || s.subOnly
	get := func(i int, h pfx) (*big.Int, bool) {
		v, bits := s.parse(b[32*i:32*i+32], h.l)
		if bits != h.bits {
			why = "wrong prefix bits"
			return nil, false
		}
		if v.Cmp(vk.P) >= 0 {
			why = "not reduced"
			return nil, false
		}
		return v, true
	}
	used = 32
	switch s.f {
	case fShort:
		v, ok := get(0, s.h1)
		if !ok {
			return
		}
		x, y, ok = fromXSignY(v)
		if !ok {
			why = "no subgroup point"
		}
		return
	case fLong:
		w, ok := get(0, s.h1)
		if !ok {
			return
		}
		used = 64
		v, ok := get(1, s.h2)
		switch {
		case !ok:
		case fsign(w) <= 0:
			why = "sign of Y"
		case !onCurve(v, w):
			why = "not on curve"
		case inSub(v, w):
			x, y = v, w
		case inSub(fneg(v), fneg(w)):
			x, y = fneg(v), fneg(w)
		default:
			why = "not in subgroup"
		}
		return
	case fXY:
		v, ok := get(0, s.h1)
		if !ok {
			return
		}
		used = 64
		w, ok := get(1, s.h2)
		switch {
		case !ok:
		case !onCurve(v, w):
			why = "not on curve"
		case sub && !inSub(v, w):
			why = "not in subgroup"
		default:
			x, y = v, w
		}
		return
	}
	v, bits := s.parse(b, 1)
	if v.Cmp(vk.P) >= 0 {
		why = "not reduced"
		return
	}
	sgn := 1 - 2*int(bits)
	var ok bool
	if s.f == fXsY {
		x = v
		y, ok = yFromX(v)
		if ok && fsign(y) != sgn {
			y = fneg(y)
		}
	} else {
		y = v
		x, ok = xFromY(v)
		if ok && fsign(x) == -sgn {
			x = fneg(x)
		}
		if ok && x.Sign() == 0 && bits == 1 {
			why = "negative zero"
			return
		}
	}
	if !ok {
		why = "not on curve"
	} else if sub && !inSub(x, y) {
		why = "not in subgroup"
	}
	return
}

// fromXSignY: the subgroup point with X*sign(Y)=v
func fromXSignY(v *big.Int) (x, y *big.Int, ok bool) {
	y, ok = yFromX(v)
	if !ok {
		return
	}
	if fsign(y) < 0 {
		y = fneg(y)
	}
	if inSub(v, y) {
		return v, y, true
	}
	if inSub(fneg(v), fneg(y)) {
		return fneg(v), fneg(y), true
	}
	return nil, nil, false
}

// showsXY: is p the finite point (x,y)? (types restricted to the subgroup: up to the 2-torsion point A)
func showsXY(p PI, x, y *big.Int) string {
	c := copyAny(p)
	var fX, fY, fT, fZ F
	if e, ok := c.(extended); ok && !c.CanOnlyRepresentSubgroup() {
		fX, fY, fT, fZ = e.XYTZ_projective()
	} else {
		fX, fY, fT, fZ = c.X_decaf_projective(), c.Y_decaf_projective(), c.T_decaf_projective(), c.Z_decaf_projective()
	}
	X, Y, T, Z := bigF(fX), bigF(fY), bigF(fT), bigF(fZ)
	good := func(x, y *big.Int) bool {
		return Z.Sign() != 0 && X.Cmp(fm(x, Z)) == 0 && Y.Cmp(fm(y, Z)) == 0 && T.Cmp(fm(fm(x, y), Z)) == 0
	}
	if good(x, y) || p.CanOnlyRepresentSubgroup() && good(fneg(x), fneg(y)) {
		return ""
	}
	return fmt.Sprintf("point is %v, expected (%#x, %#x)", identify(X, Y, T, Z), x, y)
}

// ---- building real serializers

// des is what serializers and deserializers have in common
type des interface {
	DeserializeCurvePoint(io.Reader, common.IsInputTrusted, cp.CurvePointPtrInterfaceWrite) (int, be.DeserializationError)
	DeserializeCurvePoints(io.Reader, common.IsInputTrusted, cp.CurvePointSlice) (int, ps.BatchDeserializationError)
	DeserializeSlice(io.Reader, common.IsInputTrusted, ps.DeserializeSliceMaker) (any, int, ps.BatchDeserializationError)
	IsSubgroupOnly() bool
	OutputLength() int32
	SliceOutputLength(int32) (int32, error)
	GetParameter(string) any
	GetFieldElementEndianness() common.FieldElementEndianness
	Validate()
	RecognizedParameters() []string
	HasParameter(string) bool
}

var _ des = ps.CurvePointDeserializer(nil)
var _ des = ps.CurvePointSerializer(nil)

type ser = ps.CurvePointSerializerModifyable
type dser = ps.CurvePointDeserializerModifyable

type sliceSerializer interface {
	SerializeSlice(io.Writer, cp.CurvePointSlice) (int, ps.BatchSerializationError)
}

func baseSerializer(f int) ser {
	switch f {
	case fShort:
		return ps.BanderwagonShort
	case fLong:
		return ps.BanderwagonLong
	}
	return internalSerializer(f - fXY)
}

func formats() (out []int) {
	for f := 0; f < nFmt; f++ {
		if f <= fLong || haveShim {
			out = append(out, f)
		}
	}
	return
}

func (s spec) hasBits() int {
	switch s.f {
	case fShort:
		return 1
	case fLong, fXY:
		return 2
	}
	return 0
}

// build derives the real serializer of a specification.
func (s spec) build() ser {
	r, b := baseSerializer(s.f), baseSpec(s.f)
	if s.be {
		r = r.WithEndianness(binary.BigEndian)
	}
	if s.h1 != b.h1 {
		r = r.WithParameter("BitHeader", common.MakeBitHeader(common.PrefixBits(s.h1.bits), s.h1.l))
	}
	if s.h2 != b.h2 {
		r = r.WithParameter("BitHeader2", common.MakeBitHeader(common.PrefixBits(s.h2.bits), s.h2.l))
	}
	if s.subOnly != b.subOnly {
		r = r.WithParameter("SubgroupOnly", s.subOnly)
	}
	for i, f := range s.fr {
		if f != "" {
			r = r.WithParameter(frNames[i], []byte(f))
		}
	}
	return r
}

// both the serializer itself and its deserializer-only view
func (s spec) views() (sr ser, ds [2]des) {
	sr = s.build()
	return sr, [2]des{sr, sr.AsDeserializer()}
}

var viewNames = [2]string{"serializer", "deserializer"}
var trusts = []common.IsInputTrusted{common.UntrustedInput, common.TrustedInput}

// badText finds signs of broken error messages
func badText(s string) string {
	for _, x := range []string{"%!", "!(", "!<", "<!", "missing value", "%{", "v{", "w{", "MISSING", "NOVERB", "EXTRA"} {
		if strings.Contains(s, x) {
			return fmt.Sprintf("message %q contains %q", s, x)
		}
	}
	return ""
}

// ---- streams

type faultErr struct{ s string }

func (e *faultErr) Error() string { return e.s }

// faultReader delivers data in chunks and fails with err after k bytes; with tail, the error comes together with the last bytes.
type faultReader struct {
	data  []byte
	k     int
	chunk int
	err   error
	tail  bool
	empty bool // every other call delivers nothing
	pos   int
	calls int
}

func (f *faultReader) Read(p []byte) (int, error) {
	f.calls++
	if len(p) == 0 {
		return 0, nil
	}
	for i := range p { // a reader may use the whole buffer as scratch space
		p[i] = 0xA5
	}
	if f.pos >= f.k {
		return 0, f.err
	}
	if f.empty && f.calls%2 == 1 {
		return 0, nil
	}
	n := min(len(p), f.chunk, f.k-f.pos)
	copy(p, f.data[f.pos:f.pos+n])
	f.pos += n
	if f.tail && f.pos >= f.k {
		return n, f.err
	}
	return n, nil
}

// faultWriter accepts k bytes; with eager, the error comes together with byte k
type faultWriter struct {
	got   []byte
	k     int
	err   error
	eager bool
}

func (f *faultWriter) Write(p []byte) (int, error) {
	n := min(len(p), f.k-len(f.got))
	f.got = append(f.got, p[:n]...)
	if n < len(p) || f.eager && len(f.got) >= f.k && len(p) > 0 {
		return n, f.err
	}
	return n, nil
}

type streamErr struct {
	name string
	err  error
}

var wrappedEOF = fmt.Errorf("wrapped %w", io.EOF) // an end of file reported by a stream that decorates its errors
var designated = &faultErr{"designated"}
var streamErrs = []streamErr{{"EOF", io.EOF}, {"designated error", designated}, {"wrapped error", fmt.Errorf("wrapped %w", designated)}, {"unexpected EOF from the stream", io.ErrUnexpectedEOF}, {"wrapped EOF", wrappedEOF},
	// streams whose errors carry data of their own under the names used here, of the same and of other types
	{"error with data", ewd.NewErrorWithData_any_params(designated, "with data", ewd.ReplacePreviousData, "BytesRead", 77, "PartialRead", true, "ActuallyRead", []byte{1, 2}, "BytesWritten", 78, "PartialWrite", true, "PointsDeserialized", 79, "PointsSerialized", 80, "IoError", false)},
	{"error with ill-typed data", ewd.NewErrorWithData_any_params(designated, "with data", ewd.ReplacePreviousData, "BytesRead", "x", "PartialRead", "x", "ActuallyRead", 5, "BytesWritten", "x", "PartialWrite", 6, "PointsDeserialized", "x", "PointsSerialized", "x", "IoError", "x", "Data", 1, "ExpectedToRead", 7)}}

// wrapsRead: does err report the stream error correctly, given that n bytes had been read?
func wrapsRead(err error, kd error, n int) string {
	want := kd
	if kd == io.EOF && n > 0 {
		want = io.ErrUnexpectedEOF
		if errors.Is(err, io.EOF) {
			return fmt.Sprintf("error %v claims (regular) end of file after %d bytes", err, n)
		}
	}
	if kd == wrappedEOF {
		// the stream's own error or the usual translation of it
		if !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
			return fmt.Sprintf("error %v does not tell that the stream ended", err)
		}
		return ""
	}
	if !errors.Is(err, want) {
		return fmt.Sprintf("error %v does not wrap %v", err, want)
	}
	return ""
}

func wrapsWrite(err error, kd error) string {
	if errors.Is(err, kd) || errors.Is(kd, io.EOF) && errors.Is(err, io.ErrUnexpectedEOF) {
		return ""
	}
	return fmt.Sprintf("error %v does not wrap %v", err, kd)
}
