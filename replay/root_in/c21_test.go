//go:build go1.18

package appdash

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"
)

// One event type per field type; the neighbours show that a field is not taken for another.
type vrEv[T any] struct {
	A string
	F T
	G string
}

func (vrEv[T]) Schema() string { return "vr" }

type vrEvTag[T any] struct {
	X T `trace:"Some.Key"`
	Y T
}

func (vrEvTag[T]) Schema() string { return "vr2" }

type (
	vrStr   string
	vrBool  bool
	vrInt   int
	vrInt8  int8
	vrInt64 int64
	vrUint8 uint8
	vrU64   uint64
	vrF32   float32
	vrF64   float64
)

func vrSame(a, b interface{}) bool {
	switch x := a.(type) {
	case time.Time:
		y := b.(time.Time)
		_, ox := x.Zone()
		_, oy := y.Zone()
		return x.Equal(y) && ox == oy
	}
	v, w := reflect.ValueOf(a), reflect.ValueOf(b)
	if k := v.Kind(); k == reflect.Float32 || k == reflect.Float64 {
		return v.Float() == w.Float() && math.Signbit(v.Float()) == math.Signbit(w.Float()) || v.Float() != v.Float() && w.Float() != w.Float()
	}
	return reflect.DeepEqual(a, b)
}

func vrRound[T any](r *vr, x T) {
	r.do(fmt.Sprintf("field of type %T with value %#v, to annotations and back", x, x), func() {
		for _, nb := range []string{"", "n"} {
			e := vrEv[T]{A: nb, F: x, G: nb}
			as, err := MarshalEvent(e)
			if err != nil {
				r.fail("MarshalEvent: %v", err)
			}
			var g vrEv[T]
			if err := UnmarshalEvent(as, &g); err != nil {
				r.fail("UnmarshalEvent: %v", err)
			}
			if !vrSame(x, g.F) || g.A != nb || g.G != nb {
				r.fail("annotations %s decode to %#v", vrAnns(as), g)
			}
		}
		var zero T
		for _, e := range []vrEvTag[T]{{x, zero}, {zero, x}, {x, x}} {
			as, err := MarshalEvent(e)
			if err != nil {
				r.fail("MarshalEvent: %v", err)
			}
			var g vrEvTag[T]
			if err := UnmarshalEvent(as, &g); err != nil {
				r.fail("UnmarshalEvent: %v", err)
			}
			if !vrSame(e.X, g.X) || !vrSame(e.Y, g.Y) {
				r.fail("annotations %s decode to %#v", vrAnns(as), g)
			}
		}
	})
}

func vrAnns(as Annotations) string {
	s := ""
	for _, a := range as {
		s += fmt.Sprintf(" %q=%q", a.Key, a.Value)
	}
	return s
}

// vrText: what the field holds after decoding the text; ok says whether the text is a
// value of the type, want what it is then.
func vrText[T any](r *vr, s string, want T, ok bool) {
	r.do(fmt.Sprintf("text %q for a field of type %T", s, want), func() {
		var g vrEv[T]
		err := UnmarshalEvent(Annotations{ann("A", "x"), ann("F", s), ann("_schema:vr", "")}, &g)
		_ = err
		var zero T
		if ok && !vrSame(want, g.F) {
			r.fail("decodes to %#v, want %#v", g.F, want)
		}
		if !ok && !vrSame(zero, g.F) {
			r.fail("is not a %T, the field becomes %#v", zero, g.F)
		}
		if g.A != "x" {
			r.fail("the field before it is %q", g.A)
		}
	})
}

func vrInts[T ~int | ~int8 | ~int16 | ~int32 | ~int64](r *vr, bits int, more []string) {
	hi := int64(1)<<(bits-1) - 1
	vals := []int64{0, 1, -1, 9, -10, 127, 128, -128, -129, hi, hi - 1, -hi, -hi - 1, 1 << 15, 1<<31 - 1, 1 << 31, -1 << 31, 1 << 52, 1<<53 + 1, 1<<62 + 1}
	for i := 0; i < r.scale(60); i++ {
		vals = append(vals, r.rnd.Int63()>>uint(r.rnd.Intn(63)), -(r.rnd.Int63() >> uint(r.rnd.Intn(63))))
	}
	for _, x := range vals {
		if x >= -hi-1 && x <= hi {
			vrRound(r, T(x))
		}
		more = append(more, strconv.FormatInt(x, 10))
	}
	for _, s := range more {
		x, err := strconv.ParseInt(s, 10, bits)
		vrText(r, s, T(x), err == nil)
	}
}

func vrUints[T ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](r *vr, bits int, more []string) {
	hi := ^uint64(0) >> uint(64-bits)
	vals := []uint64{0, 1, 9, 10, 127, 128, 255, 256, hi, hi - 1, hi/2 + 1, 1 << 16, 1<<32 - 1, 1 << 32, 1<<53 + 1, 1 << 63, 1<<64 - 1}
	for i := 0; i < r.scale(60); i++ {
		vals = append(vals, r.rnd.Uint64()>>uint(r.rnd.Intn(64)))
	}
	for _, x := range vals {
		if x <= hi {
			vrRound(r, T(x))
		}
		more = append(more, strconv.FormatUint(x, 10))
	}
	for _, s := range more {
		x, err := strconv.ParseUint(s, 10, bits)
		vrText(r, s, T(x), err == nil)
	}
}

func vrFloats[T ~float32 | ~float64](r *vr, bits int, more []string) {
	vals := []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1.0 / 3, 1e-7, 123456789.125, 1 << 24, 1<<24 + 1, 1<<53 + 1, math.MaxFloat32, math.SmallestNonzeroFloat32, math.Inf(1), math.Inf(-1), math.NaN(), math.Pi, 1e21, 1e-30, -2.5e10}
	if bits == 64 {
		vals = append(vals, math.MaxFloat64, math.SmallestNonzeroFloat64, -1e300, 1e-300)
	}
	for i := 0; i < r.scale(100); i++ {
		f := math.Float64frombits(r.rnd.Uint64())
		if bits == 32 {
			f = float64(math.Float32frombits(r.rnd.Uint32()))
		}
		vals = append(vals, f, r.rnd.NormFloat64())
	}
	for _, x := range vals {
		vrRound(r, T(x))
	}
	for _, s := range append(more, "1e400", "-1e400", "1e39", "1e38", "0x1p-2", "1_0", "nan", "inf", "-Inf", "1.5.", "1e", ".5", "5.") {
		x, err := strconv.ParseFloat(s, bits)
		vrText(r, s, T(x), err == nil)
	}
}

func TestReplay_C21(t *testing.T) {
	r := vrStart(t)
	texts := []string{"", " ", "x", "1x", " 1", "1 ", "+1", "-0", "00", "0x10", "1e3", "1.0", "1.5", "true", "null", "99999999999999999999", "-99999999999999999999",
		"128", "-129", "255", "256", "-1", "32768", "65536", "2147483648", "4294967296", "9223372036854775808", "18446744073709551616", "\x00", "١"}
	const chars = " +-.0123456789eExX_\x00\xff"
	for i := 0; i < r.scale(20); i++ {
		b := make([]byte, r.rnd.Intn(6))
		for j := range b {
			b[j] = chars[r.rnd.Intn(len(chars))]
		}
		texts = append(texts, string(b))
	}
	for _, s := range append(texts, "Name", "_schema:", "a\nb", "\xff\xfe", strings.Repeat("z", 3000), "日本") {
		vrRound(r, s)
		vrRound(r, vrStr(s))
		vrText(r, s, s, true)
	}
	for _, b := range []bool{true, false} {
		vrRound(r, b)
		vrRound(r, vrBool(b))
	}
	for _, s := range append(texts, "True", "TRUE", "t", "f", "0", "1", "yes", "tRUE", "on") {
		b, err := strconv.ParseBool(s)
		vrText(r, s, b, err == nil)
		vrText(r, s, vrBool(b), err == nil)
	}
	vrInts[int](r, strconv.IntSize, texts)
	vrInts[int8](r, 8, texts)
	vrInts[int16](r, 16, texts)
	vrInts[int32](r, 32, texts)
	vrInts[int64](r, 64, texts)
	vrInts[vrInt](r, strconv.IntSize, texts)
	vrInts[vrInt8](r, 8, texts)
	vrInts[vrInt64](r, 64, texts)
	vrUints[uint](r, strconv.IntSize, texts)
	vrUints[uint8](r, 8, texts)
	vrUints[uint16](r, 16, texts)
	vrUints[uint32](r, 32, texts)
	vrUints[uint64](r, 64, texts)
	vrUints[vrUint8](r, 8, texts)
	vrUints[vrU64](r, 64, texts)
	vrFloats[float32](r, 32, texts)
	vrFloats[float64](r, 64, texts)
	vrFloats[vrF32](r, 32, texts)
	vrFloats[vrF64](r, 64, texts)

	zones := []*time.Location{time.UTC, time.FixedZone("", 3600), time.FixedZone("", -(9*3600 + 30*60))}
	secs := []int64{0, 1, -1, 1e9, 1.5e9, 253402214400, -62135596800, -62135596801 + 1, 1<<31 - 1, 1 << 31, 1 << 33}
	nanos := []int64{0, 1, 999999999, 1000, 123456789, 100000000, 5000000}
	for i := 0; i < r.scale(100); i++ {
		secs = append(secs, r.rnd.Int63n(4e9)-1e9)
		nanos = append(nanos, r.rnd.Int63n(1e9))
	}
	for i, s := range secs {
		for k := 0; k < 3; k++ {
			z := zones[k]
			if s < -62135500000 {
				z = time.UTC
			}
			vrRound(r, time.Unix(s, nanos[(i*7+k)%len(nanos)]).In(z))
		}
	}
	vrRound(r, time.Time{})
	for _, s := range append(texts, "2014-01-02T03:04:05Z", "2014-01-02T03:04:05.5+01:00", "2014-02-30T00:00:00Z", "2014-01-02", "2014-01-02 03:04:05", "2014-01-02T25:04:05Z") {
		x, err := time.Parse(time.RFC3339Nano, s)
		vrText(r, s, x, err == nil)
	}

	const max = 26 * 24 * time.Hour
	durs := []time.Duration{0, 1, -1, 999, 1000, 1001, 999999, 1000000, 1000001, 333333333, time.Second, time.Minute + 1, time.Hour - 1, 24*time.Hour + 7, max, max - 1, -max, -max + 1, 1<<50 + 1, 1<<51 - 1}
	for i := 0; i < r.scale(2000); i++ {
		d := time.Duration(r.rnd.Int63n(int64(max)) >> uint(r.rnd.Intn(50)))
		if i%2 == 0 {
			d = -d
		}
		durs = append(durs, d)
	}
	for _, d := range durs {
		vrRound(r, d)
	}
	for _, s := range append(texts, "1s", "1h", "NaN", "Inf", "-Inf", "1e300", "-1e300", "9223372036854.775808", "1e13", "-1e13", "1e999") {
		ms, err := strconv.ParseFloat(s, 64)
		ns := ms * 1e6
		ok := err == nil && ns > -9.22e18 && ns < 9.22e18
		if !ok || ns == math.Trunc(ns) {
			vrText(r, s, time.Duration(ns), ok)
		}
	}
}
