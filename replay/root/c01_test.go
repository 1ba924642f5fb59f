package appdash_test

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestReplay_C01(t *testing.T) {
	r := vrStart(t)
	vals := []uint64{0, 1, 9, 10, 15, 16, 255, 1 << 31, 1 << 32, 1<<60 - 1, 1 << 60, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 2, 1<<64 - 1, 0x0102030405060708}
	for i := 0; i < r.scale(40); i++ {
		vals = append(vals, r.rnd.Uint64()>>uint(r.rnd.Intn(64)))
	}
	pick := func() appdash.ID { return appdash.ID(vals[r.rnd.Intn(len(vals))]) }
	for _, v := range vals {
		id := appdash.ID(v)
		r.do(fmt.Sprintf("ID %d", v), func() {
			if s := id.String(); s != fmt.Sprintf("%016x", v) {
				r.fail("String() = %q", s)
			}
			if p, err := appdash.ParseID(id.String()); err != nil || p != id {
				r.fail("ParseID(String()) = %d, %v", p, err)
			}
			b, err := json.Marshal(id)
			if err != nil || string(b) != `"`+id.String()+`"` {
				r.fail("JSON form %s, %v", b, err)
			}
			x := appdash.ID(77)
			if err := json.Unmarshal(b, &x); err != nil || x != id {
				r.fail("JSON decode of %s = %d, %v", b, x, err)
			}
			x = 77
			if err := json.Unmarshal([]byte(strconv.FormatUint(v, 10)), &x); err != nil || x != id {
				r.fail("JSON decode of integer = %d, %v", x, err)
			}
		})
	}
	for _, s := range []string{`null`, `true`, `-1`, `1.5`, `1e3`, `18446744073709551616`, `""`, `"xyz"`, `"0x10"`, `"10000000000000000"`, `"-1"`, `[1]`, `{}`, `"12 "`, `"+1"`} {
		r.do("JSON text "+s, func() {
			x := appdash.ID(77)
			err := json.Unmarshal([]byte(s), &x)
			if s == "null" {
				return // encoding/json's null convention
			}
			if err == nil || x != 77 {
				r.fail("accepted as %d (err %v)", x, err)
			}
		})
		r.do("direct UnmarshalJSON of "+s, func() {
			x := appdash.ID(77)
			err := (&x).UnmarshalJSON([]byte(s))
			if s != "null" && (err == nil || x != 77) {
				r.fail("accepted as %d (err %v)", x, err)
			}
		})
	}
	n := r.scale(3000)
	for i := 0; i < n; i++ {
		id := appdash.SpanID{Trace: pick(), Span: pick(), Parent: pick()}
		if i%3 == 0 {
			id.Parent = 0
		}
		r.do(fmt.Sprintf("SpanID %#v", id), func() {
			s := id.String()
			p, err := appdash.ParseSpanID(s)
			if err != nil || p == nil || *p != id {
				r.fail("ParseSpanID(%q) = %v, %v", s, p, err)
			}
		})
	}
	// arbitrary text against an independent reading of the format
	ok := func(s string) (appdash.SpanID, bool) {
		parts := strings.Split(s, "/")
		if len(parts) != 2 && len(parts) != 3 {
			return appdash.SpanID{}, false
		}
		var v [3]uint64
		for i, p := range parts {
			if p == "" {
				return appdash.SpanID{}, false
			}
			for _, c := range []byte(p) {
				var d uint64
				switch {
				case '0' <= c && c <= '9':
					d = uint64(c - '0')
				case 'a' <= c && c <= 'f':
					d = uint64(c-'a') + 10
				case 'A' <= c && c <= 'F':
					d = uint64(c-'A') + 10
				default:
					return appdash.SpanID{}, false
				}
				if v[i]>>60 != 0 {
					return appdash.SpanID{}, false
				}
				v[i] = v[i]<<4 | d
			}
		}
		return appdash.SpanID{Trace: appdash.ID(v[0]), Span: appdash.ID(v[1]), Parent: appdash.ID(v[2])}, true
	}
	texts := []string{"", "/", "//", "///", "1/2/3/4", "1/2/", "/1/2", "1//2", "1/", "/1", "1", "1/2", "1/2/3", "1/2/3/", " 1/2", "1 /2", "1/2\n", "g/1", "1/g", "1/2/g", "1/+2", "-1/2", "1/0x2", "1/2 3", "1/1_0", "1/00000000000000002", "10000000000000000/1", "1/10000000000000000", "1/2/10000000000000000", "ffffffffffffffff/1", "1/2/ffffffffffffffff", "A/B", "1/2/3/4/5", "1/2//", "1/2/x"}
	alpha := "0123456789abcdefABCF//////xg +-_."
	for i := 0; i < r.scale(4000); i++ {
		n := r.rnd.Intn(24)
		var b []byte
		for j := 0; j < n; j++ {
			b = append(b, alpha[r.rnd.Intn(len(alpha))])
		}
		texts = append(texts, string(b))
	}
	for _, s := range texts {
		r.do(fmt.Sprintf("text %q", s), func() {
			p, err := appdash.ParseSpanID(s)
			want, good := ok(s)
			if good && (err != nil || p == nil || *p != want) {
				r.fail("ParseSpanID = %v, %v; want %v", p, err, want)
			}
			if !good && (err == nil || p != nil) {
				r.fail("ParseSpanID accepted it: %v, %v", p, err)
			}
		})
	}
}
