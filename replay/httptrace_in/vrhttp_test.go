package httptrace

import (
	"net/http"
	"strings"

	"sourcegraph.com/sourcegraph/appdash"
)

var c17names = []string{"Authorization", "authorization", "AUTHORIZATION", "Cookie", "cookie", "X-A", "x-a", "X-B", "Accept", "accept", "bad name"}

func c17headers(r *vr) http.Header {
	if r.rnd.Intn(6) == 0 {
		return nil
	}
	h := http.Header{}
	for n := r.rnd.Intn(5); n > 0; n-- {
		k := c17names[r.rnd.Intn(len(c17names))]
		var v []string
		for m := r.rnd.Intn(4); m > 0; m-- {
			v = append(v, []string{"s3cret", "a", "b", "", "c,d"}[r.rnd.Intn(5)])
		}
		if r.rnd.Intn(3) == 0 {
			v = append(make([]string, 0, 8), v...) // spare capacity
		}
		h[k] = v
	}
	return h
}

func c17copy(h http.Header) http.Header {
	if h == nil {
		return nil
	}
	c := http.Header{}
	for k, v := range h {
		c[k] = append([]string{}, v...)
	}
	return c
}

func c17same(a, b http.Header) bool {
	if (a == nil) != (b == nil) || len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || strings.Join(v, "\x00") != strings.Join(w, "\x00") || len(v) != len(w) {
			return false
		}
	}
	return true
}

type c18trip func(*http.Request) (*http.Response, error)

func (f c18trip) RoundTrip(q *http.Request) (*http.Response, error) { return f(q) }

func c18get(as appdash.Annotations, k string) []byte {
	for _, a := range as {
		if a.Key == k {
			return a.Value
		}
	}
	return nil
}

type c19coll func(appdash.SpanID, ...appdash.Annotation) error

func (f c19coll) Collect(id appdash.SpanID, as ...appdash.Annotation) error { return f(id, as...) }
