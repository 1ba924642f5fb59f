package httptrace

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

// c17check: m is what may be recorded for the headers and trailers.
func c17check(r *vr, what string, m map[string]string, h, tr http.Header) {
	red := func(k string) bool {
		for _, n := range RedactedHeaders {
			if strings.EqualFold(n, k) {
				return true
			}
		}
		return false
	}
	want := map[string][]string{}
	add := func(k string) {
		v := strings.Join(append(append([]string{}, h[k]...), tr[k]...), ",")
		if red(k) {
			v = "REDACTED"
		}
		c := http.CanonicalHeaderKey(k)
		want[c] = append(want[c], v)
	}
	for k := range h {
		add(k)
	}
	for k := range tr {
		if _, ok := h[k]; !ok {
			add(k)
		}
	}
	for k, vs := range want {
		got, ok := m[k]
		in := false
		for _, v := range vs {
			in = in || v == got
		}
		if !ok || !in {
			r.fail("%s: %q recorded as %q (present %v), want one of %q", what, k, got, ok, vs)
		}
	}
	for k := range m {
		if _, ok := want[k]; !ok {
			r.fail("%s: %q recorded as %q, not sent", what, k, m[k])
		}
	}
}

func TestReplay_C17(t *testing.T) {
	r := vrStart(t)
	saved := RedactedHeaders
	defer func() { RedactedHeaders = saved }()
	for i := 0; i < r.scale(6000); i++ {
		RedactedHeaders = saved
		switch r.rnd.Intn(4) {
		case 0:
			RedactedHeaders = []string{"cookie", "Authorization"}
		case 1:
			RedactedHeaders = nil
		}
		h, tr, rh, rt := c17headers(r), c17headers(r), c17headers(r), c17headers(r)
		h0, tr0, rh0, rt0 := c17copy(h), c17copy(tr), c17copy(rh), c17copy(rt)
		r.do(fmt.Sprintf("redacted %q, headers %q, trailers %q, response headers %q, trailers %q", RedactedHeaders, h, tr, rh, rt), func() {
			req := httptest.NewRequest("GET", "http://h/p?q=1", nil)
			req.Header, req.Trailer = h, tr
			resp := &http.Response{StatusCode: 201, ContentLength: 7, Header: rh, Trailer: rt}
			c17check(r, "NewServerEvent", NewServerEvent(req).Request.Headers, h, tr)
			c17check(r, "NewClientEvent", NewClientEvent(req).Request.Headers, h, tr)
			c17check(r, "responseInfo", responseInfo(resp).Headers, rh, rt)
			if i := requestInfo(req); i.Method != "GET" || i.URI != "/p?q=1" && i.URI != "http://h/p?q=1" || i.Host != "h" || i.ContentLength != req.ContentLength || i.RemoteAddr != req.RemoteAddr {
				r.fail("request info %+v", i)
			}
			if i := responseInfo(resp); i.StatusCode != 201 || i.ContentLength != 7 {
				r.fail("response info %+v", i)
			}
			if !c17same(h, h0) || !c17same(tr, tr0) || !c17same(rh, rh0) || !c17same(rt, rt0) {
				r.fail("headers changed: %q %q %q %q", h, tr, rh, rt)
			}
			for k := range h { // the header's spare capacity is not written into either
				if v := h[k]; cap(v) > len(v) && v[:len(v)+1][len(v)] != "" {
					r.fail("values of %q written beyond their end", k)
				}
			}
		})
		// Through the transport.
		r.do(fmt.Sprintf("round trip: redacted %q, headers %q, trailers %q, response headers %q, trailers %q", RedactedHeaders, h, tr, rh, rt), func() {
			req := httptest.NewRequest("GET", "http://h/p", nil)
			req.Header, req.Trailer = h, tr
			sent := http.Header{}
			var anns appdash.Annotations
			rec := appdash.NewRecorder(appdash.NewRootSpanID(), c19coll(func(_ appdash.SpanID, as ...appdash.Annotation) error {
				anns = append(anns, as...)
				return nil
			}))
			tp := &Transport{Recorder: rec, Transport: c18trip(func(q *http.Request) (*http.Response, error) {
				for k, v := range q.Header {
					sent[k] = v
				}
				return &http.Response{StatusCode: 200, Header: rh, Trailer: rt}, nil
			})}
			if _, err := tp.RoundTrip(req); err != nil {
				r.fail("%v", err)
			}
			reqh, resph := map[string]string{}, map[string]string{}
			for _, a := range anns {
				if k := strings.TrimPrefix(a.Key, "Client.Request.Headers."); k != a.Key {
					reqh[k] = string(a.Value)
				}
				if k := strings.TrimPrefix(a.Key, "Client.Response.Headers."); k != a.Key {
					resph[k] = string(a.Value)
				}
			}
			c17check(r, "recorded request", reqh, sent, tr)
			c17check(r, "recorded response", resph, rh, rt)
			if !c17same(h, h0) || !c17same(tr, tr0) || !c17same(rh, rh0) || !c17same(rt, rt0) {
				r.fail("headers changed: %q %q %q %q", h, tr, rh, rt)
			}
		})
	}
}
