package httptrace

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestReplay_C18(t *testing.T) {
	r := vrStart(t)
	for i := 0; i < r.scale(6000); i++ {
		h, tr, rh := c17headers(r), c17headers(r), c17headers(r)
		if r.rnd.Intn(3) == 0 && h != nil {
			h["Span-Id"] = []string{"old", "older"}
		}
		h0 := c17copy(h)
		var fault error
		if r.rnd.Intn(3) == 0 {
			fault = errors.New("refused")
		}
		both := r.rnd.Intn(4) == 0 // an error and a response
		name := r.rnd.Intn(2) == 0
		code := []int{200, 404, 500, 101, 0}[r.rnd.Intn(5)]
		failing := r.rnd.Intn(4) == 0
		nested := r.rnd.Intn(4) == 0
		gone := r.rnd.Intn(8) // 0: the request's context is cancelled before, 1: during the trip
		r.do(fmt.Sprintf("headers %q, fault %v (with a response: %v), status %d, collector fails %v, SetName %v, context cancelled (0 before, 1 during) %v", h, fault, both, code, failing, name, gone), func() {
			req := httptest.NewRequest("POST", "http://h/p", strings.NewReader("body"))
			req.Header, req.Trailer = h, tr
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			req = req.WithContext(ctx)
			req.Header = h
			if gone == 0 {
				cancel()
			}
			before := *req
			resp := &http.Response{StatusCode: code, ContentLength: 5, Header: rh}
			if fault != nil && !both {
				resp = nil
			}
			var colls []appdash.SpanID
			var anns appdash.Annotations
			rec := appdash.NewRecorder(appdash.SpanID{Trace: 5, Span: 6, Parent: 7}, c19coll(func(id appdash.SpanID, as ...appdash.Annotation) error {
				colls = append(colls, id)
				if anns == nil {
					anns = append(anns, as...)
				}
				if failing {
					return errors.New("cannot collect")
				}
				return nil
			}))
			rec.Logger = nil
			trips := 0
			var tp *Transport
			tp = &Transport{Recorder: rec, SetName: name}
			tp.Transport = c18trip(func(q *http.Request) (*http.Response, error) {
				trips++
				if q == req {
					r.fail("the caller's request was passed on, not a copy")
				}
				if tp.requests[req] != q {
					r.fail("the request in flight is not known to CancelRequest")
				}
				id, err := appdash.ParseSpanID(q.Header.Get("Span-ID"))
				if err != nil || len(q.Header["Span-Id"]) != 1 || id.Trace != 5 || id.Parent != 6 {
					r.fail("Span-ID header %q", q.Header["Span-Id"])
				}
				c := c17copy(q.Header)
				delete(c, "Span-Id")
				w := c17copy(h0)
				if w == nil {
					w = http.Header{}
				}
				delete(w, "Span-Id")
				if !c17same(c, w) {
					r.fail("sent headers %q", q.Header)
				}
				if q.Method != req.Method || q.URL != req.URL || q.Body != req.Body || q.ContentLength != req.ContentLength || q.Host != req.Host || q.Proto != req.Proto || q.RequestURI != req.RequestURI || q.Context() != req.Context() {
					r.fail("the copy differs: %+v", q)
				}
				q.Header["X-Added"] = []string{"1"} // a transport may change its copy
				q.Method = "X"
				if nested {
					for k := range tp.requests {
						if k != req {
							r.fail("stray bookkeeping")
						}
					}
				}
				if gone == 1 {
					cancel()
				}
				return resp, fault
			})
			got, err := tp.RoundTrip(req)
			if got != resp || err != fault {
				r.fail("returned %v, %v", got, err)
			}
			if trips != 1 {
				r.fail("%d round trips", trips)
			}
			if !c17same(req.Header, h0) || (req.Header == nil) != (before.Header == nil) || req.Method != "POST" || req.URL != before.URL || req.Body != before.Body {
				r.fail("the caller's request changed: %+v", req)
			}
			if len(tp.requests) != 0 {
				r.fail("bookkeeping left behind: %v", tp.requests)
			}
			if len(colls) == 0 || len(colls) != 1 && !failing {
				r.fail("%d collections", len(colls))
			}
			if id := colls[0]; id.Trace != 5 || id.Parent != 6 {
				r.fail("collected under %v", id)
			}
			want := fmt.Sprint(code)
			if fault != nil {
				want = "-1"
			}
			if got := string(c18get(anns, "Client.Response.StatusCode")); got != want {
				r.fail("recorded status %q, want %s", got, want)
			}
			if n := string(c18get(anns, "Name")); name && n != "Request h" {
				r.fail("name %q", n)
			}
		})
	}
}
