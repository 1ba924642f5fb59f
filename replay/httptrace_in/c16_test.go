package httptrace

import (
	"fmt"
	"io/ioutil"
	"log"
	"net/http"
	"net/http/httptest"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

// c16text draws a header value: absent, valid, nearly valid or junk.
func c16text(r *vr) (s string, ok bool, id appdash.SpanID) {
	hex := func() appdash.ID {
		switch r.rnd.Intn(4) {
		case 0:
			return appdash.ID(r.rnd.Intn(3))
		case 1:
			return ^appdash.ID(r.rnd.Intn(3))
		}
		return appdash.ID(r.rnd.Uint64())
	}
	id = appdash.SpanID{Trace: hex(), Span: hex()}
	if r.rnd.Intn(2) == 0 {
		id.Parent = hex()
	}
	s = fmt.Sprintf("%016x/%016x", uint64(id.Trace), uint64(id.Span))
	if id.Parent != 0 {
		s += fmt.Sprintf("/%016x", uint64(id.Parent))
	}
	switch r.rnd.Intn(5) {
	case 0:
		return "", false, id
	case 1:
		bad := []string{"x", "/", "1", "//", s + "/", s + "/1/2", "/" + s, s + "x", "-" + s, "g/1", "1/", "/1", "10000000000000000/1", "1/10000000000000000", " " + s, "1/2/", "1/2/x"}
		return bad[r.rnd.Intn(len(bad))], false, id
	}
	return s, true, id
}

func TestReplay_C16(t *testing.T) {
	log.SetOutput(ioutil.Discard)
	r := vrStart(t)
	for i := 0; i < r.scale(8000); i++ {
		hs, sok, sid := c16text(r)
		hp, pok, pid := c16text(r)
		h := http.Header{"X-Other": {"1", "2"}}
		if hs != "" || r.rnd.Intn(2) == 0 {
			h["Span-Id"] = []string{hs}
		}
		if hp != "" || r.rnd.Intn(2) == 0 {
			h["Parent-Span-Id"] = []string{hp}
		}
		desc := fmt.Sprintf("Span-ID %q, Parent-Span-ID %q", hs, hp)
		malformed := (hs != "" && !sok) || (hs == "" && hp != "" && !pok)
		check := func(id appdash.SpanID) {
			switch {
			case hs != "" && sok:
				if id != sid {
					r.fail("span %v, want %v", id, sid)
				}
			case hs == "" && hp != "" && pok:
				if id.Trace != pid.Trace || id.Parent != pid.Span {
					r.fail("span %v is not a child of %v", id, pid)
				}
			default:
				if id.Parent != 0 {
					r.fail("span %v is not a root", id)
				}
			}
		}
		r.do("GetSpanID: "+desc, func() {
			id, err := GetSpanID(h)
			if malformed != (err != nil) {
				r.fail("error %v, malformed %v", err, malformed)
			}
			if err == nil {
				check(*id)
			}
		})
		cb := r.rnd.Intn(2) == 0
		r.do(fmt.Sprintf("Middleware (callback %v): %s", cb, desc), func() {
			req := httptest.NewRequest("GET", "http://h/p", nil)
			req.Header = h
			w := httptest.NewRecorder()
			var used, ctx []appdash.SpanID
			runs := 0
			conf := &MiddlewareConfig{}
			if cb {
				conf.SetContextSpan = func(_ *http.Request, id appdash.SpanID) { used = append(used, id) }
			}
			var recd []appdash.SpanID
			Middleware(c19coll(func(id appdash.SpanID, _ ...appdash.Annotation) error {
				recd = append(recd, id)
				return nil
			}), conf)(w, req, func(_ http.ResponseWriter, q *http.Request) {
				runs++
				if id, ok := SpanIDFromContext(q.Context()); ok {
					ctx = append(ctx, id)
					if SpanID(q) != id {
						r.fail("SpanID says %v, the context %v", SpanID(q), id)
					}
				}
			})
			if !cb {
				used = ctx
			}
			if runs != 1 || len(used) != 1 || cb && len(ctx) != 0 {
				r.fail("handler ran %d times, span told %d times", runs, len(used))
			}
			check(used[0])
			if got := w.Header()["Span-Id"]; len(got) != 1 || got[0] != used[0].String() {
				r.fail("response header %q, span %v", got, used[0])
			}
			if len(recd) != 1 || recd[0] != used[0] {
				r.fail("recorded under %v, span %v", recd, used[0])
			}
		})
		r.do("SetSpanIDHeader: "+desc, func() {
			SetSpanIDHeader(h, pid)
			if len(h["Span-Id"]) != 1 || h["Span-Id"][0] != pid.String() || len(h["X-Other"]) != 2 {
				r.fail("headers %v after setting %v", h, pid)
			}
			id, err := GetSpanID(h)
			if err != nil || *id != pid {
				r.fail("set %v, got %v, %v", pid, id, err)
			}
		})
	}
}
