package httptrace

import (
	"bytes"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

// c19w is the real writer: it notes the calls made on it.
type c19w struct {
	h     http.Header
	calls *[]string
	short bool
}

func (w c19w) Header() http.Header { return w.h }
func (w c19w) WriteHeader(c int)   { *w.calls = append(*w.calls, fmt.Sprint("status ", c)) }
func (w c19w) Write(b []byte) (int, error) {
	*w.calls = append(*w.calls, fmt.Sprintf("write %q", b))
	if w.short && len(b) > 1 {
		return len(b) - 1, errors.New("short")
	}
	return len(b), nil
}

type c19wf struct{ c19w }

func (w c19wf) Flush() { *w.calls = append(*w.calls, "flush") }

func TestReplay_C19(t *testing.T) {
	r := vrStart(t)
	for i := 0; i < r.scale(8000); i++ {
		var ops []string
		type op struct {
			kind, code int
			b          []byte
		}
		var os []op
		for n := r.rnd.Intn(7); n > 0; n-- {
			o := op{kind: r.rnd.Intn(3), code: []int{100, 103, 101, 200, 201, 204, 304, 404, 500, 599}[r.rnd.Intn(10)], b: bytes.Repeat([]byte("x"), r.rnd.Intn(5))}
			os = append(os, o)
			ops = append(ops, [...]string{fmt.Sprint("status ", o.code), fmt.Sprintf("write %q", o.b), "flush"}[o.kind])
		}
		flusher, short := r.rnd.Intn(2) == 0, r.rnd.Intn(4) == 0
		failing := r.rnd.Intn(5) == 0
		conf := &MiddlewareConfig{}
		cfg := r.rnd.Intn(8)
		if cfg&1 != 0 {
			conf.RouteName = func(*http.Request) string { return "route" }
		}
		if cfg&2 != 0 {
			conf.CurrentUser = func(*http.Request) string { return "user" }
		}
		if cfg&4 != 0 {
			conf.SetContextSpan = func(*http.Request, appdash.SpanID) {}
		}
		r.do(fmt.Sprintf("handler %q, flusher %v, short writes %v, collector fails %v, config %d", ops, flusher, short, failing, cfg), func() {
			var calls []string
			w := c19w{http.Header{}, &calls, short}
			var rw http.ResponseWriter = w
			if flusher {
				rw = c19wf{w}
			}
			var want []string
			status, length := 0, 0
			colls := 0
			var anns appdash.Annotations
			runs := 0
			c := c19coll(func(_ appdash.SpanID, as ...appdash.Annotation) error {
				if runs != 1 {
					r.fail("collected before the handler returned")
				}
				colls++
				if colls == 1 {
					anns = append(anns, as...)
				}
				if failing {
					return errors.New("cannot collect")
				}
				return nil
			})
			req := httptest.NewRequest("GET", "http://h/p", nil)
			Middleware(c, conf)(rw, req, func(x http.ResponseWriter, q *http.Request) {
				runs++
				x.Header().Set("X-H", "v")
				for i, o := range os {
					switch o.kind {
					case 0:
						x.WriteHeader(o.code)
						if status == 0 && (o.code > 199 || o.code == 101) {
							status = o.code
						}
						want = append(want, ops[i])
					case 1:
						n, err := x.Write(o.b)
						wn := len(o.b)
						if short && wn > 1 {
							wn--
						}
						if n != wn || (err != nil) != (short && len(o.b) > 1) {
							r.fail("Write of %d bytes returned %d, %v", len(o.b), n, err)
						}
						length += n
						if status == 0 {
							status = 200
						}
						want = append(want, ops[i])
					case 2:
						if f, ok := x.(http.Flusher); ok {
							f.Flush()
						} else if flusher {
							r.fail("the writer passed on does not flush")
						}
						if flusher {
							want = append(want, ops[i])
						}
					}
				}
			})
			if runs != 1 {
				r.fail("handler ran %d times", runs)
			}
			if fmt.Sprint(calls) != fmt.Sprint(want) || len(calls) != len(want) {
				r.fail("the writer got %q, want %q", calls, want)
			}
			if w.h.Get("X-H") != "v" {
				r.fail("headers %v", w.h)
			}
			if colls == 0 || colls > 1 && !failing {
				r.fail("%d collections", colls)
			}
			if status == 0 {
				status = 200
			}
			if got := string(c18get(anns, "Server.Response.StatusCode")); got != fmt.Sprint(status) {
				r.fail("recorded status %s, sent %d", got, status)
			}
			if got := string(c18get(anns, "Server.Response.ContentLength")); got != fmt.Sprint(length) {
				r.fail("recorded length %s, wrote %d", got, length)
			}
			if got := string(c18get(anns, "Server.Response.Headers.X-H")); got != "v" {
				r.fail("recorded header %q", got)
			}
			if cfg&2 != 0 && string(c18get(anns, "Server.User")) != "user" {
				r.fail("recorded user %q", c18get(anns, "Server.User"))
			}
			if cfg&1 != 0 && string(c18get(anns, "Server.Route")) != "route" {
				r.fail("recorded route %q", c18get(anns, "Server.Route"))
			}
		})
	}
}
