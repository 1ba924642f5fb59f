package main

import (
	"encoding/base64"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
)

func TestReplay_C26(t *testing.T) {
	r := vrStart(t)
	parts := []string{"u", "user", "U", "p", "passwd", "pass:word", " ", "é", "a b"}
	for i := 0; i < r.scale(3000); i++ {
		user, pw := parts[r.rnd.Intn(len(parts))], parts[r.rnd.Intn(len(parts))]
		want := "Basic " + base64.StdEncoding.EncodeToString([]byte(user+":"+pw))
		var hdrs []string
		switch r.rnd.Intn(12) {
		case 0:
			hdrs = []string{want}
		case 1:
		case 2:
			hdrs = []string{""}
		case 3:
			hdrs = []string{want[:r.rnd.Intn(len(want))]}
		case 4:
			hdrs = []string{want + string("= aA\x00"[r.rnd.Intn(5)])}
		case 5:
			b := []byte(want)
			b[r.rnd.Intn(len(b))] ^= byte(1 << uint(r.rnd.Intn(7)))
			hdrs = []string{string(b)}
		case 6:
			hdrs = []string{strings.ToLower(want)}
		case 7:
			hdrs = []string{"basic " + want[6:]}
		case 8:
			hdrs = []string{"x", want}
		case 9:
			hdrs = []string{want, "x"}
		case 10:
			hdrs = []string{"Basic " + base64.StdEncoding.EncodeToString([]byte(parts[r.rnd.Intn(len(parts))]+":"+parts[r.rnd.Intn(len(parts))]))}
		default:
			hdrs = []string{"Bearer " + want[6:]}
		}
		r.do(fmt.Sprintf("configured %q:%q, authorization %q", user, pw, hdrs), func() {
			n := 0
			h := newBasicAuthHandler(user, pw, http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
				n++
				w.WriteHeader(299)
			}))
			q := httptest.NewRequest("GET", "/", nil)
			for _, x := range hdrs {
				q.Header.Add("Authorization", x)
			}
			w := httptest.NewRecorder()
			h.ServeHTTP(w, q)
			if len(hdrs) > 0 && hdrs[0] == want {
				if n != 1 || w.Code != 299 {
					r.fail("the right credentials reach the app %d times, status %d", n, w.Code)
				}
				return
			}
			if n != 0 {
				r.fail("wrong credentials reach the app")
			}
			if w.Code != 401 || !strings.HasPrefix(w.Header().Get("WWW-Authenticate"), "Basic ") {
				r.fail("answered %d with challenge %q", w.Code, w.Header().Get("WWW-Authenticate"))
			}
		})
	}
}
