package httptrace

import (
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

type c23trip struct {
	mu sync.Mutex
	n  int
}

func (c *c23trip) RoundTrip(q *http.Request) (*http.Response, error) {
	c.mu.Lock()
	c.n++
	n := c.n
	c.mu.Unlock()
	time.Sleep(10 * time.Microsecond)
	if n%3 == 0 {
		return nil, errors.New("refused")
	}
	return &http.Response{StatusCode: 200}, nil
}

func (c *c23trip) CancelRequest(*http.Request) {}

func TestReplay_C23(t *testing.T) {
	r := vrStart(t)
	for i := 0; i < r.scale(60); i++ {
		desc := "Transport: concurrent RoundTrip and CancelRequest of the same and of other requests"
		r.do(desc, func() {
			fmt.Printf("REPLAY-CASE: %s\n", desc)
			rec := appdash.NewRecorder(appdash.SpanID{Trace: 5, Span: 6}, appdash.NewLocalCollector(appdash.NewMemoryStore()))
			tp := &Transport{Recorder: rec, Transport: &c23trip{}, SetName: i%2 == 0}
			reqs := make([]*http.Request, 4)
			for k := range reqs {
				reqs[k] = httptest.NewRequest("GET", "http://h/p", nil)
			}
			done := make(chan bool)
			go func() {
				var wg sync.WaitGroup
				for k := range reqs {
					q := reqs[k]
					wg.Add(2)
					go func() {
						defer wg.Done()
						for j := 0; j < 20; j++ {
							tp.RoundTrip(q)
						}
					}()
					go func() {
						defer wg.Done()
						for j := 0; j < 20; j++ {
							tp.CancelRequest(q)
							time.Sleep(5 * time.Microsecond)
						}
					}()
				}
				wg.Wait()
				close(done)
			}()
			select {
			case <-done:
			case <-time.After(10 * time.Second):
				r.fail("RoundTrip or CancelRequest does not return: a lock is held for ever")
			}
		})
	}
}
