package appdash_test

import (
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

type c13rec struct {
	mu    sync.Mutex
	n     map[appdash.SpanID]int
	errs  map[appdash.SpanID]error
	delay time.Duration
	total int
}

func (c *c13rec) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.n[id]++
	c.total++
	if c.delay != 0 {
		time.Sleep(c.delay)
	}
	return c.errs[id]
}

func (c *c13rec) count() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.total
}

func TestReplay_C13(t *testing.T) {
	r := vrStart(t)
	for i := 0; i < r.scale(800); i++ {
		n := r.rnd.Intn(5)
		rec := &c13rec{n: map[appdash.SpanID]int{}, errs: map[appdash.SpanID]error{}}
		cc := &appdash.ChunkedCollector{Collector: rec, MinInterval: time.Hour}
		timeout := r.rnd.Intn(4) == 0 && n > 0
		if timeout {
			cc.FlushTimeout = time.Nanosecond
			rec.delay = 50 * time.Microsecond
		} else if r.rnd.Intn(2) == 0 {
			cc.FlushTimeout = time.Hour
		}
		desc := fmt.Sprintf("flush of %d spans, timeout %v, failing:", n, cc.FlushTimeout)
		var fails []error
		for j := 0; j < n; j++ {
			id := appdash.SpanID{Trace: 1, Span: appdash.ID(j + 1)}
			if r.rnd.Intn(3) == 0 {
				rec.errs[id] = fmt.Errorf("error %d", j)
				fails = append(fails, rec.errs[id])
				desc += fmt.Sprint(" ", j)
			}
			cc.Collect(id, ann("a", "b"))
		}
		r.do(desc, func() {
			err := cc.Flush()
			if timeout {
				if rec.total != 1 {
					r.fail("timeout after the first span, %d were sent", rec.total)
				}
				if err == nil || !strings.Contains(err.Error(), appdash.ErrQueueDropped.Error()) {
					r.fail("the dropped queue is reported as %v", err)
				}
				for id := range rec.n {
					if e := rec.errs[id]; e != nil && (err == nil || !strings.Contains(err.Error(), e.Error())) {
						r.fail("%v is missing from the report %v", e, err)
					}
				}
			} else {
				if rec.total != n || len(rec.n) != n {
					r.fail("%d spans sent in %d calls", len(rec.n), rec.total)
				}
				switch {
				case len(fails) == 0 && err != nil:
					r.fail("no failure is reported as %v", err)
				case len(fails) == 1 && err != fails[0]:
					r.fail("a single failure is reported as %v", err)
				case len(fails) > 1:
					for _, e := range fails {
						if err == nil || !strings.Contains(err.Error(), e.Error()) {
							r.fail("%v is missing from the report %v", e, err)
						}
					}
				}
			}
			rec.n, rec.total = map[appdash.SpanID]int{}, 0
			if err := cc.Flush(); err != nil || rec.total != 0 {
				r.fail("the second flush sends %d spans, error %v", rec.total, err)
			}
		})
		r.do(desc+"; stop, stop again, collect", func() {
			cc.Stop()
			cc.Stop()
			if err := cc.Collect(appdash.SpanID{Trace: 9, Span: 9}); err == nil {
				r.fail("Collect succeeds after Stop")
			}
		})
	}
	r.do("stop before any use, collect", func() {
		rec := &c13rec{n: map[appdash.SpanID]int{}}
		cc := &appdash.ChunkedCollector{Collector: rec, MinInterval: time.Millisecond}
		cc.Stop()
		if err := cc.Collect(appdash.SpanID{Trace: 9, Span: 9}); err == nil {
			r.fail("Collect succeeds after Stop")
		}
		time.Sleep(20 * time.Millisecond)
		if rec.count() != 0 {
			r.fail("data is sent after Stop")
		}
	})
	r.do("collect, stop, wait", func() {
		rec := &c13rec{n: map[appdash.SpanID]int{}}
		cc := &appdash.ChunkedCollector{Collector: rec, MinInterval: 30 * time.Millisecond}
		cc.Collect(appdash.SpanID{Trace: 9, Span: 9})
		cc.Stop()
		time.Sleep(120 * time.Millisecond)
		if rec.count() != 0 {
			r.fail("data is sent after Stop")
		}
	})
	r.do("two failing background flushes", func() {
		e := errors.New("second")
		rec := &c13rec{n: map[appdash.SpanID]int{}, errs: map[appdash.SpanID]error{{Span: 1}: errors.New("first"), {Span: 2}: e}}
		cc := &appdash.ChunkedCollector{Collector: rec, MinInterval: 5 * time.Millisecond}
		defer cc.Stop()
		cc.Collect(appdash.SpanID{Span: 1})
		for rec.count() < 1 {
			time.Sleep(time.Millisecond)
		}
		time.Sleep(40 * time.Millisecond)
		if err := cc.Collect(appdash.SpanID{Span: 2}); err == nil || err.Error() != "first" {
			r.fail("Collect after a failed flush reports %v", err)
		}
		for rec.count() < 2 {
			time.Sleep(time.Millisecond)
		}
		time.Sleep(40 * time.Millisecond)
		if err := cc.Collect(appdash.SpanID{Span: 3}); err != e {
			r.fail("Collect after a second failed flush reports %v", err)
		}
	})
}
