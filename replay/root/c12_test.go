package appdash_test

import (
	"errors"
	"fmt"
	"strings"
	"testing"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

type c12rec struct {
	calls map[appdash.SpanID][]appdash.Annotation
	n     map[appdash.SpanID]int
}

func (c *c12rec) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	c.n[id]++
	c.calls[id] = append(c.calls[id], append([]appdash.Annotation(nil), as...)...)
	return nil
}

func c12size(as []appdash.Annotation) (n uint64) {
	n = 24
	for _, a := range as {
		n += uint64(len(a.Key) + len(a.Value))
	}
	return
}

// Random histories of Collect and Flush against a model of the queue.
func TestReplay_C12(t *testing.T) {
	r := vrStart(t)
	for i := 0; i < r.scale(3000); i++ {
		max := []uint64{0, 24, 25, 48, 60, 100, 1000, 70000}[r.rnd.Intn(8)]
		rec := &c12rec{}
		cc := &appdash.ChunkedCollector{Collector: rec, MinInterval: time.Hour, MaxQueueSize: max}
		want := map[appdash.SpanID][]appdash.Annotation{}
		var size uint64
		desc := fmt.Sprintf("MaxQueueSize=%d:", max)
		stopped := false
		flush := func() {
			r.do(desc+" flush", func() {
				rec.calls, rec.n = map[appdash.SpanID][]appdash.Annotation{}, map[appdash.SpanID]int{}
				if err := cc.Flush(); err != nil {
					r.fail("flush failed: %v", err)
				}
				if len(rec.n) != len(want) {
					r.fail("%d spans delivered, %d were queued", len(rec.n), len(want))
				}
				for id, as := range want {
					if rec.n[id] != 1 {
						r.fail("span %v delivered %d times", id, rec.n[id])
					}
					if !sameAnns(rec.calls[id], as) {
						r.fail("span %v delivered with %v, collected %v", id, rec.calls[id], as)
					}
				}
			})
			want, size = map[appdash.SpanID][]appdash.Annotation{}, 0
			desc += " flush"
		}
		for k := r.rnd.Intn(8); k >= 0; k-- {
			switch x := r.rnd.Intn(12); {
			case x == 0:
				flush()
			case x == 1 && !stopped:
				stopped = true
				cc.Stop()
				desc += " stop"
			default:
				id := appdash.SpanID{Trace: appdash.ID(1 + r.rnd.Intn(2)), Span: appdash.ID(1 + r.rnd.Intn(2)), Parent: appdash.ID(r.rnd.Intn(2))}
				var as []appdash.Annotation
				for j := r.rnd.Intn(4); j > 0; j-- {
					as = append(as, ann("key"[:r.rnd.Intn(4)], "value"[:r.rnd.Intn(6)]))
				}
				if r.rnd.Intn(12) == 0 { // a large entry
					as = append(as, ann("key", strings.Repeat("v", 65536+r.rnd.Intn(8))))
				}
				as = append(make([]appdash.Annotation, 0, len(as)+r.rnd.Intn(3)), as...)
				keep := append([]appdash.Annotation(nil), as...)
				desc += fmt.Sprintf(" collect %v %.200s", id, fmt.Sprint(as))
				r.do(desc, func() {
					err := cc.Collect(id, as...)
					switch {
					case stopped:
						if err == nil {
							r.fail("no error after Stop")
						}
					case max != 0 && size+c12size(keep) > max:
						if err != appdash.ErrQueueDropped {
							r.fail("error %v for an overfull queue", err)
						}
						want, size = map[appdash.SpanID][]appdash.Annotation{}, 0
					default:
						if err != nil {
							r.fail("error %v for an accepted collection", err)
						}
						size += c12size(keep)
						want[id] = append(want[id], keep...)
						if _, ok := want[id]; !ok || want[id] == nil {
							want[id] = []appdash.Annotation{}
						}
					}
				})
				// The caller is free to reuse its slice.
				for j := range as {
					as[j] = ann("REUSED", "REUSED")
				}
				if cap(as) > len(as) {
					_ = append(as, ann("REUSED", "REUSED"))
				}
			}
		}
		flush()
		if !stopped {
			cc.Stop()
		}
	}
	// What the background flush reports comes back from the next Collect, once.
	r.do("failing collector, background flush", func() {
		e := errors.New("send failed")
		fail := &failOnce{err: e, done: make(chan bool, 100)}
		cc := &appdash.ChunkedCollector{Collector: fail, MinInterval: 2 * time.Millisecond}
		defer cc.Stop()
		if err := cc.Collect(appdash.SpanID{Trace: 1, Span: 2}, ann("a", "b")); err != nil {
			r.fail("first Collect: %v", err)
		}
		<-fail.done
		time.Sleep(50 * time.Millisecond)
		if err := cc.Collect(appdash.SpanID{Trace: 1, Span: 3}, ann("a", "b")); err != e {
			r.fail("Collect after a failed background flush reports %v", err)
		}
		if err := cc.Collect(appdash.SpanID{Trace: 1, Span: 4}, ann("a", "b")); err != nil {
			r.fail("the failure is reported twice")
		}
	})
}

type failOnce struct {
	err  error
	done chan bool
}

func (f *failOnce) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	f.done <- true
	if id.Span == 2 {
		return f.err
	}
	return nil
}
