package appdash_test

import (
	"fmt"
	"testing"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

func c07find(t *appdash.Trace, id appdash.ID) *appdash.Trace {
	if t.ID.Span == id {
		return t
	}
	for _, c := range t.Sub {
		if x := c07find(c, id); x != nil {
			return x
		}
	}
	return nil
}

// Random collections; the caller changes and extends its slices after every call.
func TestReplay_C07(t *testing.T) {
	r := vrStart(t)
	for i := 0; i < r.scale(6000); i++ {
		chunked := r.rnd.Intn(3) == 0
		ms := appdash.NewMemoryStore()
		var c appdash.Collector = ms
		var cc *appdash.ChunkedCollector
		if chunked {
			cc = &appdash.ChunkedCollector{Collector: ms, MinInterval: time.Hour, FlushTimeout: time.Hour, MaxQueueSize: 1 << 30}
			c = cc
		}
		desc := fmt.Sprintf("chunked=%v:", chunked)
		want := map[appdash.SpanID][]appdash.Annotation{}
		n := 0
		ids := []appdash.SpanID{{Trace: 1, Span: 1}, {Trace: 1, Span: 2, Parent: 1}, {Trace: 1, Span: 3, Parent: 2}, {Trace: 2, Span: 1}, {Trace: 2, Span: 4, Parent: 3}}
		// reused: a backing array the caller uses again and again
		reused := make([]appdash.Annotation, 0, 16)
		for k := 1 + r.rnd.Intn(10); k > 0; k-- {
			id := ids[r.rnd.Intn(len(ids))]
			reused = reused[:0]
			var as []appdash.Annotation
			fresh := r.rnd.Intn(2) == 0
			for m := r.rnd.Intn(4); m > 0; m-- {
				n++
				a := ann(fmt.Sprintf("k%d", n%3), fmt.Sprint(n))
				if fresh {
					as = append(as, a)
				} else {
					reused = append(reused, a)
					as = reused
				}
			}
			desc += fmt.Sprintf(" %v+%d", id, len(as))
			want[id] = append(append([]appdash.Annotation(nil), want[id]...), as...)
			r.do(desc, func() {
				if err := c.Collect(id, as...); err != nil {
					r.fail("Collect: %v", err)
				}
			})
			for j := range as {
				as[j] = ann("overwritten", "x")
			}
			_ = append(as, ann("extended", "x"))
		}
		r.do(desc, func() {
			if cc != nil {
				if err := cc.Flush(); err != nil {
					r.fail("Flush: %v", err)
				}
			}
			for id, w := range want {
				tr, err := ms.Trace(id.Trace)
				if err != nil {
					r.fail("Trace(%v): %v", id.Trace, err)
				}
				x := c07find(tr, id.Span)
				if x == nil {
					r.fail("span %v is missing", id)
				}
				if !sameAnns(x.Annotations, w) {
					r.fail("span %v has annotations %v, collected %v", id, x.Annotations, w)
				}
			}
		})
		if cc != nil {
			cc.Stop()
		}
	}
}
