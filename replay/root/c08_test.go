package appdash_test

import (
	"fmt"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

// Random collections, deletions, lookups and listings.
func TestReplay_C08(t *testing.T) {
	r := vrStart(t)
	for i := 0; i < r.scale(8000); i++ {
		ms := appdash.NewMemoryStore()
		have := map[appdash.ID]map[appdash.ID]bool{}
		desc := ""
		count := func(tr *appdash.Trace) map[appdash.ID]bool {
			m := map[appdash.ID]bool{}
			var walk func(x *appdash.Trace)
			walk = func(x *appdash.Trace) {
				m[x.ID.Span] = true
				for _, c := range x.Sub {
					walk(c)
				}
			}
			walk(tr)
			return m
		}
		for k := 1 + r.rnd.Intn(12); k > 0; k-- {
			if r.rnd.Intn(3) > 0 {
				id := appdash.SpanID{Trace: appdash.ID(r.rnd.Intn(4)), Span: appdash.ID(1 + r.rnd.Intn(3))}
				id.Parent = id.Span - 1
				desc += fmt.Sprintf(" collect %v;", id)
				if have[id.Trace] == nil {
					have[id.Trace] = map[appdash.ID]bool{}
				}
				have[id.Trace][id.Span] = true
				r.do(desc, func() { ms.Collect(id) })
			} else {
				var ids []appdash.ID
				for j := r.rnd.Intn(4); j > 0; j-- {
					ids = append(ids, appdash.ID(r.rnd.Intn(5)))
					delete(have, ids[len(ids)-1])
				}
				desc += fmt.Sprintf(" delete %v;", ids)
				r.do(desc, func() {
					if err := ms.Delete(ids...); err != nil {
						r.fail("Delete: %v", err)
					}
				})
			}
			for id := appdash.ID(0); id < 5; id++ {
				r.do(fmt.Sprintf("%s lookup %d", desc, uint64(id)), func() {
					tr, err := ms.Trace(id)
					if have[id] == nil {
						if err != appdash.ErrTraceNotFound || tr != nil {
							r.fail("got %v, %v", tr, err)
						}
						return
					}
					if err != nil || tr.ID.Trace != id || fmt.Sprint(count(tr)) != fmt.Sprint(have[id]) {
						r.fail("got %v, %v; its spans should be %v", tr, err, have[id])
					}
				})
			}
			var filter []appdash.ID
			for j := r.rnd.Intn(4); j > 0; j-- {
				filter = append(filter, appdash.ID(r.rnd.Intn(5)))
			}
			r.do(fmt.Sprintf("%s list %v", desc, filter), func() {
				ts, err := ms.Traces(appdash.TracesOpts{TraceIDs: filter})
				if err != nil {
					r.fail("Traces: %v", err)
				}
				got := map[appdash.ID]bool{}
				for _, x := range ts {
					if got[x.ID.Trace] {
						r.fail("trace %v is listed twice", x.ID.Trace)
					}
					got[x.ID.Trace] = true
				}
				want := map[appdash.ID]bool{}
				for id := range have {
					in := len(filter) == 0
					for _, f := range filter {
						in = in || f == id
					}
					if in {
						want[id] = true
					}
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					r.fail("listed %v, want %v", got, want)
				}
			})
		}
	}
}
