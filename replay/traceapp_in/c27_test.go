package traceapp

import (
	"fmt"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

type c27store struct {
	*appdash.MemoryStore
	calls []string
	fail  int
}

func c27str(id appdash.SpanID, as []appdash.Annotation) string { return fmt.Sprint(id, as) }

func (s *c27store) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	s.calls = append(s.calls, c27str(id, as))
	if len(s.calls) == s.fail {
		return fmt.Errorf("failure %d", s.fail)
	}
	return s.MemoryStore.Collect(id, as...)
}

func TestReplay_C27(t *testing.T) {
	r := vrStart(t)
	for i := 0; i < r.scale(6000); i++ {
		st := &c27store{MemoryStore: appdash.NewMemoryStore(), fail: -1}
		there := map[appdash.ID]bool{}
		for k := appdash.ID(1); k < 5; k++ {
			if r.rnd.Intn(3) == 0 {
				st.MemoryStore.Collect(appdash.SpanID{Trace: k, Span: 77})
				there[k] = true
			}
		}
		if r.rnd.Intn(2) == 0 {
			st.fail = 1 + r.rnd.Intn(8)
		}
		var up []*appdash.Trace
		var want []string
		desc := fmt.Sprintf("stored %v, failing call %d, upload:", there, st.fail)
		seen := map[appdash.ID]bool{}
		for k := r.rnd.Intn(4); k > 0; k-- {
			id := appdash.ID(1 + r.rnd.Intn(6))
			skip := there[id] || seen[id]
			seen[id] = true
			var all []*appdash.Trace
			for j, n := 0, 1+r.rnd.Intn(5); j < n; j++ {
				x := &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{Trace: id, Span: appdash.ID(r.rnd.Uint64() | 1)}}}
				for m := r.rnd.Intn(3); m > 0; m-- {
					x.Annotations = append(x.Annotations, appdash.Annotation{Key: fmt.Sprint("k", m), Value: []byte{byte(r.rnd.Intn(256))}})
				}
				if j > 0 {
					p := all[r.rnd.Intn(j)]
					x.ID.Parent = p.ID.Span
					p.Sub = append(p.Sub, x)
				}
				all = append(all, x)
			}
			var walk func(x *appdash.Trace)
			walk = func(x *appdash.Trace) {
				want = append(want, c27str(x.ID, x.Annotations))
				for _, c := range x.Sub {
					walk(c)
				}
			}
			desc += fmt.Sprintf(" %v with %d spans (skipped: %v)", id, len(all), skip)
			if !skip {
				walk(all[0])
			}
			up = append(up, all[0])
		}
		r.do(desc, func() {
			fails := st.fail > 0 && st.fail <= len(want)
			if fails {
				want = want[:st.fail]
			}
			a := &App{Store: st}
			err := a.uploadTraces(up...)
			if fails != (err != nil) || err != nil && err.Error() != fmt.Sprintf("failure %d", st.fail) {
				r.fail("returned %v", err)
			}
			if fmt.Sprint(st.calls) != fmt.Sprint(want) {
				r.fail("collected %v, want %v", st.calls, want)
			}
		})
	}
}
