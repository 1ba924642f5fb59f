package appdash_test

import (
	"errors"
	"fmt"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

type c10store struct {
	trace []string
	fail  map[string]bool
	inner *appdash.MemoryStore
}

func (s *c10store) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	e := fmt.Sprintf("collect %v %v", id, appdash.Annotations(as))
	s.trace = append(s.trace, e)
	if s.fail[fmt.Sprint("c", uint64(id.Trace))] {
		return errors.New("collect failure")
	}
	return nil
}
func (s *c10store) Trace(id appdash.ID) (*appdash.Trace, error) { return s.inner.Trace(id) }
func (s *c10store) Traces(o appdash.TracesOpts) ([]*appdash.Trace, error) {
	return s.inner.Traces(o)
}
func (s *c10store) Delete(ids ...appdash.ID) error {
	for _, id := range ids {
		s.trace = append(s.trace, fmt.Sprintf("delete %d", uint64(id)))
	}
	if len(ids) == 0 {
		s.trace = append(s.trace, "delete nothing")
	}
	for _, id := range ids {
		if s.fail[fmt.Sprint("d", uint64(id))] {
			return errors.New("delete failure")
		}
	}
	return nil
}

func TestReplay_C10(t *testing.T) {
	r := vrStart(t)
	ids := []appdash.ID{0, 1, 2, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 2, 5}
	for i := 0; i < r.scale(4000); i++ {
		max := 1 + r.rnd.Intn(4)
		st := &c10store{fail: map[string]bool{}, inner: appdash.NewMemoryStore()}
		ls := &appdash.LimitStore{Max: max, DeleteStore: st}
		for _, id := range ids {
			if r.rnd.Intn(6) == 0 {
				st.fail[fmt.Sprint("d", uint64(id))] = true
			}
			if r.rnd.Intn(8) == 0 {
				st.fail[fmt.Sprint("c", uint64(id))] = true
			}
		}
		var tracked []appdash.ID
		var hist []string
		for o := 0; o < 14; o++ {
			id := appdash.SpanID{Trace: ids[r.rnd.Intn(len(ids))], Span: appdash.ID(o + 1), Parent: appdash.ID(r.rnd.Intn(2))}
			as := []appdash.Annotation{ann(fmt.Sprint("k", o), "v")}
			hist = append(hist, fmt.Sprintf("%d", uint64(id.Trace)))
			st.trace = nil
			r.do(fmt.Sprintf("Max %d, failing %v, traces collected in order %v", max, st.fail, hist), func() {
				var want []string
				wantErr := false
				has := false
				for _, x := range tracked {
					has = has || x == id.Trace
				}
				if !has && len(tracked) == max {
					old := tracked[0]
					want = append(want, fmt.Sprintf("delete %d", uint64(old)))
					if st.fail[fmt.Sprint("d", uint64(old))] {
						wantErr = true
					} else {
						tracked = tracked[1:]
					}
				}
				if !wantErr {
					if !has {
						tracked = append(tracked[:len(tracked):len(tracked)], id.Trace)
					}
					want = append(want, fmt.Sprintf("collect %v %v", id, appdash.Annotations(as)))
					wantErr = st.fail[fmt.Sprint("c", uint64(id.Trace))]
				}
				err := ls.Collect(id, as...)
				if fmt.Sprint(st.trace) != fmt.Sprint(want) {
					r.fail("the store was asked to %v, want %v", st.trace, want)
				}
				if (err != nil) != wantErr {
					r.fail("returned %v", err)
				}
			})
		}
	}
}
