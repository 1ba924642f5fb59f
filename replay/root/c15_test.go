package appdash_test

import (
	"errors"
	"fmt"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

type c15store struct {
	i     int
	w     *[]string
	cerr  error
	terr  error
	tr    *appdash.Trace
	qerr  error
	list  []*appdash.Trace
	extra bool
}

func (s *c15store) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	*s.w = append(*s.w, fmt.Sprintf("collect %d %v %v", s.i, id, as))
	return s.cerr
}
func (s *c15store) Trace(id appdash.ID) (*appdash.Trace, error) {
	*s.w = append(*s.w, fmt.Sprintf("trace %d %v", s.i, id))
	return s.tr, s.terr
}
func (s *c15store) Traces(o appdash.TracesOpts) ([]*appdash.Trace, error) {
	*s.w = append(*s.w, fmt.Sprintf("traces %d %v", s.i, o))
	return s.list, s.qerr
}

func TestReplay_C15(t *testing.T) {
	r := vrStart(t)
	for i := 0; i < r.scale(4000); i++ {
		n := r.rnd.Intn(5)
		var trace []string
		var ss []*c15store
		var stores []appdash.Store
		var qs []appdash.Queryer
		desc := ""
		for j := 0; j < n; j++ {
			s := &c15store{i: j, w: &trace, tr: &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{Trace: 7, Span: appdash.ID(j + 1)}}}}
			if r.rnd.Intn(3) == 0 {
				s.cerr = fmt.Errorf("collect error %d", j)
			}
			switch r.rnd.Intn(4) {
			case 0, 1:
				s.terr = appdash.ErrTraceNotFound
				if r.rnd.Intn(2) == 0 {
					s.tr = nil
				}
			case 2:
				s.terr = errors.New("lookup error")
			}
			if r.rnd.Intn(5) == 0 {
				s.qerr = fmt.Errorf("query error %d", j)
			}
			for k := r.rnd.Intn(4); k > 0; k-- {
				s.list = append(s.list, &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{Trace: appdash.ID(r.rnd.Intn(4)), Span: appdash.ID(100*j + k)}}})
			}
			ids := ""
			for _, x := range s.list {
				ids += fmt.Sprintf("%d ", uint64(x.Span.ID.Trace))
			}
			desc += fmt.Sprintf("{collect:%v lookup:%v query:%v list:%s}", s.cerr, s.terr, s.qerr, ids)
			ss = append(ss, s)
			stores = append(stores, s)
			qs = append(qs, s)
		}
		id := appdash.SpanID{Trace: 9, Span: appdash.ID(i), Parent: 3}
		as := []appdash.Annotation{ann("a", "b"), ann("c", "d")}
		r.do("Collect on stores "+desc, func() {
			trace = nil
			err := appdash.MultiStore(stores...).Collect(id, as...)
			var want []string
			var werr error
			for _, s := range ss {
				want = append(want, fmt.Sprintf("collect %d %v %v", s.i, id, as))
				if werr = s.cerr; werr != nil {
					break
				}
			}
			if fmt.Sprint(trace) != fmt.Sprint(want) || err != werr {
				r.fail("did %v returning %v; want %v, %v", trace, err, want, werr)
			}
		})
		r.do("Trace on stores "+desc, func() {
			trace = nil
			tr, err := appdash.MultiStore(stores...).Trace(5)
			var want []string
			var wtr *appdash.Trace
			var werr error = appdash.ErrTraceNotFound
			for _, s := range ss {
				want = append(want, fmt.Sprintf("trace %d %v", s.i, appdash.ID(5)))
				if s.terr != appdash.ErrTraceNotFound {
					werr = s.terr
					if werr == nil {
						wtr = s.tr
					}
					break
				}
			}
			if fmt.Sprint(trace) != fmt.Sprint(want) || err != werr || (err == nil && tr != wtr) {
				r.fail("did %v returning %v, %v; want %v, %v, %v", trace, tr, err, want, wtr, werr)
			}
		})
		r.do("Traces on queryers "+desc, func() {
			trace = nil
			o := appdash.TracesOpts{TraceIDs: []appdash.ID{4, 5}}
			got, err := appdash.MultiQueryer(qs...).Traces(o)
			var want []string
			var wl []*appdash.Trace
			var werr error
			seen := map[appdash.ID]bool{}
			for _, s := range ss {
				want = append(want, fmt.Sprintf("traces %d %v", s.i, o))
				if werr = s.qerr; werr != nil {
					break
				}
				for _, x := range s.list {
					if !seen[x.Span.ID.Trace] {
						seen[x.Span.ID.Trace] = true
						wl = append(wl, x)
					}
				}
			}
			if fmt.Sprint(trace) != fmt.Sprint(want) || err != werr {
				r.fail("did %v returning %v; want %v, %v", trace, err, want, werr)
			}
			if err == nil {
				if len(got) != len(wl) {
					r.fail("returned %d traces, want %d", len(got), len(wl))
				}
				for k := range wl {
					if got[k] != wl[k] {
						r.fail("trace %d is %v, want %v", k, got[k], wl[k])
					}
				}
			}
		})
	}
}
