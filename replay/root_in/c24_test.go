package appdash

import (
	"fmt"
	"testing"
	"time"
)

type c24other struct{}

func (c24other) Schema() string { return "c24other" }

func TestReplay_C24(t *testing.T) {
	r := vrStart(t)
	for i := 0; i < r.scale(4000); i++ {
		n := 1 + r.rnd.Intn(9)
		ids := r.rnd.Intn(6) + 2
		var all []*Trace
		desc := "tree (index:id<-parent index):"
		for k := 0; k < n; k++ {
			x := &Trace{Span: Span{ID: SpanID{Trace: 1, Span: ID(r.rnd.Intn(ids))}}}
			p := -1
			if k > 0 {
				p = r.rnd.Intn(k)
				all[p].Sub = append(all[p].Sub, x)
			}
			desc += fmt.Sprintf(" %d:%d<-%d", k, x.ID.Span, p)
			all = append(all, x)
		}
		for id := 0; id < ids+1; id++ {
			r.do(fmt.Sprintf("%s; find %d", desc, id), func() {
				have := false
				for _, x := range all {
					have = have || x.ID.Span == ID(id)
				}
				got := all[0].FindSpan(ID(id))
				if (got != nil) != have {
					r.fail("found %v, in the tree: %v", got != nil, have)
				}
				if got == nil {
					return
				}
				in := false
				for _, x := range all {
					in = in || x == got
				}
				if !in || got.ID.Span != ID(id) {
					r.fail("returned span %v, in the tree: %v", got.ID, in)
				}
			})
		}
	}
	base := time.Unix(1500000000, 0)
	for i := 0; i < r.scale(20000); i++ {
		var es []Event
		var lo, hi time.Time
		ok := false
		desc := "events:"
		for k := r.rnd.Intn(6); k > 0; k-- {
			var s, e time.Time
			if r.rnd.Intn(4) != 0 {
				s = base.Add(time.Duration(r.rnd.Intn(7)))
				if r.rnd.Intn(6) == 0 {
					s = time.Unix(0, int64(r.rnd.Intn(3)-1))
				}
			}
			if r.rnd.Intn(6) != 0 {
				e = base.Add(time.Duration(r.rnd.Intn(9) - 1))
				if r.rnd.Intn(6) == 0 {
					e = time.Unix(0, int64(r.rnd.Intn(3)-1))
				}
			} else if s.IsZero() {
				e = base.Add(100)
			} else {
				e = s
			}
			switch r.rnd.Intn(3) {
			case 0:
				es = append(es, Timespan{S: s, E: e})
			case 1:
				es = append(es, timespanEvent{S: s, E: e})
			default:
				es = append(es, c24other{})
				desc += " other"
				continue
			}
			desc += fmt.Sprintf(" [%d %d]", s.Sub(base), e.Sub(base))
			if s.IsZero() {
				continue
			}
			if !ok || s.Before(lo) {
				lo = s
			}
			if !ok || e.After(hi) {
				hi = e
			}
			ok = true
		}
		r.do(desc, func() {
			s, e, k := findTraceTimes(es)
			if k != ok {
				r.fail("known: %v, want %v", k, ok)
			}
			if ok && (!s.Equal(lo) || !e.Equal(hi)) {
				r.fail("extent [%d %d], want [%d %d]", s.Sub(base), e.Sub(base), lo.Sub(base), hi.Sub(base))
			}
		})
	}
	for i := 0; i < r.scale(500); i++ {
		ev := Timespan{S: base.Add(time.Duration(r.rnd.Intn(1000)) * time.Second).UTC(), E: base.Add(time.Duration(r.rnd.Intn(2000)) * time.Second).UTC()}
		as, err := MarshalEvent(ev)
		if err != nil {
			t.Fatal(err)
		}
		other, _ := MarshalEvent(Msg("m"))
		kind := r.rnd.Intn(3)
		if kind == 1 {
			as = append(other, as...)
		} else if kind == 2 {
			as = other
		}
		r.do(fmt.Sprintf("span with the events of kind %d, time span %v to %v", kind, ev.S, ev.E), func() {
			got, err := (&Trace{Span: Span{Annotations: as}}).TimespanEvent()
			if (err != nil) != (kind == 2) {
				r.fail("error %v", err)
			}
			if err == nil && (!got.Start().Equal(ev.S) || !got.End().Equal(ev.E)) {
				r.fail("time span %v to %v", got.Start(), got.End())
			}
		})
	}
}
