package traceapp

import (
	"fmt"
	"testing"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

type c25event struct {
	S time.Time `trace:"C25.S"`
	E time.Time `trace:"C25.E"`
}

func (c25event) Schema() string     { return "c25event" }
func (e c25event) Start() time.Time { return e.S }
func (e c25event) End() time.Time   { return e.E }

func TestReplay_C25(t *testing.T) {
	r := vrStart(t)
	appdash.RegisterEvent(c25event{})
	base := time.Unix(1500000000, 0).UTC()
	router := NewRouter(nil)
	for i := 0; i < r.scale(3000); i++ {
		n := 1 + r.rnd.Intn(9)
		var all []*appdash.Trace
		own := map[*appdash.Trace]int64{}
		named := map[*appdash.Trace]string{}
		desc := "tree (index:named<-parent index[event durations]):"
		for k := 0; k < n; k++ {
			x := &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{Trace: 1, Span: appdash.ID(k + 1)}}}
			p := -1
			if k > 0 {
				p = r.rnd.Intn(k)
				x.ID.Parent = appdash.ID(p + 1)
				all[p].Sub = append(all[p].Sub, x)
			}
			named[x] = x.ID.Span.String()
			nm := r.rnd.Intn(2) == 0
			if nm {
				named[x] = fmt.Sprintf("span %d", k)
				x.Annotations = append(x.Annotations, appdash.Annotation{Key: "Name", Value: []byte(named[x])})
			}
			desc += fmt.Sprintf(" %d:%v<-%d[", k, nm, p)
			kinds := r.rnd.Perm(2)[:r.rnd.Intn(3)] // each kind of event at most once
			for _, kind := range kinds {
				d := time.Duration(r.rnd.Int63n(int64(5*time.Millisecond))) - time.Millisecond
				if r.rnd.Intn(3) == 0 {
					d = time.Duration(r.rnd.Intn(4))*time.Millisecond + []time.Duration{0, 499999, 500000, 500001}[r.rnd.Intn(4)]
				}
				var ev appdash.Event = appdash.Timespan{S: base, E: base.Add(d)}
				if kind == 1 {
					ev = c25event{S: base, E: base.Add(d)}
				}
				as, err := appdash.MarshalEvent(ev)
				if err != nil {
					t.Fatal(err)
				}
				x.Annotations = append(x.Annotations, as...)
				if ms := int64((d + time.Millisecond/2) / time.Millisecond); ms > own[x] {
					own[x] = ms
				}
				desc += " " + d.String()
			}
			desc += "]"
			all = append(all, x)
		}
		bufLen := r.rnd.Intn(3)
		r.do(fmt.Sprintf("%s; %d earlier entries", desc, bufLen), func() {
			a := &App{Router: router}
			var buf []*profile
			if r.rnd.Intn(2) == 0 {
				buf = make([]*profile, 0, 20)
			}
			for k := 0; k < bufLen; k++ {
				buf = append(buf, &profile{Name: "earlier", Time: int64(k)})
			}
			prof, child, err := a.calcProfile(buf, all[0])
			if err != nil {
				r.fail("error %v", err)
			}
			var order []*appdash.Trace
			cum := map[*appdash.Trace]int64{}
			kids := map[*appdash.Trace]int64{}
			var walk func(x *appdash.Trace)
			walk = func(x *appdash.Trace) {
				order = append(order, x)
				cum[x], kids[x] = own[x], own[x]
				for _, s := range x.Sub {
					walk(s)
					cum[x] += cum[s]
					kids[x] += own[s]
				}
			}
			walk(all[0])
			if len(prof) != bufLen+len(order) {
				r.fail("%d entries for %d spans and %d earlier entries", len(prof), len(order), bufLen)
			}
			for k := 0; k < bufLen; k++ {
				if prof[k].Name != "earlier" || prof[k].Time != int64(k) {
					r.fail("earlier entry %d is now %+v", k, *prof[k])
				}
			}
			for k, x := range order {
				p := prof[bufLen+k]
				if p.Name != named[x] || p.Time != own[x] || p.TimeChildren != kids[x] || p.TimeCum != cum[x] {
					r.fail("entry %d is %+v, want name %q, time %d, children %d, cumulative %d", k, *p, named[x], own[x], kids[x], cum[x])
				}
			}
			if child != prof[bufLen] {
				r.fail("the returned profile is not the tree's own")
			}
		})
	}
}
