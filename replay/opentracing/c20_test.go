package opentracing_test

import (
	"fmt"
	"io/ioutil"
	stdlog "log"
	"sort"
	"strings"
	"testing"
	"time"

	basictracer "github.com/opentracing/basictracer-go"
	ot "github.com/opentracing/opentracing-go"
	otlog "github.com/opentracing/opentracing-go/log"
	"sourcegraph.com/sourcegraph/appdash"
	aot "sourcegraph.com/sourcegraph/appdash/opentracing"
)

type c20call struct {
	id   appdash.SpanID
	anns string
}

type c20coll struct {
	calls []c20call
	fail  map[int]bool // which calls fail
}

func c20str(as []appdash.Annotation) string {
	var s []string // the fields of an event come in any order
	for _, a := range as {
		s = append(s, fmt.Sprintf("%q=%q;", a.Key, a.Value))
	}
	sort.Strings(s)
	return strings.Join(s, "")
}

func (c *c20coll) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	n := len(c.calls)
	c.calls = append(c.calls, c20call{id, c20str(as)})
	if c.fail[n] {
		return fmt.Errorf("failure %d", n)
	}
	return nil
}

func basicLog(at time.Time, msg string) ot.LogRecord {
	return ot.LogRecord{Timestamp: at, Fields: []otlog.Field{otlog.String("event", msg)}}
}

func TestReplay_C20(t *testing.T) {
	r := vrStart(t)
	base := time.Unix(1500000000, 0).UTC()
	for i := 0; i < r.scale(4000); i++ {
		sp := basictracer.RawSpan{Operation: fmt.Sprintf("op%d", r.rnd.Intn(9)), Start: base.Add(time.Duration(r.rnd.Intn(1000))), Duration: time.Duration(r.rnd.Intn(1e9)),
			ParentSpanID: uint64(r.rnd.Intn(3)), Tags: map[string]interface{}{}}
		sp.Context = basictracer.SpanContext{TraceID: r.rnd.Uint64(), SpanID: r.rnd.Uint64(), Sampled: r.rnd.Intn(5) > 0, Baggage: map[string]string{}}
		id := appdash.SpanID{Trace: appdash.ID(sp.Context.TraceID), Span: appdash.ID(sp.Context.SpanID), Parent: appdash.ID(sp.ParentSpanID)}
		want := map[string]int{}
		ev := func(e appdash.Event) {
			as, err := appdash.MarshalEvent(e)
			if err != nil {
				panic(err)
			}
			want[c20str(as)]++
		}
		ev(appdash.SpanName(sp.Operation))
		ev(appdash.Timespan{S: sp.Start, E: sp.Start.Add(sp.Duration)})
		for k := r.rnd.Intn(4); k > 0; k-- {
			v := []interface{}{1, "s", 2.5, true, nil, []int{1, 2}, struct{ A, B int }{1, 2}}[r.rnd.Intn(7)]
			key := fmt.Sprintf("k%d", r.rnd.Intn(4))
			sp.Tags[key] = v
		}
		for k, v := range sp.Tags {
			want[c20str([]appdash.Annotation{ann(k, fmt.Sprintf("%+v", v))})]++
		}
		for k := r.rnd.Intn(4); k > 0; k-- {
			sp.Context.Baggage[fmt.Sprintf("k%d", r.rnd.Intn(4))] = fmt.Sprint("b", k)
		}
		for k, v := range sp.Context.Baggage {
			want[c20str([]appdash.Annotation{ann(k, v)})]++
		}
		for k := r.rnd.Intn(4); k > 0; k-- {
			rec := basicLog(base.Add(time.Duration(k)), fmt.Sprint("message ", r.rnd.Intn(5)))
			sp.Logs = append(sp.Logs, rec)
			ev(appdash.LogWithTimestamp(fmt.Sprint(rec.Fields[0].Value()), rec.Timestamp))
		}
		c := &c20coll{fail: map[int]bool{}}
		if r.rnd.Intn(2) == 0 {
			for k := 0; k < 30; k++ {
				c.fail[k] = r.rnd.Intn(4) == 0
			}
		}
		rec := aot.NewRecorder(c, aot.Options{Logger: stdlog.New(ioutil.Discard, "", 0), Verbose: r.rnd.Intn(2) == 0})
		r.do(fmt.Sprintf("%+v; failing collect calls %v", sp, c.fail), func() {
			rec.RecordSpan(sp)
			if !sp.Context.Sampled {
				if len(c.calls) > 0 {
					r.fail("unsampled, but collected %v", c.calls)
				}
				return
			}
			// a failed call that is not itself a report is followed by its report
			for k := 0; k < len(c.calls); k++ {
				if c.calls[k].id != id {
					r.fail("collected under %v, the span is %v", c.calls[k].id, id)
				}
				if want[c.calls[k].anns] == 0 {
					r.fail("collected %s: not there, or more than once", c.calls[k].anns)
				}
				want[c.calls[k].anns]--
				if c.fail[k] {
					if k+1 == len(c.calls) || !strings.Contains(c.calls[k+1].anns, fmt.Sprintf("failure %d", k)) {
						r.fail("the failure of call %d was not reported: %v", k, c.calls)
					}
					k++
				}
			}
			for a, n := range want {
				if n != 0 {
					r.fail("%s was not collected", a)
				}
			}
		})
	}
}
