package appdash_test

import (
	"bytes"
	"fmt"
	"log"
	"sort"
	"strings"
	"testing"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

type c14bad struct{ n int }

func (c14bad) Schema() string { return "c14bad" }
func (b c14bad) MarshalEvent() (appdash.Annotations, error) {
	return nil, fmt.Errorf("marshal error %d", b.n)
}

type c14good struct{ n int }

func (c14good) Schema() string { return "c14good" }
func (b c14good) MarshalEvent() (appdash.Annotations, error) {
	as := make(appdash.Annotations, 0, 8)
	for i := 0; i < b.n%3; i++ {
		as = append(as, ann(fmt.Sprint("g", b.n, i), "v"))
	}
	return as, nil
}

type c14coll struct {
	got  []coll
	fail map[int]error
	n    int
}

func (c *c14coll) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	c.n++
	c.got = append(c.got, coll{id, append([]appdash.Annotation(nil), as...)})
	return c.fail[c.n]
}

// report tells an error report (a log event about the recorder) from the events.
func c14report(c coll) bool {
	for _, a := range c.anns {
		if strings.HasPrefix(string(a.Value), "Recorder.") {
			return true
		}
	}
	return false
}

// c14norm orders the fields of each event (their order is not fixed).
func c14norm(cs []coll) []coll {
	var out []coll
	for _, c := range cs {
		as := append([]appdash.Annotation(nil), c.anns...)
		from := 0
		for i, a := range as {
			if strings.HasPrefix(a.Key, appdash.SchemaPrefix) {
				g := as[from:i]
				sort.SliceStable(g, func(x, y int) bool { return g[x].Key < g[y].Key })
				from = i + 1
			}
		}
		out = append(out, coll{c.id, as})
	}
	return out
}

func TestReplay_C14(t *testing.T) {
	r := vrStart(t)
	for i := 0; i < r.scale(3000); i++ {
		id := appdash.SpanID{Trace: appdash.ID(r.rnd.Uint64()), Span: appdash.ID(i + 1), Parent: appdash.ID(r.rnd.Intn(2))}
		cl := &c14coll{fail: map[int]error{}}
		for k := 1; k < 12; k++ {
			if r.rnd.Intn(4) == 0 {
				cl.fail[k] = fmt.Errorf("collect error %d", k)
			}
		}
		rec := appdash.NewRecorder(id, cl)
		var lb bytes.Buffer
		logged := r.rnd.Intn(4) == 0
		if logged {
			rec.Logger = log.New(&lb, "", 0)
		}
		var anns []appdash.Annotation
		var errs []string
		finished := false
		ops := ""
		reports := 0
		add := func(e appdash.Event) {
			as, err := appdash.MarshalEvent(e)
			if err != nil {
				panic(err)
			}
			anns = append(anns, as...)
		}
		before := 0
		check := func(events []coll) {
			// everything collected since the last check: reports, and exactly events
			var ev []coll
			for _, c := range cl.got[before:] {
				if c.id != id {
					r.fail("after %s: collected under %v", ops, c.id)
				}
				if c14report(c) {
					reports++
				} else {
					ev = append(ev, c)
				}
			}
			before = len(cl.got)
			if !sameColls(c14norm(ev), c14norm(events)) {
				r.fail("after %s: collected %v, want %v", ops, ev, events)
			}
		}
		for o := 0; o < 2+r.rnd.Intn(8); o++ {
			op := r.rnd.Intn(9)
			tm := time.Unix(int64(o), 0)
			r.do(fmt.Sprintf("span %v, failing collections %v, logger %v, ops%s then %d", id, cl.fail, logged, ops, op), func() {
				ops += fmt.Sprintf(" %d", op)
				switch op {
				case 0:
					rec.Name("n")
					add(appdash.SpanName("n"))
				case 1:
					rec.Msg("m")
					add(appdash.Msg("m"))
				case 2:
					rec.LogWithTimestamp("l", tm)
					add(appdash.LogWithTimestamp("l", tm))
				case 3:
					rec.Event(c14good{o})
					add(c14good{o})
				case 4:
					rec.Event(c14bad{o})
					errs = append(errs, fmt.Sprintf("marshal error %d", o))
				case 5, 6:
					k := cl.n + 1
					rec.Finish()
					if !finished {
						if cl.fail[k] != nil {
							errs = append(errs, cl.fail[k].Error())
						}
						finished = true
						check([]coll{{id, anns}})
					} else {
						errs = append(errs, "multiple Recorder.Finish calls")
					}
				case 7:
					got := rec.Errors()
					if logged {
						errs = nil
					}
					var gs []string
					for _, e := range got {
						gs = append(gs, e.Error())
					}
					if fmt.Sprint(gs) != fmt.Sprint(errs) {
						r.fail("Errors() = %v, want %v", gs, errs)
					}
					if len(rec.Errors()) != 0 {
						r.fail("errors handed out twice")
					}
					errs = nil
				case 8:
					c := rec.Child()
					if c.SpanID.Trace != id.Trace || c.SpanID.Parent != id.Span || len(c.Errors()) != 0 {
						r.fail("child recorder has span %v", c.SpanID)
					}
					n := len(cl.got)
					c.Finish()
					if len(cl.got) <= n || cl.got[n].id != c.SpanID || len(cl.got[n].anns) != 0 {
						r.fail("the child's finish collected %v", cl.got[n:])
					}
					before = len(cl.got)
				}
				check(nil)
			})
		}
		if logged && len(errs) > 0 && lb.Len() == 0 {
			r.fail("errors %v did not go to the logger", errs)
		}
	}
	r.do("NewRecorder with a nil collector", func() {
		defer func() { recover() }()
		appdash.NewRecorder(appdash.SpanID{}, nil)
		r.fail("no panic")
	})
}
