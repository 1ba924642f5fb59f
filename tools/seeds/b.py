SEEDS = {}
SEEDS['c06-tworoots'] = dict(property='C06', pkg='.', edits=[('store.go', 's != root && (isRoot || isTempRootParent) {', 's != root && (isRoot && !root.ID.IsRoot() || isTempRootParent) {')],
 needs="a second span without a parent in the same trace", what="the second parentless span (and what is collected below it) is in no tree", demo='''
package appdash
import "testing"
func TestSeedDemo(t *testing.T) {
	ms := NewMemoryStore()
	for _, s := range [][2]ID{{5, 0}, {6, 0}, {7, 6}} {
		ms.Collect(SpanID{Trace: 1, Span: s[0], Parent: s[1]})
	}
	tr, err := ms.Trace(1)
	if err != nil { t.Fatal(err) }
	n := 0
	var walk func(*Trace)
	walk = func(x *Trace) {
		n++
		for _, c := range x.Sub { walk(c) }
	}
	walk(tr)
	if n != 3 { t.Errorf("%d spans, root %v", n, tr.ID) }
}
''')
SEEDS['c07-dedup'] = dict(property='C07', pkg='.', edits=[('store.go', '''		s.Annotations = append(s.Annotations, as...)
''', '''		if n := len(s.Annotations); n > 0 && len(as) == 1 && s.Annotations[n-1].Key == as[0].Key {
			s.Annotations = s.Annotations[:n-1]
		}
		s.Annotations = append(s.Annotations, as...)
''')], needs='a later single-annotation collection repeating the key of the last stored annotation', what='the earlier annotation of the same key is lost', demo='''
package appdash
import "testing"
func TestSeedDemo(t *testing.T) {
	ms := NewMemoryStore()
	id := SpanID{Trace: 1, Span: 2}
	ms.Collect(id, Annotation{Key: "a", Value: []byte("1")})
	ms.Collect(id, Annotation{Key: "a", Value: []byte("2")})
	tr, err := ms.Trace(1)
	if err != nil || len(tr.Annotations) != 2 { t.Errorf("%v %v", tr.Annotations, err) }
}
''')
SEEDS['c08-stale'] = dict(property='C08', pkg='.', edits=[('store.go', '''		delete(ms.trace, id)
		delete(ms.span, id)
''', '''		if root, ok := ms.trace[id]; ok && len(root.Sub) == 0 {
			delete(ms.span, id)
		}
		delete(ms.trace, id)
''')], needs='a trace of several spans deleted, then one of its spans collected again', what='deleted spans come back without a tree: a span collected for a deleted trace is not retrievable', demo='''
package appdash
import "testing"
func TestSeedDemo(t *testing.T) {
	ms := NewMemoryStore()
	a, b := SpanID{Trace: 1, Span: 2}, SpanID{Trace: 1, Span: 3, Parent: 2}
	ms.Collect(a, Annotation{Key: "old"})
	ms.Collect(b)
	ms.Delete(1)
	ms.Collect(a, Annotation{Key: "new"})
	tr, err := ms.Trace(1)
	if err != nil || len(tr.Annotations) != 1 || len(tr.Sub) != 0 { t.Errorf("%v %v", tr, err) }
}
''')
SEEDS['c09-filename'] = dict(property='C09', pkg='.', edits=[('store.go', '''		if err := s.Write(f); err != nil {
			f.Close()
			return err
		}
''', '''		if err := os.Rename(f.Name(), file); err != nil {
			return err
		}
		if err := s.Write(f); err != nil {
			f.Close()
			return err
		}
'''), ('store.go', '''		if err := f.Close(); err != nil {
			return err
		}
		if err := os.Rename(f.Name(), file); err != nil {
			return err
		}
''', '''		if err := f.Close(); err != nil {
			return err
		}
''')], needs='a failed (or interrupted) write of the persisted store after a successful one', what='the file is put in place before it is written, so a failure destroys the previously persisted data', demo='''
package appdash
import ("testing"; "errors"; "io"; "os"; "path/filepath"; "time")
type demoStore struct { Store; n int }
func (s *demoStore) Write(w io.Writer) error {
	s.n++
	io.WriteString(w, "go")
	if s.n > 1 { return errors.New("disk full") }
	io.WriteString(w, "od")
	return nil
}
func (s *demoStore) ReadFrom(r io.Reader) (int64, error) { return 0, nil }
func TestSeedDemo(t *testing.T) {
	dir := t.TempDir()
	os.Setenv("TMPDIR", dir)
	file := filepath.Join(dir, "store")
	err := PersistEvery(&demoStore{}, time.Millisecond, file)
	b, rerr := os.ReadFile(file)
	if err == nil || rerr != nil || string(b) != "good" { t.Errorf("%v %v %q", err, rerr, b) }
}
''')
SEEDS['c11-onebatch'] = dict(property='C11', pkg='.', edits=[('store.go', '''		if ct < tnano {
			toEvict = append(toEvict, id)
''', '''		if ct < tnano && id != 0 {
			toEvict = append(toEvict, id)
''')], needs='the trace with ID 0', what='a trace is never evicted', demo='''
package appdash
import ("testing"; "time")
func TestSeedDemo(t *testing.T) {
	ms := NewMemoryStore()
	rs := &RecentStore{MinEvictAge: 20 * time.Millisecond, DeleteStore: ms}
	rs.Collect(SpanID{Trace: 0, Span: 1})
	time.Sleep(60 * time.Millisecond)
	rs.Collect(SpanID{Trace: 7, Span: 1})
	time.Sleep(100 * time.Millisecond)
	if _, err := ms.Trace(0); err != ErrTraceNotFound { t.Errorf("not evicted: %v", err) }
}
''')
SEEDS['c11-batch'] = dict(property='C11', pkg='.', edits=[('store.go', '''		if err := rs.DeleteStore.Delete(toEvict...); err != nil {
			log.Printf("RecentStore: failed to delete traces: %s", err)
		}
''', '''		for _, id := range toEvict {
			if err := rs.DeleteStore.Delete(id); err != nil {
				log.Printf("RecentStore: failed to delete traces: %s", err)
				break
			}
		}
''')], needs='several traces due at once, and a store that fails to delete one of them', what='after a failed deletion the other due traces are not deleted, now or later', demo='''
package appdash
import ("testing"; "time"; "errors"; "sync")
type demoStore struct { DeleteStore; mu sync.Mutex; del map[ID]bool }
func (s *demoStore) Delete(ids ...ID) error {
	s.mu.Lock(); defer s.mu.Unlock()
	for _, id := range ids { s.del[id] = true }
	return errors.New("some trace was not there")
}
func TestSeedDemo(t *testing.T) {
	ds := &demoStore{DeleteStore: NewMemoryStore(), del: map[ID]bool{}}
	rs := &RecentStore{MinEvictAge: 50 * time.Millisecond, DeleteStore: ds}
	for i := 1; i <= 5; i++ { rs.Collect(SpanID{Trace: ID(i), Span: 1}) }
	time.Sleep(150 * time.Millisecond)
	rs.Collect(SpanID{Trace: 7, Span: 1})
	time.Sleep(100 * time.Millisecond)
	ds.mu.Lock(); defer ds.mu.Unlock()
	for i := 1; i <= 5; i++ { if !ds.del[ID(i)] { t.Errorf("%d not deleted", i) } }
}
''')
SEEDS['c12-size'] = dict(property='C12', pkg='.', edits=[('collector.go', 'collectionSize += uint64(len(ann.Value))', 'collectionSize += uint64(uint16(len(ann.Value)))')],
 needs='an annotation value of 64 KiB or more', what='the accounted size of a large value wraps, so the queue grows past its limit', demo='''
package appdash
import ("testing"; "time")
func TestSeedDemo(t *testing.T) {
	cc := &ChunkedCollector{Collector: NewLocalCollector(NewMemoryStore()), MinInterval: time.Hour, MaxQueueSize: 1000}
	defer cc.Stop()
	if err := cc.Collect(SpanID{1, 2, 3}, Annotation{Key: "k", Value: make([]byte, 1<<16)}); err != ErrQueueDropped { t.Errorf("%v", err) }
}
''')
SEEDS['c13-flusherr'] = dict(property='C13', pkg='.', edits=[('collector.go', 'errs = append(errs, ErrQueueDropped)', 'errs = []error{ErrQueueDropped}')],
 needs='a span whose collection fails in the same flush that later exceeds its time limit', what='the errors of the spans tried before the time limit are not reported', demo='''
package appdash
import ("testing"; "time"; "errors"; "strings")
type demoC struct{}
func (demoC) Collect(id SpanID, as ...Annotation) error { time.Sleep(5 * time.Millisecond); return errors.New("broken pipe") }
func TestSeedDemo(t *testing.T) {
	cc := &ChunkedCollector{Collector: demoC{}, MinInterval: time.Hour, FlushTimeout: time.Millisecond}
	defer cc.Stop()
	cc.Collect(SpanID{1, 2, 3})
	if err := cc.Flush(); err == nil || !strings.Contains(err.Error(), "broken pipe") { t.Errorf("%v", err) }
}
''')
SEEDS['c14-child'] = dict(property='C14', pkg='.', edits=[('recorder.go', '''	r.annotations = append(r.annotations, as...)
}

// Finish''', '''	for _, a := range as {
		if n := len(r.annotations); n > 0 && r.annotations[n-1].Key == a.Key && len(a.Value) == 0 {
			continue
		}
		r.annotations = append(r.annotations, a)
	}
}

// Finish''')], needs='two consecutive events of the same one-key schema', what="the second event's schema annotation is dropped", demo='''
package appdash
import "testing"
type demoEv struct{}
func (demoEv) Schema() string { return "demo" }
func TestSeedDemo(t *testing.T) {
	ms := NewMemoryStore()
	r := NewRecorder(SpanID{1, 2, 0}, ms)
	r.Event(demoEv{})
	r.Event(demoEv{})
	r.Finish()
	tr, err := ms.Trace(1)
	if err != nil || len(tr.Annotations) != 2 { t.Errorf("%v %v", tr, err) }
}
''')
SEEDS['c16-malformed'] = dict(property='C16', pkg='httptrace', edits=[('httptrace/header.go', '''	spanID, err = getSpanIDHeader(h, HeaderSpanID)
	if err != nil {
''', '''	spanID, err = getSpanIDHeader(h, HeaderSpanID)
	if err != nil && h.Get(HeaderParentSpanID) == "" {
''')], needs='a malformed Span-ID header together with a Parent-Span-ID header', what='the malformed header is ignored without a report', demo='''
package httptrace
import ("testing"; "net/http")
func TestSeedDemo(t *testing.T) {
	h := http.Header{}
	h.Set(HeaderSpanID, "zz/1")
	h.Set(HeaderParentSpanID, "1/2")
	if id, err := GetSpanID(h); err == nil { t.Errorf("%v", id) }
}
''')
SEEDS['c17-case'] = dict(property='C17', pkg='httptrace', edits=[('httptrace/client.go', '''		if strings.EqualFold(name, v) {
''', '''		if http.CanonicalHeaderKey(name) == v {
''')], needs='a redaction list whose entries are not in canonical form', what='headers listed in lower case are not redacted', demo='''
package httptrace
import ("testing"; "net/http"; "strings")
func TestSeedDemo(t *testing.T) {
	defer func(o []string) { RedactedHeaders = o }(RedactedHeaders)
	RedactedHeaders = []string{"x-token"}
	r, _ := http.NewRequest("GET", "http://example.com/", nil)
	r.Header.Set("X-Token", "secret")
	for k, v := range NewClientEvent(r).Request.Headers {
		if strings.Contains(v, "secret") { t.Errorf("%s: %s", k, v) }
	}
}
''')
SEEDS['c18-clone'] = dict(property='C18', pkg='httptrace', edits=[('httptrace/client.go', '''	r2.Header = make(http.Header)
	for k, s := range r.Header {
		r2.Header[k] = s
	}
''', '''	if len(r.Header) == 0 && r.Header != nil {
		return r2
	}
	r2.Header = make(http.Header)
	for k, s := range r.Header {
		r2.Header[k] = s
	}
''')], needs='a request with an empty, non-nil header', what="the caller's request gets the Span-ID header", demo='''
package httptrace
import ("testing"; "net/http"; "sourcegraph.com/sourcegraph/appdash")
type demoRT struct{}
func (demoRT) RoundTrip(r *http.Request) (*http.Response, error) { return &http.Response{StatusCode: 200}, nil }
func TestSeedDemo(t *testing.T) {
	tr := &Transport{Recorder: appdash.NewRecorder(appdash.NewRootSpanID(), appdash.NewMemoryStore()), Transport: demoRT{}}
	r, _ := http.NewRequest("GET", "http://example.com/", nil)
	tr.RoundTrip(r)
	if len(r.Header) != 0 { t.Errorf("%v", r.Header) }
}
''')
SEEDS['c18-parent'] = dict(property='C18', pkg='httptrace', edits=[('httptrace/client.go', '''	if err == nil {
		e.Response = responseInfo(resp)
	} else {
		e.Response.StatusCode = -1
	}
	child.Event(e)
	child.Finish()
''', '''	if err == nil {
		e.Response = responseInfo(resp)
	} else {
		e.Response.StatusCode = -1
		if req.Context().Err() != nil {
			return resp, err // given up by the caller
		}
	}
	child.Event(e)
	child.Finish()
''')], needs="a request whose context has been cancelled", what='no span is recorded for a cancelled request', demo='''
package httptrace
import ("testing"; "net/http"; "errors"; "context"; "sourcegraph.com/sourcegraph/appdash")
type demoRT struct{ c context.CancelFunc }
func (d demoRT) RoundTrip(r *http.Request) (*http.Response, error) { d.c(); return nil, errors.New("canceled") }
func TestSeedDemo(t *testing.T) {
	ms := appdash.NewMemoryStore()
	ctx, c := context.WithCancel(context.Background())
	tr := &Transport{Recorder: appdash.NewRecorder(appdash.NewRootSpanID(), ms), Transport: demoRT{c}}
	r, _ := http.NewRequest("GET", "http://example.com/", nil)
	tr.RoundTrip(r.WithContext(ctx))
	if ts, _ := ms.Traces(appdash.TracesOpts{}); len(ts) != 1 { t.Errorf("%d traces", len(ts)) }
}
''')
SEEDS['c19-flush'] = dict(property='C19', pkg='httptrace', edits=[('httptrace/server.go', 'if f, ok := r.ResponseWriter.(http.Flusher); ok {', 'if f, ok := r.ResponseWriter.(http.Flusher); ok && r.ContentLength > 0 {')],
 needs='a handler that flushes its header before writing a body', what="the flush is swallowed", demo='''
package httptrace
import ("testing"; "net/http"; "net/http/httptest"; "sourcegraph.com/sourcegraph/appdash")
func TestSeedDemo(t *testing.T) {
	mw := Middleware(appdash.NewMemoryStore(), &MiddlewareConfig{})
	w := httptest.NewRecorder()
	mw(w, httptest.NewRequest("GET", "http://example.com/a", nil), func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(204); w.(http.Flusher).Flush() })
	if !w.Flushed { t.Errorf("not flushed") }
}
''')
SEEDS['c20-unsampled'] = dict(property='C20', pkg='opentracing', edits=[('opentracing/recorder.go', '''	for key, val := range sp.Context.Baggage {
''', '''	for key, val := range sp.Context.Baggage {
		if _, ok := sp.Tags[key]; ok {
			continue
		}
''')], needs='a baggage item with the same key as a tag', what='the baggage item is not recorded', demo='''
package opentracing
import ("testing"; "time"; "sourcegraph.com/sourcegraph/appdash"; basictracer "github.com/opentracing/basictracer-go")
func TestSeedDemo(t *testing.T) {
	ms := appdash.NewMemoryStore()
	r := NewRecorder(ms, Options{})
	r.RecordSpan(basictracer.RawSpan{Context: basictracer.SpanContext{TraceID: 1, SpanID: 2, Sampled: true, Baggage: map[string]string{"user": "b"}}, Start: time.Now(), Tags: map[string]interface{}{"user": "t"}})
	tr, err := ms.Trace(1)
	if err != nil { t.Fatal(err) }
	n := 0
	for _, a := range tr.Annotations { if a.Key == "user" { n++ } }
	if n != 2 { t.Errorf("%d annotations", n) }
}
''')
SEEDS['c22-unknown'] = dict(property='C22', pkg='.', edits=[('event.go', '''		if ev == nil {
			continue
		}
''', '''		if ev == nil {
			break
		}
''')], needs='annotations with an unregistered schema before a registered one', what='events after an unknown one are not returned', demo='''
package appdash
import "testing"
type demoEv struct{ A string }
func (demoEv) Schema() string { return "demo-unregistered" }
func TestSeedDemo(t *testing.T) {
	a, _ := MarshalEvent(demoEv{})
	b, _ := MarshalEvent(Msg("x"))
	var evs []Event
	err := UnmarshalEvents(append(append(Annotations{}, a...), b...), &evs)
	if err != nil || len(evs) != 1 { t.Errorf("%v %v", evs, err) }
	evs = nil
	err = UnmarshalEvents(append(append(Annotations{}, b...), a...), &evs)
	if err != nil || len(evs) != 1 { t.Errorf("%v %v", evs, err) }
}
''')
SEEDS['c23-errors'] = dict(property='C23', pkg='.', edits=[('recorder.go', '''	r.errorsMu.Lock()
	errs := r.errors
	r.errors = nil
''', '''	errs := r.errors
	r.errorsMu.Lock()
	r.errors = nil
''')], needs='an error recorded between the read and the lock', what='errors are read without the lock', demo='''
package appdash
import ("testing"; "errors"; "sync/atomic"; "sync")
func TestSeedDemo(t *testing.T) {
	r := &Recorder{collector: NewLocalCollector(NewMemoryStore()), SpanID: SpanID{1, 2, 0}}
	const N = 2000
	e := errors.New("x")
	for round := 0; round < 400; round++ {
		var got int64
		var wg sync.WaitGroup
		wg.Add(4)
		var done int32
		for g := 0; g < 4; g++ {
			go func() { defer wg.Done(); for i := 0; i < N/4; i++ { r.errorsMu.Lock(); r.errors = append(r.errors, e); r.errorsMu.Unlock() } }()
		}
		fin := make(chan bool)
		go func() {
			for atomic.LoadInt32(&done) == 0 { atomic.AddInt64(&got, int64(len(r.Errors()))) }
			fin <- true
		}()
		wg.Wait()
		atomic.StoreInt32(&done, 1)
		<-fin
		got += int64(len(r.Errors()))
		if got != N { t.Fatalf("%d errors returned, %d recorded", got, N) }
	}
}
''')
SEEDS['c21-uint'] = dict(property='C21', pkg='.', edits=[('reflect.go', 'strconv.FormatUint(v.Uint(), 10)', 'strconv.FormatInt(int64(v.Uint()), 10)')],
 needs='an unsigned field of 2^63 or more', what='large unsigned values are printed as negative numbers and cannot be read back', demo='''
package appdash
import "testing"
type demoEv struct{ N uint64 }
func (demoEv) Schema() string { return "demo" }
func TestSeedDemo(t *testing.T) {
	as, err := MarshalEvent(demoEv{1<<63 + 5})
	if err != nil { t.Fatal(err) }
	var e demoEv
	if err := UnmarshalEvent(as, &e); err != nil || e.N != 1<<63+5 { t.Errorf("%v %v", e, err) }
}
''')
