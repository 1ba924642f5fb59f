SEEDS = {}
SEEDS['c01-trailing'] = dict(property='C01', pkg='.', edits=[('span.go', 'parts := strings.Split(s, SpanIDDelimiter)', 'parts := strings.SplitN(strings.TrimRight(s, SpanIDDelimiter), SpanIDDelimiter, 3)')],
 needs='text with a trailing delimiter', what='ParseSpanID accepts malformed text with trailing slashes, such as 1/2/', demo='''
package appdash
import "testing"
func TestSeedDemo(t *testing.T) {
	for _, s := range []string{"1/2/", "1/2//", "1/2/3/"} {
		if id, err := ParseSpanID(s); err == nil || id != nil {
			t.Errorf("ParseSpanID(%q) = %v, %v", s, id, err)
		}
	}
}
''')
SEEDS['c10-readd'] = dict(property='C10', pkg='.', edits=[('store.go', '''		delete(ls.traces, old)
	}
	ls.traces[id.Trace] = struct{}{}
	ls.ring[ls.nextInsertIdx] = int64(id.Trace)
	ls.nextInsertIdx = (ls.nextInsertIdx + 1) % ls.Max // increment & wrap

	return ls.DeleteStore.Collect(id, anns...)''', '''		delete(ls.traces, old)
	}
	if err := ls.DeleteStore.Collect(id, anns...); err != nil {
		return err
	}
	ls.traces[id.Trace] = struct{}{}
	ls.ring[ls.nextInsertIdx] = int64(id.Trace)
	ls.nextInsertIdx = (ls.nextInsertIdx + 1) % ls.Max // increment & wrap
	return nil''')],
 needs='the underlying store fails a collection that evicted the oldest trace; the same trace and another new one follow', what='a failed collection of a new trace leaves it untracked after the eviction, so the ring and the tracked set disagree and stored traces are not accounted for', demo='''
package appdash
import ("testing"; "errors")
type demoStore struct { DeleteStore; fail bool; deleted []ID }
func (s *demoStore) Collect(id SpanID, as ...Annotation) error {
	s.DeleteStore.Collect(id, as...) // stored, then an error (say, a lost reply)
	if s.fail { return errors.New("x") }
	return nil
}
func (s *demoStore) Delete(ids ...ID) error { s.deleted = append(s.deleted, ids...); return s.DeleteStore.Delete(ids...) }
func TestSeedDemo(t *testing.T) {
	ms := NewMemoryStore()
	ds := &demoStore{DeleteStore: ms}
	ls := &LimitStore{Max: 2, DeleteStore: ds}
	ds.fail = true
	for i := 1; i <= 5; i++ { ls.Collect(SpanID{Trace: ID(i), Span: 1}) }
	ds.fail = false
	ts, _ := ms.Traces(TracesOpts{})
	if len(ts) > 2 { t.Errorf("%d traces stored with Max 2", len(ts)) }
}
''')
SEEDS['c15-lasterr'] = dict(property='C15', pkg='.', edits=[('multi.go', '''		if err == ErrTraceNotFound {
			continue
		} else if err != nil {
			return nil, err
		}
		return trace, nil
	}
	return nil, ErrTraceNotFound''', '''		if err == ErrTraceNotFound {
			continue
		} else if err != nil {
			firstErr = err
			continue
		}
		return trace, nil
	}
	return nil, firstErr'''), ('multi.go', '''func (ms *multiStore) Trace(t ID) (*Trace, error) {
''', '''func (ms *multiStore) Trace(t ID) (*Trace, error) {
	firstErr := ErrTraceNotFound
''')],
 needs='a store that fails before one that has the trace', what='a lookup error is hidden by a later store', demo='''
package appdash
import ("testing"; "errors")
type demoStore struct { err error; n int }
func (s *demoStore) Collect(id SpanID, as ...Annotation) error { return nil }
func (s *demoStore) Trace(id ID) (*Trace, error) { s.n++; if s.err != nil { return nil, s.err }; return &Trace{}, nil }
func TestSeedDemo(t *testing.T) {
	e := errors.New("broken")
	a, b, c := &demoStore{err: ErrTraceNotFound}, &demoStore{err: e}, &demoStore{}
	tr, err := MultiStore(a, b, c).Trace(1)
	if tr != nil || err != e || c.n != 0 { t.Errorf("%v %v %d", tr, err, c.n) }
}
''')
SEEDS['c15-dupspan'] = dict(property='C15', pkg='.', edits=[('multi.go', '''		for _, t := range traces {
			if _, ok := union''', '''		if len(all) == 0 {
			all = append(all, traces...)
			for _, t := range traces {
				union[t.ID.Trace] = struct{}{}
			}
			continue
		}
		for _, t := range traces {
			if _, ok := union''')],
 needs='the first non-empty answer lists the same trace ID twice (as a multi-store behind it can)', what='duplicates inside the first answer are kept', demo='''
package appdash
import "testing"
type demoQ []ID
func (q demoQ) Traces(TracesOpts) (ts []*Trace, err error) {
	for _, id := range q { ts = append(ts, &Trace{Span: Span{ID: SpanID{Trace: id}}}) }
	return
}
func TestSeedDemo(t *testing.T) {
	ts, err := MultiQueryer(demoQ{1, 2, 1}, demoQ{2, 3}).Traces(TracesOpts{})
	if err != nil || len(ts) != 3 { t.Errorf("%d traces, %v", len(ts), err) }
}
''')
SEEDS['c05-keepconn'] = dict(property='C05', pkg='.', edits=[('collector.go', '''		rc.pconn.Close()
		rc.pconn = nil
	}

	c, err := rc.dial()
	if err == nil {
		// Create a protobuf delimited writer wrapping the connection. When the
		// writer is closed, it also closes the underlying connection (see
		// source code for details).
		rc.pconn = pio.NewDelimitedWriter(c)
	}
	return err''', '''		defer rc.pconn.Close()
		rc.pconn = nil
	}

	c, err := rc.dial()
	if err == nil {
		// Create a protobuf delimited writer wrapping the connection. When the
		// writer is closed, it also closes the underlying connection (see
		// source code for details).
		rc.pconn = pio.NewDelimitedWriter(c)
	}
	return err''')],
 needs='a write failure on an existing connection', what='the superseded connection is closed only after the new one was dialled', demo='''
package appdash
import ("testing"; "net"; "errors")
type demoConn struct { net.Conn; bad bool; tr *[]string }
func (c *demoConn) Write(b []byte) (int, error) { if c.bad { return 0, errors.New("x") }; return len(b), nil }
func (c *demoConn) Close() error { *c.tr = append(*c.tr, "close"); return nil }
func TestSeedDemo(t *testing.T) {
	var tr []string
	var last *demoConn
	rc := NewRemoteCollector("x")
	rc.dial = func() (net.Conn, error) { tr = append(tr, "dial"); last = &demoConn{tr: &tr}; return last, nil }
	rc.Collect(SpanID{1, 2, 3})
	last.bad = true
	if err := rc.Collect(SpanID{1, 2, 3}); err != nil { t.Error(err) }
	if len(tr) != 3 || tr[1] != "close" || tr[2] != "dial" { t.Error(tr) }
}
''')
