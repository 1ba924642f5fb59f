From 9364ad100a2173ece8a47b6001559dd3d0226535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:25 +0000
Subject: [PATCH 01/15] fix: LimitStore tracked trace ID 0 and failed deletions
 wrongly

A full ring was detected by a non-zero slot, so a trace with ID 0 was
overwritten without being deleted from the underlying store; and a trace
whose deletion failed was no longer tracked.
---
 store.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/store.go b/store.go
index 53dcc6f..e1931a8 100644
--- a/store.go
+++ b/store.go
@@ -495,14 +495,14 @@ func (ls *LimitStore) Collect(id SpanID, anns ...Annotation) error {
 		return ls.DeleteStore.Collect(id, anns...)
 	}
 
-	if nextInsert := ls.ring[ls.nextInsertIdx]; nextInsert != 0 {
-		// Store is at capacity (we know this because the next insert
-		// slot already contains trace); delete oldest.
+	if len(ls.traces) == ls.Max {
+		// Store is at capacity, so the next insert slot contains the oldest
+		// trace; delete it.
 		old := ID(ls.ring[ls.nextInsertIdx])
-		delete(ls.traces, old)
 		if err := ls.DeleteStore.Delete(old); err != nil {
 			return err
 		}
+		delete(ls.traces, old)
 	}
 	ls.traces[id.Trace] = struct{}{}
 	ls.ring[ls.nextInsertIdx] = int64(id.Trace)
-- 
2.43.0


From 47470ab4ac3a59759d148e001360524f4642aeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:54 +0000
Subject: [PATCH 02/15] fix: a collect packet without a parent span ID crashed
 the server

The wire format's parent field is optional; spanIDFromWire dereferenced it.
---
 span.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/span.go b/span.go
index 0f960b7..86e90a5 100644
--- a/span.go
+++ b/span.go
@@ -71,9 +71,9 @@ func (id SpanID) wire() *wire.CollectPacket_SpanID {
 // spanIDFromWire returns a SpanID from it's protobuf definition.
 func spanIDFromWire(w *wire.CollectPacket_SpanID) SpanID {
 	return SpanID{
-		Trace:  ID(*w.Trace),
-		Span:   ID(*w.Span),
-		Parent: ID(*w.Parent),
+		Trace:  ID(w.GetTrace()),
+		Span:   ID(w.GetSpan()),
+		Parent: ID(w.GetParent()), // optional: zero if absent
 	}
 }
 
-- 
2.43.0


From 99dfed5d51f0b884880027cf8d325925409921e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:18 +0000
Subject: [PATCH 03/15] fix: a malformed span ID header crashed the HTTP
 middleware

Continue with a new root span, as the warning says.
---
 httptrace/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httptrace/server.go b/httptrace/server.go
index ce804bf..5bc2420 100644
--- a/httptrace/server.go
+++ b/httptrace/server.go
@@ -71,6 +71,8 @@ func Middleware(c appdash.Collector, conf *MiddlewareConfig) func(rw http.Respon
 		spanID, spanFromHeader, err := getSpanID(r.Header)
 		if err != nil {
 			log.Printf("Warning: invalid %s header: %s. (Continuing with request handling.)", spanFromHeader, err)
+			newSpanID := appdash.NewRootSpanID()
+			spanID, spanFromHeader = &newSpanID, ""
 		}
 		usingProvidedSpanID := (spanFromHeader == HeaderSpanID)
 
-- 
2.43.0


From 4aa0534d5ada76b83c00eb0613a8edec97a28190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:21 +0000
Subject: [PATCH 04/15] fix: RecentStore never evicted a trace collected again
 while being evicted

Collect recorded the trace's creation time before evicting, so the trace
being collected could lose its record and stay in the store forever.
---
 store.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/store.go b/store.go
index e1931a8..d5bb29b 100644
--- a/store.go
+++ b/store.go
@@ -414,12 +414,14 @@ func (rs *RecentStore) Collect(id SpanID, anns ...Annotation) error {
 	if rs.created == nil {
 		rs.created = map[ID]int64{}
 	}
-	if _, present := rs.created[id.Trace]; !present {
-		rs.created[id.Trace] = time.Now().UnixNano()
-	}
+	// Evict before recording the creation time, so that the trace remains
+	// recorded (and is hence evicted later on) if it is among the evicted ones.
 	if time.Since(rs.lastEvicted) > rs.MinEvictAge {
 		rs.evictBefore(time.Now().Add(-1 * rs.MinEvictAge))
 	}
+	if _, present := rs.created[id.Trace]; !present {
+		rs.created[id.Trace] = time.Now().UnixNano()
+	}
 	rs.mu.Unlock()
 
 	return rs.DeleteStore.Collect(id, anns...)
-- 
2.43.0


From 3c07da16250d17f9fa206e9b02d9838173d4b3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:57 +0000
Subject: [PATCH 05/15] fix: annotations collected after loading a persisted
 store were lost

The decoded span index held copies of the spans in the decoded trees, so
updates to a loaded span didn't show up in its trace. Also, loading an
empty store left nil maps behind, which made Collect panic.
---
 store.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index d5bb29b..dd70606 100644
--- a/store.go
+++ b/store.go
@@ -343,10 +343,27 @@ func (ms *MemoryStore) ReadFrom(r io.Reader) (int64, error) {
 		return 0, err
 	}
 	ms.trace = data.Trace
-	ms.span = data.Span
+	if ms.trace == nil {
+		ms.trace = map[ID]*Trace{}
+	}
+	// The decoded span index doesn't share its spans with the decoded trees, so
+	// rebuild it from them.
+	ms.span = make(map[ID]map[ID]*Trace, len(ms.trace))
+	for id, t := range ms.trace {
+		ms.span[id] = map[ID]*Trace{}
+		indexSpans(ms.span[id], t)
+	}
 	return int64(len(ms.trace)), nil
 }
 
+// indexSpans adds all spans of the tree t to the given index.
+func indexSpans(index map[ID]*Trace, t *Trace) {
+	index[t.ID.Span] = t
+	for _, sub := range t.Sub {
+		indexSpans(index, sub)
+	}
+}
+
 // PersistentStore is a Store that can persist its data and read it
 // back in.
 type PersistentStore interface {
-- 
2.43.0


From c7f2d7d64159aba475ab51d4398efbe4dde96a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:59 +0000
Subject: [PATCH 06/15] fix: collected annotations shared the caller's slice

MemoryStore and ChunkedCollector kept (and appended to) the slice passed to
Collect, so annotations could change or overwrite each other afterwards.
---
 collector.go | 3 ++-
 store.go     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/collector.go b/collector.go
index 26eb9cd..d797d3e 100644
--- a/collector.go
+++ b/collector.go
@@ -192,7 +192,8 @@ func (cc *ChunkedCollector) Collect(span SpanID, anns ...Annotation) error {
 			cc.pendingBySpanID[span] = append(p, anns...)
 		}
 	} else {
-		cc.pendingBySpanID[span] = anns
+		// Copy the annotations: the slice belongs to the caller.
+		cc.pendingBySpanID[span] = append(Annotations(nil), anns...)
 	}
 
 	if err := cc.lastErr; err != nil {
diff --git a/store.go b/store.go
index dd70606..9515c35 100644
--- a/store.go
+++ b/store.go
@@ -122,7 +122,8 @@ func (ms *MemoryStore) collectNoLock(id SpanID, as ...Annotation) error {
 	// Create or update span.
 	s, present := ms.span[id.Trace][id.Span]
 	if !present {
-		s = &Trace{Span: Span{ID: id, Annotations: as}}
+		// Copy the annotations: the slice belongs to the caller.
+		s = &Trace{Span: Span{ID: id, Annotations: append(Annotations(nil), as...)}}
 		ms.span[id.Trace][id.Span] = s
 	} else {
 		if ms.log {
-- 
2.43.0


From e4cb61a1db3b63f4f8be3375b2f2ae486d2f3306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:01 +0000
Subject: [PATCH 07/15] fix: stopping an unused or already stopped
 ChunkedCollector panicked

---
 collector.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collector.go b/collector.go
index d797d3e..c5b7a73 100644
--- a/collector.go
+++ b/collector.go
@@ -269,7 +269,9 @@ func (cc *ChunkedCollector) start() {
 func (cc *ChunkedCollector) Stop() {
 	cc.mu.Lock()
 	defer cc.mu.Unlock()
-	close(cc.stopChan)
+	if cc.started && !cc.stopped {
+		close(cc.stopChan)
+	}
 	cc.stopped = true
 }
 
-- 
2.43.0


From d22adcca9948b17e9fdfe94578fdc54fc156e053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:04 +0000
Subject: [PATCH 08/15] fix: the trace list ignored its options

multiQueryer dropped the options, and MemoryStore ignored TraceIDs.
---
 multi.go |  2 +-
 store.go | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/multi.go b/multi.go
index d3dd791..399c9ca 100644
--- a/multi.go
+++ b/multi.go
@@ -59,7 +59,7 @@ func (mq *multiQueryer) Traces(opts TracesOpts) ([]*Trace, error) {
 		all   []*Trace
 	)
 	for _, q := range mq.queryers {
-		traces, err := q.Traces(TracesOpts{})
+		traces, err := q.Traces(opts)
 		if err != nil {
 			return nil, err
 		}
diff --git a/store.go b/store.go
index 9515c35..be12ce4 100644
--- a/store.go
+++ b/store.go
@@ -261,8 +261,19 @@ func (ms *MemoryStore) Traces(opts TracesOpts) ([]*Trace, error) {
 	ms.Lock()
 	defer ms.Unlock()
 
+	var filter map[ID]struct{}
+	if len(opts.TraceIDs) > 0 {
+		filter = make(map[ID]struct{}, len(opts.TraceIDs))
+		for _, id := range opts.TraceIDs {
+			filter[id] = struct{}{}
+		}
+	}
+
 	var ts []*Trace
 	for id := range ms.trace {
+		if _, ok := filter[id]; !ok && filter != nil {
+			continue
+		}
 		t, err := ms.traceNoLock(id)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 3b283f40b06ccb0dbe1f6f35894ca6ad4b49f051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:33 +0000
Subject: [PATCH 09/15] fix: recording a request could write into its header
 values

---
 httptrace/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httptrace/client.go b/httptrace/client.go
index 0fa6fc7..adf6119 100644
--- a/httptrace/client.go
+++ b/httptrace/client.go
@@ -91,7 +91,7 @@ func redactHeaders(header, trailer http.Header) map[string]string {
 		if isRedacted(k) {
 			h[k] = redacted
 		} else {
-			h[k] = append(h[k], v...)
+			h[k] = append(h[k][:len(h[k]):len(h[k])], v...) // don't write into the header's values
 		}
 	}
 	m := make(map[string]string, len(h))
-- 
2.43.0


From 7ef88e0de8813d298461bed515d08d5f27c92f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:57 +0000
Subject: [PATCH 10/15] fix: HTTP middleware recorded a status code that wasn't
 sent

Only the first WriteHeader call counts, apart from informational codes.
---
 httptrace/server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/httptrace/server.go b/httptrace/server.go
index 5bc2420..c1cf17c 100644
--- a/httptrace/server.go
+++ b/httptrace/server.go
@@ -175,9 +175,12 @@ func (r *responseInfoRecorder) StatusCode() int {
 	return r.statusCode
 }
 
-// WriteHeader sets r.Code.
+// WriteHeader sets r.Code. Only the first (non-informational) code is sent to
+// the client, so later ones aren't recorded.
 func (r *responseInfoRecorder) WriteHeader(code int) {
-	r.statusCode = code
+	if r.statusCode == 0 && (code < 100 || code > 199 || code == http.StatusSwitchingProtocols) {
+		r.statusCode = code
+	}
 	r.ResponseWriter.WriteHeader(code)
 }
 
-- 
2.43.0


From b4e5c615072911ceabfa4e7651fc8445190de640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:00 +0000
Subject: [PATCH 11/15] fix: an event without a start time hid the time extent
 of its trace

findTraceTimes forgot the times of the previous events when it came across a
zero start time.
---
 trace.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trace.go b/trace.go
index e53533f..515595f 100644
--- a/trace.go
+++ b/trace.go
@@ -99,6 +99,9 @@ func findTraceTimes(events []Event) (start, end time.Time, _ bool) {
 		if !ok {
 			continue
 		}
+		if e.Start().IsZero() {
+			continue // not a known time
+		}
 		if start.IsZero() {
 			start = e.Start()
 			end = e.End()
-- 
2.43.0


From 8ba9ef9ae44ab57546b28d9c87859990bd5dbac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:12 +0000
Subject: [PATCH 12/15] fix: decoded event fields could differ from the encoded
 ones

64-bit floats lost precision, out-of-range integers wrapped around, durations
were truncated to the nanosecond below, and fields of named scalar types
panicked.
---
 reflect.go | 73 +++++++++++++++++++-----------------------------------
 1 file changed, 26 insertions(+), 47 deletions(-)

diff --git a/reflect.go b/reflect.go
index fe33dba..6916871 100644
--- a/reflect.go
+++ b/reflect.go
@@ -2,6 +2,7 @@ package appdash
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"sort"
 	"strconv"
@@ -99,12 +100,16 @@ func parseValueToPtr(as reflect.Type, s string) (reflect.Value, error) {
 		}
 		return reflect.ValueOf(&t), nil
 	case [2]string{"time", "Duration"}:
-		// Multiply by 1000 because flattenValue divides by 1000.
-		usec, err := strconv.ParseFloat(s, 64)
+		// Multiply by a millisecond because flattenValue divides by it.
+		ms, err := strconv.ParseFloat(s, 64)
 		if err != nil {
 			return reflect.Value{}, err
 		}
-		d := time.Duration(usec * float64(time.Millisecond))
+		ns := math.Round(ms * float64(time.Millisecond))
+		if !(math.Abs(ns) < 1<<63) {
+			return reflect.Value{}, fmt.Errorf("duration out of range: %q", s)
+		}
+		d := time.Duration(ns)
 		return reflect.ValueOf(&d), nil
 	}
 
@@ -116,63 +121,37 @@ func parseValueToPtr(as reflect.Type, s string) (reflect.Value, error) {
 		if err != nil {
 			return reflect.Value{}, err
 		}
-		return reflect.ValueOf(&vv), nil
+		p := reflect.New(as)
+		p.Elem().SetBool(vv)
+		return p, nil
 	case reflect.Float32, reflect.Float64:
-		vv, err := strconv.ParseFloat(s, 32)
+		vv, err := strconv.ParseFloat(s, as.Bits())
 		if err != nil {
 			return reflect.Value{}, err
 		}
-		switch as.Kind() {
-		case reflect.Float32:
-			vvv := float32(vv)
-			return reflect.ValueOf(&vvv), nil
-		case reflect.Float64:
-			return reflect.ValueOf(&vv), nil
-		}
+		p := reflect.New(as)
+		p.Elem().SetFloat(vv)
+		return p, nil
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-		vv, err := strconv.ParseInt(s, 10, 64)
+		vv, err := strconv.ParseInt(s, 10, as.Bits())
 		if err != nil {
 			return reflect.Value{}, err
 		}
-		switch as.Kind() {
-		case reflect.Int:
-			vvv := int(vv)
-			return reflect.ValueOf(&vvv), nil
-		case reflect.Int8:
-			vvv := int8(vv)
-			return reflect.ValueOf(&vvv), nil
-		case reflect.Int16:
-			vvv := int16(vv)
-			return reflect.ValueOf(&vvv), nil
-		case reflect.Int32:
-			vvv := int32(vv)
-			return reflect.ValueOf(&vvv), nil
-		case reflect.Int64:
-			return reflect.ValueOf(&vv), nil
-		}
+		p := reflect.New(as)
+		p.Elem().SetInt(vv)
+		return p, nil
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		vv, err := strconv.ParseUint(s, 10, 64)
+		vv, err := strconv.ParseUint(s, 10, as.Bits())
 		if err != nil {
 			return reflect.Value{}, err
 		}
-		switch as.Kind() {
-		case reflect.Uint:
-			vvv := uint(vv)
-			return reflect.ValueOf(&vvv), nil
-		case reflect.Uint8:
-			vvv := uint8(vv)
-			return reflect.ValueOf(&vvv), nil
-		case reflect.Uint16:
-			vvv := uint16(vv)
-			return reflect.ValueOf(&vvv), nil
-		case reflect.Uint32:
-			vvv := uint32(vv)
-			return reflect.ValueOf(&vvv), nil
-		case reflect.Uint64:
-			return reflect.ValueOf(&vv), nil
-		}
+		p := reflect.New(as)
+		p.Elem().SetUint(vv)
+		return p, nil
 	case reflect.String:
-		return reflect.ValueOf(&s), nil
+		p := reflect.New(as)
+		p.Elem().SetString(s)
+		return p, nil
 	}
 	return reflect.Value{}, nil
 }
-- 
2.43.0


From d60fe51ddf731213511c80727ac77c20eacf6187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:35 +0000
Subject: [PATCH 13/15] fix: decoding an event lost the fields after an empty
 slice

unflattenValue looked for values of the slice in vain, dropping the values of
all fields that follow.
---
 reflect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reflect.go b/reflect.go
index 6916871..45c6a4a 100644
--- a/reflect.go
+++ b/reflect.go
@@ -164,6 +164,9 @@ func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]str
 		return nil
 	}
 	if !strings.HasPrefix((*kv)[0][0], prefix) && t.Kind() != reflect.Map { // map can have 0 fields
+		if (*kv)[0][0] > prefix {
+			return nil // no values for prefix (e.g. an empty slice); keep the rest for other fields
+		}
 		*kv = (*kv)[1:]
 		return unflattenValue(prefix, v, t, kv)
 	}
-- 
2.43.0


From 34986b2a35ab920e21862eb4575f14429f2498f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:44 +0000
Subject: [PATCH 14/15] fix: HTTP middleware counted body bytes that were not
 written

---
 httptrace/server.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/httptrace/server.go b/httptrace/server.go
index c1cf17c..3c3130c 100644
--- a/httptrace/server.go
+++ b/httptrace/server.go
@@ -159,13 +159,14 @@ type responseInfoRecorder struct {
 	http.ResponseWriter // underlying ResponseWriter to pass-thru to
 }
 
-// Write always succeeds and writes to r.Body, if not nil.
+// Write writes to the underlying ResponseWriter and counts the bytes it took.
 func (r *responseInfoRecorder) Write(b []byte) (int, error) {
-	r.ContentLength += int64(len(b))
 	if r.statusCode == 0 {
 		r.statusCode = http.StatusOK
 	}
-	return r.ResponseWriter.Write(b)
+	n, err := r.ResponseWriter.Write(b)
+	r.ContentLength += int64(n)
+	return n, err
 }
 
 func (r *responseInfoRecorder) StatusCode() int {
-- 
2.43.0


From 14523dd45a085bc0bf2b7c52cd1eec96cf36be00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:46 +0000
Subject: [PATCH 15/15] fix: a temporary root's parent is hung below its own
 collected parent

When the parent of a trace's temporary root was collected, it became the new
temporary root even if its own parent had been collected before. That parent was
then shown below its child. Make the topmost collected ancestor the root.
---
 store.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/store.go b/store.go
index be12ce4..1cc6774 100644
--- a/store.go
+++ b/store.go
@@ -157,6 +157,9 @@ func (ms *MemoryStore) collectNoLock(id SpanID, as ...Annotation) error {
 	if isRoot, isTempRootParent := id.IsRoot(), root.Span.ID.Parent == id.Span; s != root && (isRoot || isTempRootParent) {
 		oldRoot := root
 		root = s
+		if !isRoot {
+			root = ms.topAncestor(s) // s's own parent may be there already
+		}
 		if ms.log {
 			if isRoot {
 				log.Printf("Set real root %v and move temp root %v", root.Span.ID, oldRoot.Span.ID)
@@ -172,6 +175,9 @@ func (ms *MemoryStore) collectNoLock(id SpanID, as ...Annotation) error {
 		// (possibly temp) root.
 		var sub2 []*Trace
 		for _, c := range oldRoot.Sub {
+			if c == root {
+				continue
+			}
 			if c.Span.ID.Parent != oldRoot.Span.ID.Span {
 				if ms.log {
 					log.Printf("Move %v from old root %v to new (possibly temp) root %v", c.Span.ID, oldRoot.Span.ID, root.Span.ID)
@@ -199,6 +205,20 @@ func (ms *MemoryStore) collectNoLock(id SpanID, as ...Annotation) error {
 	return nil
 }
 
+// topAncestor returns the topmost collected ancestor of t, or t itself if its
+// parent has not been collected.
+func (ms *MemoryStore) topAncestor(t *Trace) *Trace {
+	seen := map[*Trace]bool{} // for parents that form a cycle
+	for {
+		p, present := ms.span[t.ID.Trace][t.ID.Parent]
+		if !present || seen[p] {
+			return t
+		}
+		seen[p] = true
+		t = p
+	}
+}
+
 // insert inserts t into the trace tree whose root (or temp root) is
 // root.
 func (ms *MemoryStore) insert(root, t *Trace) {
-- 
2.43.0

