#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept in step with MANIFEST.json).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)

p("C01","Span identity survives its text forms; malformed text is rejected",
 "Formatting any span ID as text and parsing that text yields exactly the same trace, span and parent IDs, whether or not there is a parent. Any text that is not two or three slash-separated hexadecimal 64-bit numbers is rejected with an error (and no ID), never a panic or a partially parsed ID. A single ID's JSON form is its 16-digit hexadecimal text, and decoding accepts that or a JSON unsigned integer and rejects everything else without changing the destination.",
 ["inputs"],"every trace/span/parent value in 64 bits, every input string and every JSON document",
 "The tests format and parse a handful of fixed IDs; no finite sample covers all 2^192 IDs or all malformed strings.",
 ["span.go","id.go"],[("SpanID.String","span.go"),("ParseSpanID","span.go"),("ID.String / ParseID / MarshalJSON / UnmarshalJSON","id.go")],["text of HTTP headers, URLs and JSON"])
p("C02","New span IDs carry their causality and never reuse random material",
 "A child span ID keeps its parent's trace ID and names the parent's span as its parent; a root span ID has no parent. Every generated 64-bit ID consumes a fresh, never before consumed position of the random keystream, under any interleaving of callers, and generation never panics.",
 ["inputs","histories","schedules"],"every parent ID, every history and interleaving of ID generation calls, every 128-bit initial counter",
 "Tests generate a few hundred thousand IDs; counter carries deep in the 128-bit counter and lock-order effects are never reached.",
 ["id.go","span.go"],[("generateID (keystream position, counter increment)","id.go"),("NewRootSpanID / NewSpanID","span.go")])
p("C03","A collection arrives over the wire exactly as it was sent",
 "Converting a span ID and its annotations to a wire packet and back gives the same span ID and the same annotations in the same order, each with its own key and value. A received packet that omits the optional parent denotes a root span (parent zero) and is never an error or a crash.",
 ["inputs"],"every span ID, every annotation list of any length and content, every well-formed received packet",
 "Tests send a few fixed packets and always set the parent.",
 ["span.go","collector.go","internal/wire/collector.proto"],[("SpanID.wire / spanIDFromWire","span.go"),("Annotations.wire / annotationsFromWire","span.go"),("newCollectPacket","collector.go")])
p("C04","The collector server collects each received packet exactly once, in order",
 "On each connection, every packet decoded before the first read or collect error is passed to the collector exactly once, in arrival order, with the packet's own span ID and annotations; after the first error nothing more is collected from that connection. A clean end of stream ends the connection without an error, any other read failure or collector failure ends only that connection and is reported, and the connection is always closed.",
 ["inputs","fault_sequences","histories"],"every sequence of well-formed packets, every point at which reading or collecting fails, every debug/trace logging setting",
 "Tests send a few packets over a healthy connection; failing reads, failing collectors and logging modes are not exercised together.",
 ["collector.go"],[("CollectorServer.handleConn","collector.go")])
p("C05","The remote collector reports success only for data it has written",
 "A collect call on the remote collector returns success only if its packet was written without error to the connection currently held, and an error from the last attempt is always returned. A failed write on an existing connection causes exactly one reconnect and one retry of the same packet, a superseded connection is closed before the new one is dialled, and after a close no connection is held.",
 ["fault_sequences","histories"],"every sequence of collect and close calls and every combination of dial, write and close failures",
 "Tests use one healthy server and a couple of reconnects.",
 ["collector.go"],[("RemoteCollector.collectAndRetry / connect / collect / Close","collector.go")])
p("C06","Collected spans form the right trace tree whatever the arrival order",
 "After any sequence of collections of a trace's spans (with acyclic parent links), each span appears exactly once in that trace's tree; a span whose parent has been collected is a direct child of that parent, and other non-root spans hang from the tree's root. The tree's root is the span without a parent once that span has been collected, so once all spans are in, the tree does not depend on arrival order.",
 ["inputs","histories"],"every finite history of collections over any traces, any arrival order, duplicates included; parent links acyclic, span IDs non-zero",
 "Tests try a few fixed arrival orders of up to five spans; the number of orders and shapes is unbounded.",
 ["store.go"],[("MemoryStore.collectNoLock / insert / reattachChildren","store.go")],["Store.Trace result"])
p("C07","Annotations are kept completely, in order, on the right span",
 "Each span in the memory store carries exactly the annotations collected for that span ID, in the order they were collected, and those of other spans and traces are unaffected by a collection. Once a collect call on the memory store or the chunked collector has returned, changing or extending the slice the caller passed does not alter what was collected.",
 ["inputs","histories"],"every history of collections, any annotation counts, any later reuse by the caller of the slice it passed",
 "Tests never reuse the slice they passed and collect only small fixed lists.",
 ["store.go","collector.go"],[("MemoryStore.collectNoLock","store.go"),("ChunkedCollector.Collect","collector.go")])
p("C08","Lookup, listing and deletion in the memory store are exact",
 "Looking up a trace succeeds exactly when some span of it was collected since it was last deleted, and otherwise reports that it was not found. Listing returns every stored trace exactly once, or exactly the stored traces among the requested trace IDs when a filter is given. Deleting removes exactly the named traces, completely, and leaves all others unchanged.",
 ["inputs","histories"],"every store state, trace ID, filter list and delete list",
 "Tests look up, list or delete one or two traces.",
 ["store.go"],[("MemoryStore.Trace / Traces / Delete","store.go")])
p("C09","Saving and loading a store preserves it and never leaves a half state",
 "Loading what a memory store wrote gives a store with the same traces that keeps working as the original would: later collections to its spans, new children and deletions are visible in lookups. A failed load leaves the store unchanged. Periodic persistence replaces the target file only after the new contents have been written and closed without error.",
 ["inputs","histories","fault_sequences","crash_points"],"every store content, every later operation sequence, every failing temp-file, write, close or rename step",
 "Tests load once and only look at the traces; they never collect into a loaded store or fail a step.",
 ["store.go"],[("MemoryStore.Write / ReadFrom","store.go"),("PersistEvery","store.go")])
p("C10","The limit store never keeps more than its maximum and evicts the oldest",
 "A limit store with positive maximum N never tracks more than N traces, for any trace ID values; collecting a new trace at capacity first deletes exactly the trace that was first seen longest ago, and otherwise nothing is deleted. Collections for already tracked traces never evict, every accepted collection is forwarded exactly once, and if the deletion fails its error is returned and the collection is not forwarded.",
 ["inputs","histories","fault_sequences"],"every capacity, every history of collections over any trace IDs (zero included), every failure of the underlying store",
 "Tests use one capacity and a few non-zero IDs and no failing store.",
 ["store.go"],[("LimitStore.Collect","store.go")])
p("C11","The recent store forwards everything and deletes exactly expired traces",
 "Every collection on a recent store is forwarded exactly once and its error returned. When eviction runs it requests deletion of exactly the tracked traces first seen before the cut-off (now minus the minimum age), each once, and stops tracking exactly those; the trace being collected is tracked when its collection is forwarded, so no stored trace escapes later eviction.",
 ["inputs","histories"],"every minimum age, every history and timing of collections",
 "Tests use one timing and look only at one evicted trace.",
 ["store.go"],[("RecentStore.Collect / evictBefore","store.go")])
p("C12","The chunked collector's queue is exact, bounded and honest about drops",
 "Between flushes the pending queue holds, for each span collected, exactly the annotations accepted for it, in order, and its accounted size is the sum of the accepted entries' sizes and never exceeds a non-zero maximum. A collection that would exceed the maximum empties the whole queue and is reported as dropped, and only then is anything dropped; an error remembered from a background flush is returned by exactly one later collect call, and a stopped collector accepts nothing.",
 ["inputs","histories"],"every maximum size, every sequence of collections, flushes and stops",
 "Tests fill the queue in one or two fixed ways.",
 ["collector.go"],[("ChunkedCollector.Collect","collector.go")])
p("C13","A flush hands every queued span on exactly once and reports every error",
 "A flush takes the whole pending queue and passes each queued span and its annotations to the underlying collector exactly once, unless its timeout is exceeded, in which case the rest is dropped and that is reported as an error. It succeeds exactly when no underlying collect failed and nothing was dropped, a single error is returned as is, and stopping is safe at any time: before the first collection, once or repeatedly.",
 ["inputs","histories","fault_sequences","schedules"],"every queue content, every pattern of underlying failures and timeouts, every call history of stop",
 "Tests use two or three spans and one failure pattern and stop only a started collector once.",
 ["collector.go"],[("ChunkedCollector.Flush / Stop","collector.go")])
p("C14","A recorder delivers its events once, in order, at finish",
 "Until it is finished a recorder delivers none of its events; finishing delivers to its collector, in one collection for its own span, exactly the annotations of the successfully recorded events in recording order. A second finish delivers no annotations of the events again and is reported as an error; errors are kept in order and handed out once, or go to the logger when one is set.",
 ["inputs","histories","fault_sequences"],"every sequence of events, finishes and error reads, every marshalling or collecting failure",
 "Tests record two events and finish once or twice.",
 ["recorder.go"],[("Recorder.Event / Finish / Annotation / Errors / error","recorder.go")])
p("C15","Multi-stores fan out in order and multi-queries return the exact union",
 "Collecting to a multi-store passes the collection to each store in order up to and including the first that fails, and returns that failure. A lookup returns the first store's answer that is not \"not found\", whether a trace or an error, and \"not found\" only if every store says so. A multi-query passes its options to every queryer and returns each distinct trace ID once, in first-seen order, or the first error.",
 ["inputs","fault_sequences"],"every number of stores, every combination of results and failures, overlapping answers",
 "Tests use two or three stores that mostly succeed.",
 ["multi.go"],[("multiStore.Collect / Trace","multi.go"),("multiQueryer.Traces","multi.go")])
p("C16","Span identity travels through HTTP headers on every request",
 "A request with a valid Span-ID header is handled under exactly that span ID; with only a valid Parent-Span-ID, under a new child of it; with neither, under a new root. A malformed header is an error for the header lookup, but the middleware still runs the handler, under a new root span. The span ID the middleware uses is the one put in the request context (or given to the callback), set on the response header and recorded.",
 ["inputs"],"every header map and header value, every middleware configuration",
 "Tests send only well-formed headers.",
 ["httptrace/header.go","httptrace/server.go"],[("getSpanID / getSpanIDHeader / SetSpanIDHeader","httptrace/header.go"),("Middleware","httptrace/server.go")])
p("C17","Redacted headers never reach a recorded event and nothing else is lost",
 "In every recorded HTTP event, each header or trailer whose name matches a redacted name, in any letter case, appears only as REDACTED; every other header and trailer appears under its canonical name with all its values comma-joined in order. Recording never alters the request's or response's own headers.",
 ["inputs"],"every header and trailer map and every redaction list",
 "Tests redact one header with one casing and no trailers.",
 ["httptrace/client.go"],[("redactHeaders / isRedacted","httptrace/client.go")])
p("C18","The tracing HTTP transport is transparent and records every round trip",
 "A round trip calls the underlying transport exactly once with a copy of the caller's request that differs only by a Span-ID header naming a new child of the recorder's span; the caller's request and headers are left unchanged, and the underlying response and error are returned as they are. Exactly one collection is recorded per round trip, also when it fails (status -1), and no request bookkeeping is left behind afterwards.",
 ["inputs","fault_sequences"],"every request, every transport result or failure",
 "Tests make one successful and one failing request.",
 ["httptrace/client.go"],[("Transport.RoundTrip / cloneRequest / setCloneRequest","httptrace/client.go")])
p("C19","The server middleware is transparent and records what was sent",
 "The middleware calls the next handler exactly once with a writer that forwards headers, status, body bytes and flushes unchanged to the real one, in order and with its results. After the handler returns it makes exactly one collection, whose status is the first final status the handler sent (200 if it set none) and whose length is the number of body bytes written.",
 ["inputs","histories"],"every handler behaviour: any sequence of WriteHeader, Write and Flush calls, every middleware configuration",
 "Tests use handlers that write once.",
 ["httptrace/server.go"],[("Middleware","httptrace/server.go"),("responseInfoRecorder","httptrace/server.go")])
p("C20","A sampled OpenTracing span is recorded completely; an unsampled one never",
 "A sampled OpenTracing span is recorded under its own trace, span and parent IDs: its operation name, every log record, every tag, every baggage item and its time span, each once, all with that ID. An unsampled span records nothing. A log record or event that cannot be encoded, or a collect failure, is reported and does not stop the remaining items.",
 ["inputs","fault_sequences"],"every raw span, any number of logs, tags and baggage items, every failing collect call",
 "Tests record one span with fixed contents and one failing collector.",
 ["opentracing/recorder.go"],[("Recorder.RecordSpan / collectEvent / collectAnnotation / logError","opentracing/recorder.go")])
p("C21","Scalar event fields keep their value through annotations",
 "An event field that is (of a type without a String method of its own) a string, boolean, signed or unsigned integer of any width, float of either width, time or duration (up to 26 days), encoded to annotations and decoded again, has the same value. Text that cannot be parsed as the field's type leaves the field unset: it is never a panic, a wrapped-around number or a different value.",
 ["inputs"],"every field type and every value in its range; every input text",
 "Tests encode a few small values; they miss precision loss and named types.",
 ["reflect.go"],[("parseValueToPtr / parseValue","reflect.go"),("flattenValue / unflattenValue","reflect.go")])
p("C22","Events are decoded by schema: all registered ones, and only those",
 "Marshalling an event yields its own annotations followed by one marker naming its schema, and fails exactly when the event's own marshaller does. Decoding annotations into an event succeeds only when their schema markers include that event's schema. Decoding all events yields one event per marker of a registered schema, in order, ignoring unknown schemas, and registration rejects duplicate and empty schema names.",
 ["inputs"],"every annotation list and every set of registered schemas",
 "Tests use fixed event lists.",
 ["event.go","span.go"],[("MarshalEvent / UnmarshalEvent / UnmarshalEvents / RegisterEvent","event.go"),("Annotations.schemas / get","span.go")])
p("C23","Shared state is only touched under its lock, and locks are always released",
 "Every access to the state shared between goroutines by the memory, recent and limit stores, the chunked and remote collectors, the recorder's error list, the client transport's request table and the ID generator happens while holding the lock that protects it. No exported operation returns, or panics on valid use, with such a lock still held, or acquires a lock it already holds.",
 ["schedules","inputs"],"every goroutine interleaving of exported operations and every path through them",
 "The tests run without the race detector and few of them are concurrent; an unlocked path shows only under an unlucky schedule.",
 ["store.go","collector.go","recorder.go","id.go","httptrace/client.go"],[("MemoryStore.Mutex, RecentStore.mu, LimitStore.mu","store.go"),("ChunkedCollector.mu, RemoteCollector.mu","collector.go"),("Recorder.errorsMu","recorder.go"),("m","id.go"),("Transport.reqMu","httptrace/client.go")])
p("C24","Span search and time extents in a trace are exact",
 "Searching a trace for a span ID returns a span with that ID that is in the tree, or nothing exactly when no span in the tree has it. The time extent of a set of events is the earliest start and the latest end over all events that have a time span with a non-zero start, and is reported missing exactly when there is none.",
 ["inputs"],"every finite tree, every event list",
 "Tests search two fixed trees.",
 ["trace.go"],[("Trace.FindSpan","trace.go"),("findTraceTimes","trace.go")])
p("C25","The profile view accounts for every span's time exactly",
 "The profile of a trace lists each of its spans exactly once, in depth-first order. Each entry's own time is its longest time span in rounded milliseconds, its children time adds its direct children's own times, and its cumulative time adds its children's cumulative times.",
 ["inputs"],"every finite trace tree and every assignment of time spans",
 "The package has no tests.",
 ["traceapp/prof.go"],[("App.calcProfile","traceapp/prof.go")])
p("C26","With basic auth configured, only the right credentials reach the web app",
 "When basic auth is configured, a request reaches the web application exactly when its authorization header equals the configured credentials' encoding. Every other request is answered 401 with a challenge and never reaches the application.",
 ["inputs"],"every header value and every configured user and password",
 "The package has no tests.",
 ["cmd/appdash/serve_cmd.go"],[("basicAuthHandler.ServeHTTP / newBasicAuthHandler","cmd/appdash/serve_cmd.go")])
p("C27","Uploading traces stores each new trace completely and never merges",
 "Uploading traces collects every span of each uploaded trace, parents before children, each exactly once with its own ID and annotations. A trace whose ID is already stored is skipped untouched, and the first collection failure stops the upload and is reported.",
 ["inputs","fault_sequences"],"every list of finite trace trees, every store content and failure",
 "The package has no tests.",
 ["traceapp/trace.go","traceapp/app.go"],[("collectTrace","traceapp/trace.go"),("App.uploadTraces","traceapp/app.go")])
p("C28","Queued data is eventually flushed in the background",
 "After a collection is accepted by a chunked collector that is not stopped, it is handed to the underlying collector, or reported dropped, within a bounded time.",
 ["schedules"],"every schedule and clock behaviour","Timing-dependent tests sample one schedule.",
 ["collector.go"],[("ChunkedCollector.start","collector.go")])
p("C29","The collector server keeps accepting connections after accept errors",
 "A temporary failure to accept a connection never stops the server from serving later connections.",
 ["fault_sequences","schedules"],"every sequence of accept failures","Tests never fail accept.",
 ["collector.go"],[("CollectorServer.Start","collector.go")])
p("C30","The Python client produces the same wire packets as the Go client",
 "For the same span ID and annotations the Python collector sends bytes that the Go server decodes to the same collection.",
 ["inputs"],"every span ID and annotation list","There are no cross-language tests.",
 ["python/appdash"],[("python client","python/appdash")])
p("C31","Traces handed out by the memory store can be read while collecting goes on",
 "Reading a trace returned by the memory store concurrently with further collections sees a consistent tree and never races.",
 ["schedules"],"every interleaving of a reader with collections","Tests never read and collect concurrently.",
 ["store.go"],[("MemoryStore.Trace / Traces","store.go")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
