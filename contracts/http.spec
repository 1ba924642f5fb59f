package httptrace "sourcegraph.com/sourcegraph/appdash/httptrace"

# ---- C16 ----

define HVal(h: http.Header, k: string): string = if k in h && len(h[k]) > 0 then h[k][0] else ""

# The identity a request's headers stand for.
define HeaderSpan(h: http.Header): string = HVal(h, "Span-Id")
define HeaderParent(h: http.Header): string = HVal(h, "Parent-Span-Id")

func getSpanIDHeader(h, key) (id, err)
  property C16
  ensures absent: HVal(h, canon(key)) == "" ==> id == nil && err == nil
  ensures valid: HVal(h, canon(key)) != "" && SpanTextOK(HVal(h, canon(key))) ==> err == nil && id != nil && *id == SpanTextVal(HVal(h, canon(key)))
  ensures malformed: HVal(h, canon(key)) != "" && !SpanTextOK(HVal(h, canon(key))) ==> err != nil
  modifies nothing

define HeaderErr(h: http.Header): bool =
    (HeaderSpan(h) != "" && !SpanTextOK(HeaderSpan(h)))
    || (HeaderSpan(h) == "" && HeaderParent(h) != "" && !SpanTextOK(HeaderParent(h)))

func getSpanID(h) (id, from, err)
  property C16 C17 C19
  modular
  ensures malformed: HeaderErr(h) ==> err != nil && log == old(log)
  modifies log
  ensures valid: !HeaderErr(h) ==> err == nil && id != nil
  ensures given: !HeaderErr(h) && HeaderSpan(h) != "" ==> *id == SpanTextVal(HeaderSpan(h)) && from == "Span-ID" && log == old(log)
  ensures child: !HeaderErr(h) && HeaderSpan(h) == "" && HeaderParent(h) != "" ==> (let p = SpanTextVal(HeaderParent(h)); from == "Parent-Span-ID"
      && id.Trace == p.Trace && id.Parent == p.Span && log == old(log) + ev.generateID() && id.Span == res(log, appdash.ID))
  ensures root: !HeaderErr(h) && HeaderSpan(h) == "" && HeaderParent(h) == "" ==> from == "" && id.Parent == 0
      && (let l1 = old(log) + ev.generateID(); let l2 = l1 + ev.generateID(); log == l2
      && ((id.Trace == res(l1, appdash.ID) && id.Span == res(l2, appdash.ID)) || (id.Trace == res(l2, appdash.ID) && id.Span == res(l1, appdash.ID))))

func GetSpanID(h) (id, err)
  property C16
  ensures malformed: HeaderErr(h) ==> err != nil
  ensures valid: !HeaderErr(h) ==> err == nil && id != nil
  ensures given: !HeaderErr(h) && HeaderSpan(h) != "" ==> *id == SpanTextVal(HeaderSpan(h))
  ensures child: !HeaderErr(h) && HeaderSpan(h) == "" && HeaderParent(h) != "" ==> (let p = SpanTextVal(HeaderParent(h));
      id.Trace == p.Trace && id.Parent == p.Span)
  ensures root: !HeaderErr(h) && HeaderSpan(h) == "" && HeaderParent(h) == "" ==> id.Parent == 0

func SetSpanIDHeader(h, e)
  property C16
  requires map: h != nil
  ensures set: HVal(h, "Span-Id") == SpanText(e) && len(h["Span-Id"]) == 1
  ensures others: forall k: string :: {k in h} {h[k]} k != "Span-Id" ==> ((k in h) <==> (k in old(h))) && seq(h[k]) == old(seq(h[k]))

func SpanIDFromContext(ctx) (id, ok)
  property C16
  requires context: ctx != nil
  ensures found: ok == typeis(ctxvalue(ctx, iface(contextKeySpanID, contextKey)), appdash.SpanID)
  ensures value: ok ==> id == unbox(ctxvalue(ctx, iface(contextKeySpanID, contextKey)), appdash.SpanID)

func SpanID(r) (id)
  property C16
  requires request: r != nil
  requires set: typeis(ctxvalue(ctxof(r), iface(contextKeySpanID, contextKey)), appdash.SpanID)
  ensures value: id == unbox(ctxvalue(ctxof(r), iface(contextKeySpanID, contextKey)), appdash.SpanID)

# ---- C17 ----

extern "strings.EqualFold" pure
extern "(*net/url.URL).RequestURI" pure

# redacted(names, k): header k matches one of the names in any letter case.
function redacted(seq[string], string): bool
axiom redacted: forall s: seq[string], k: string :: {redacted(s, k)} redacted(s, k) <==>
    (exists j: math :: {s[j]} 0 <= j < len(s) && pure("strings.EqualFold", bool, k, s[j]))

func isRedacted(name) (r)
  property C17 C16 C18 C19
  modular
  loop (i: math): 0 <= i && i <= len(RedactedHeaders) && (forall j: math :: {seq(RedactedHeaders)[j]} 0 <= j < i ==> !pure("strings.EqualFold", bool, name, seq(RedactedHeaders)[j]))
  ensures match: r == redacted(seq(RedactedHeaders), name)
  modifies nothing

define RedactedOK(): bool = seq(redacted) == snoc(emptyseq(string), "REDACTED")

# The values of header k.
define HVals(h: http.Header, k: string): seq[string] = if k in h then seq(h[k]) else emptyseq(string)

# The values recorded for header k.
define Values(k: string, h: seq[string], t: seq[string]): seq[string] =
    if redacted(seq(RedactedHeaders), k) then snoc(emptyseq(string), "REDACTED") else cat(h, t)

# m has, under its canonical name, every header and trailer, and nothing else.
define Recorded(m: map[string]string, h: http.Header, t: http.Header): bool =
    (forall k: string :: {k in h} {k in t} k in h || k in t ==> canon(k) in m)
    && (forall c: string :: {c in m} c in m ==> (exists k: string :: {canon(k)} (k in h || k in t) && canon(k) == c
        && m[c] == join(Values(k, HVals(h, k), HVals(t, k)), ",")))

func redactHeaders(header, trailer) (m)
  property C17 C16 C18 C19
  modular
  requires placeholder: RedactedOK()
  loop (w: set[string], h: http.Header): keys(h) == w && (forall k: string :: {k in h} k in h ==> k in header && wf(h[k]) && seq(h[k]) == old(Values(k, HVals(header, k), emptyseq(string))))
  loop (w: set[string], h: http.Header): forall k: string :: {k in h} {k in header} {k in w} (k in h <==> k in header || k in w)
  loop (w: set[string], h: http.Header): forall k: string :: {k in h} k in h ==> wf(h[k])
  loop (w: set[string], h: http.Header): forall k: string :: {k in h} k in h && k in w && redacted(old(seq(RedactedHeaders)), k) ==> seq(h[k]) == old(Values(k, HVals(header, k), HVals(trailer, k)))
  loop (w: set[string], h: http.Header): forall k: string :: {k in h} k in h && k in w && !redacted(old(seq(RedactedHeaders)), k) ==> seq(h[k]) == old(Values(k, HVals(header, k), HVals(trailer, k)))
  loop (w: set[string], h: http.Header): forall k: string :: {k in h} k in h && !(k in w) ==> seq(h[k]) == old(Values(k, HVals(header, k), emptyseq(string)))
  loop (w: set[string], n: map[string]string): (forall k: string :: {k in w} k in w ==> canon(k) in n)
  loop (w: set[string], h: const http.Header, n: map[string]string): forall c: string :: {c in n} c in n ==> (exists k: string :: {canon(k)} k in w && canon(k) == c && n[c] == join(seq(h[k]), ","))
  ensures recorded: Recorded(m, header, trailer)
  ensures new: m != nil && fresh(m)
  modifies nothing

func requestInfo(r) (i)
  property C17
  requires placeholder: RedactedOK()
  requires request: r != nil && r.URL != nil
  ensures headers: Recorded(i.Headers, r.Header, r.Trailer)
  ensures fields: i.Method == r.Method && i.Proto == r.Proto && i.Host == r.Host && i.RemoteAddr == r.RemoteAddr && i.ContentLength == r.ContentLength
  ensures uri: i.URI == pure("(*net/url.URL).RequestURI", string, r.URL)
  modifies nothing

func responseInfo(r) (i)
  property C17
  requires placeholder: RedactedOK()
  requires response: r != nil
  ensures headers: Recorded(i.Headers, r.Header, r.Trailer)
  ensures fields: i.StatusCode == r.StatusCode && i.ContentLength == r.ContentLength
  modifies nothing

func NewServerEvent(r) (e)
  property C17
  requires placeholder: RedactedOK()
  requires request: r != nil && r.URL != nil
  ensures headers: e != nil && Recorded(e.Request.Headers, r.Header, r.Trailer)
  modifies nothing

func NewClientEvent(r) (e)
  property C17
  requires placeholder: RedactedOK()
  requires request: r != nil && r.URL != nil
  ensures headers: e != nil && Recorded(e.Request.Headers, r.Header, r.Trailer)
  modifies nothing

# ---- C19 ----

define Final(code: int): bool = code < 100 || code > 199 || code == 101

func (*responseInfoRecorder).WriteHeader(r, code)
  property C19
  requires writer: r.ResponseWriter != nil
  ensures forwarded: log == old(log) + ev.WriteHeader(old(r.ResponseWriter), code)
  ensures status: r.statusCode == (if old(r.statusCode) == 0 && Final(code) then code else old(r.statusCode))
  ensures length: r.ContentLength == old(r.ContentLength) && r.ResponseWriter == old(r.ResponseWriter)

func (*responseInfoRecorder).Write(r, b) (n, err)
  property C19
  requires writer: r.ResponseWriter != nil
  ensures forwarded: log == old(log) + ev.Write(old(r.ResponseWriter), old(seq(b)))
  ensures results: n == res(log, int) && err == res1(log, error)
  ensures status: r.statusCode == (if old(r.statusCode) == 0 then 200 else old(r.statusCode))
  ensures length: (-9223372036854775808 <= old(r.ContentLength) + n <= 9223372036854775807 ==> r.ContentLength == old(r.ContentLength) + n) && r.ResponseWriter == old(r.ResponseWriter)

func (*responseInfoRecorder).Flush(r)
  property C19
  requires writer: r.ResponseWriter != nil
  ensures forwarded: log == (if typeis(old(r.ResponseWriter), http.Flusher) then old(log) + ev.Flush(old(r.ResponseWriter)) else old(log))
  ensures same: r.statusCode == old(r.statusCode) && r.ContentLength == old(r.ContentLength) && r.ResponseWriter == old(r.ResponseWriter)

# What is known about the identity used for headers with the values hs and hp, when the
# history went from l0 to l: it is the one they name, or made from fresh IDs.
define Identity(hs: string, hp: string, id: appdash.SpanID, l0: Log, l: Log): bool =
    let err = (hs != "" && !SpanTextOK(hs)) || (hs == "" && hp != "" && !SpanTextOK(hp));
    if !err && hs != "" then l == l0 && id == SpanTextVal(hs)
    else if !err && hp != "" then l == l0 + ev.generateID() && id.Trace == SpanTextVal(hp).Trace && id.Parent == SpanTextVal(hp).Span && id.Span == res(l, appdash.ID)
    else (let l1 = l0 + ev.generateID(); l == l1 + ev.generateID() && id.Parent == 0
      && ((id.Trace == res(l1, appdash.ID) && id.Span == res(l, appdash.ID)) || (id.Trace == res(l, appdash.ID) && id.Span == res(l1, appdash.ID))))

extern "call" event modifies 0 1

define SpanIn(q: *http.Request): any = ctxvalue(ctxof(q), iface(contextKeySpanID, contextKey))

define Rec(w: any): *responseInfoRecorder = unbox(w, *responseInfoRecorder)

func Middleware(c, conf) (h)
  property C16 C17 C19
  applies (rw, r, next)
  requires placeholder: RedactedOK()
  requires args: c != nil && conf != nil
  requires request: rw != nil && r != nil && r.URL != nil && next != nil
  ghost calls: math = 0
  ghost told: math = 0
  ghost used: appdash.SpanID = mk(appdash.SpanID, 0, 0, 0)
  ghost w: any = nil
  ghost hdrs: http.Header = nil
  ghost h1: http.Header = nil
  ghost t1: http.Header = nil
  ghost h2: http.Header = nil
  ghost t2: http.Header = nil
  before call(f, x: http.ResponseWriter, q: *http.Request): h1 = q.Header
  before call(f, x: http.ResponseWriter, q: *http.Request): t1 = q.Trailer
  on call(f, x: http.ResponseWriter, q: *http.Request): h2 = q.Header
  on call(f, x: http.ResponseWriter, q: *http.Request): t2 = q.Trailer
  ghost anns: seq[appdash.Annotation] = emptyseq(appdash.Annotation)
  ghost events: math = 0
  ghost colls: math = 0
  ghost failed: bool = false
  on call(f, q: *http.Request, id: appdash.SpanID): told = told + 1
  on call(f, q: *http.Request, id: appdash.SpanID): used = id
  on call(f, x: http.ResponseWriter, q: *http.Request): calls = calls + 1
  before call(f, x: http.ResponseWriter, q: *http.Request): used = (if conf.SetContextSpan != nil then used else unbox(SpanIn(q), appdash.SpanID))
  on call(f, x: http.ResponseWriter, q: *http.Request): w = x
  assume-after call(f, x: http.ResponseWriter, q: *http.Request) [the handler leaves the request a URL, the recorder its writer]: q.URL != nil && Rec(x).ResponseWriter == rw
  assume-after call(f, q: *http.Request) [a callback leaves the request a URL]: q.URL != nil
  assume-after call(f, q: *http.Request, id: appdash.SpanID) [a callback leaves the request a URL]: q.URL != nil
  assume-after Header(x) [a response writer has one header map, its own]: res(log, http.Header) != nil && res(log, http.Header) != h1 && res(log, http.Header) != t1 && res(log, http.Header) != h2 && res(log, http.Header) != t2 && (hdrs != nil ==> res(log, http.Header) == hdrs)
  on Header(x): hdrs = res(log, http.Header)
  oncall call(f, q: *http.Request, id: appdash.SpanID) [the callback gets the span ID]: f == conf.SetContextSpan && told == 0 && calls == 0 && q == r
      && Identity(old(HeaderSpan(r.Header)), old(HeaderParent(r.Header)), id, old(log), log)
  oncall call(f, x: http.ResponseWriter, q: *http.Request) [next is called once with a fresh recorder of the writer]: f == next && calls == 0
      && typeis(x, *responseInfoRecorder) && Rec(x).ResponseWriter == rw && Rec(x).statusCode == 0 && Rec(x).ContentLength == 0
      && (if conf.SetContextSpan != nil then told == 1 && q == r else (told == 0 && typeis(SpanIn(q), appdash.SpanID) && Identity(old(HeaderSpan(r.Header)), old(HeaderParent(r.Header)), unbox(SpanIn(q), appdash.SpanID), old(log), log)))
  on MarshalEvent(m): anns = (if colls == 0 then cat(anns, seq(res(log, appdash.Annotations))) else anns)
  on MarshalEvent(m): events = (if typeis(m, *ServerEvent) then events + 1 else events)
  assume-after MarshalEvent(m) [these events can be encoded]: res1(log, error) == nil
  on Collect(x, id, as): failed = (if colls == 0 then res(log, error) != nil else failed)
  on Collect(x, id, as): colls = colls + 1
  oncall MarshalEvent(m) [the event has the request's headers]: typeis(m, *ServerEvent) ==> (let e = unbox(m, *ServerEvent);
      Recorded(e.Request.Headers, h1, t1) || Recorded(e.Request.Headers, h2, t2))
  oncall MarshalEvent(m) [the event has what was sent]: calls == 1 && (typeis(m, *ServerEvent) ==> (let e = unbox(m, *ServerEvent);
      e.Response.StatusCode == (if Rec(w).statusCode == 0 then 200 else Rec(w).statusCode) && e.Response.ContentLength == Rec(w).ContentLength && Recorded(e.Response.Headers, hdrs, nil)))
  oncall Collect(x, id, as) [collected under the used ID, once]: x == c && id == used && calls == 1 && (colls == 0 || failed)
      && (colls == 0 ==> events == 1 && seq(as) == anns)
  ensures handled: calls == 1
  ensures recorded: colls == 1 || (colls > 1 && failed)
  ensures response: HVal(hdrs, "Span-Id") == SpanText(used)

# ---- C18 ----

guard Transport.reqMu: requests

# q is a copy of o, header map apart.
define SameRequest(q: *http.Request, o: *http.Request): bool =
    q.Method == o.Method && q.URL == o.URL && q.Proto == o.Proto && q.ProtoMajor == o.ProtoMajor && q.ProtoMinor == o.ProtoMinor
    && q.Body == o.Body && q.ContentLength == o.ContentLength && q.TransferEncoding == o.TransferEncoding && q.Close == o.Close && q.Host == o.Host
    && q.Form == o.Form && q.PostForm == o.PostForm && q.MultipartForm == o.MultipartForm && q.Trailer == o.Trailer && q.RemoteAddr == o.RemoteAddr
    && q.RequestURI == o.RequestURI && q.TLS == o.TLS && q.Cancel == o.Cancel && q.Response == o.Response && ctxof(q) == ctxof(o)

define SameHeader(h: http.Header, g: http.Header, k: string): bool = ((k in h) <==> (k in g)) && (k in g ==> seq(h[k]) == seq(g[k]))

func cloneRequest(r) (q)
  property C17 C18
  modular
  requires request: r != nil
  loop (w: set[string], h: http.Header): keys(h) == w && (forall k: string :: {k in h} k in h ==> k in r.Header && wf(h[k]) && seq(h[k]) == old(seq(r.Header[k])))
  loop (w: set[string], q: const *http.Request): keys(q.Header) == w && (forall k: string :: {k in q.Header} k in q.Header ==> k in r.Header && wf(q.Header[k]) && seq(q.Header[k]) == old(seq(r.Header[k])))
  ensures new: q != nil && fresh(q) && fresh(q.Header)
  ensures copy: SameRequest(q, r)
  ensures header: keys(q.Header) == keys(r.Header) && (forall k: string :: {k in q.Header} k in r.Header ==> wf(q.Header[k]) && seq(q.Header[k]) == seq(r.Header[k]))
  modifies nothing

func (*Transport).setCloneRequest(t, original, clone)
  property C18
  ensures kept: clone != nil ==> original in t.requests && t.requests[original] == clone
  ensures removed: clone == nil ==> !(original in t.requests)

func (*Transport).getTransport(t) (r)
  property C18
  ensures own: r == (if t.Transport != nil then t.Transport else http.DefaultTransport)
  modifies nothing

func (*Transport).RoundTrip(t, original) (resp, err)
  property C17 C18
  requires placeholder: RedactedOK()
  requires request: original != nil && original.URL != nil
  requires recorder: t.Recorder != nil && t.Recorder.collector != nil
  requires default: http.DefaultTransport != nil
  ghost trips: math = 0
  ghost g1: appdash.ID = 0
  ghost g2: appdash.ID = 0
  on generateID(): g2 = g1
  on generateID(): g1 = res(log, appdash.ID)
  ghost sent: *http.Request = nil
  ghost answer: *http.Response = nil
  ghost fault: error = nil
  ghost anns: seq[appdash.Annotation] = emptyseq(appdash.Annotation)
  ghost events: math = 0
  ghost colls: math = 0
  ghost failed: bool = false
  on RoundTrip(x, q): trips = trips + 1
  on RoundTrip(x, q): sent = q
  on RoundTrip(x, q): answer = res(log, *http.Response)
  on RoundTrip(x, q): fault = res1(log, error)
  assume-after RoundTrip(x, q) [a transport returns a response or an error]: res1(log, error) == nil ==> res(log, *http.Response) != nil
  on MarshalEvent(m): anns = (if colls == 0 then cat(anns, seq(res(log, appdash.Annotations))) else anns)
  on MarshalEvent(m): events = (if typeis(m, *ClientEvent) then events + 1 else events)
  assume-after MarshalEvent(m) [these events can be encoded]: res1(log, error) == nil
  on Collect(x, id, as): failed = (if colls == 0 then res(log, error) != nil else failed)
  on Collect(x, id, as): colls = colls + 1
  oncall RoundTrip(x, q) [the underlying transport is called once with a copy]: trips == 0 && q != original
      && x == (if t.Transport != nil then t.Transport else http.DefaultTransport) && SameRequest(q, original)
  oncall RoundTrip(x, q) [only the Span-ID header differs]: q.Header != original.Header && len(q.Header["Span-Id"]) == 1
      && (forall k: string :: {k in q.Header} {k in original.Header} k != "Span-Id" ==> SameHeader(q.Header, original.Header, k))
  oncall RoundTrip(x, q) [the header names a new child]: HVal(q.Header, "Span-Id") == SpanText(mk(appdash.SpanID, t.Recorder.SpanID.Trace, g1, t.Recorder.SpanID.Span))
      || HVal(q.Header, "Span-Id") == SpanText(mk(appdash.SpanID, t.Recorder.SpanID.Trace, g2, t.Recorder.SpanID.Span))
  oncall MarshalEvent(m) [the event has the outcome]: typeis(m, *ClientEvent) ==> (let e = unbox(m, *ClientEvent); trips == 1
      && e.Response.StatusCode == (if fault == nil then answer.StatusCode else -1)
      && (fault == nil ==> e.Response.ContentLength == answer.ContentLength && Recorded(e.Response.Headers, answer.Header, answer.Trailer))
      && Recorded(e.Request.Headers, sent.Header, sent.Trailer))
  oncall Collect(x, id, as) [collected once, under a new child]: x == t.Recorder.collector && id.Trace == t.Recorder.SpanID.Trace && id.Parent == t.Recorder.SpanID.Span && (id.Span == g1 || id.Span == g2)
      && trips == 1 && (colls == 0 || failed) && (colls == 0 ==> events == 1 && seq(as) == anns)
  ensures transparent: trips == 1 && resp == answer && err == fault
  ensures recorded: colls == 1 || (colls > 1 && failed)
  ensures request: *original == old(*original)
  ensures header: forall k: string :: {k in original.Header} {old(k in original.Header)} SameHeader(original.Header, old(original.Header), k)
  ensures bookkeeping: !(original in t.requests)
